"""What each check consists of."""

TRUST = [
    'clang 18 front end and opt mem2reg/simplifycfg translate /repo\'s C++ (at -O0, asserts on) to LLVM IR faithfully; the IR is regenerated from /repo on every run',
    'the verifier in /verif/engine (IR semantics, memory model with disjoint objects, loop rule) and z3/cvc5 are trusted',
    'operator new never fails; distinct objects do not overlap; signed wrap-around is two\'s complement (nsw flags are not obligations)',
]
TRUST_BASE = ['/verif/engine/{ll,sym,loops,builtins_}.py', 'z3 (python z3-solver)', 'cvc5 1.1.2 (fallback)', 'clang 18.1.3 + opt', 'libstdc++ headers (inlined from source, not assumed)']

CUT = [{'pat': r'wordring::'}]

PROPS = {}

PROPS['C05'] = dict(
    level='proof',
    units=[dict(src='c05.cpp')],
    cfg=dict(cuts=CUT),
    entry_cfg={'cast_strings': dict(native_only=True)},
    assumptions=['inputs are clean encodings of scalar values (the documented precondition of unicode.hpp)',
                 'the convenience overloads on std::basic_string are only run natively (bounded)'],
)

PROPS['C06'] = dict(
    level='proof', native_s=1,
    units=[dict(src='c06.cpp', libs=['/repo/lib/whatwg/encoding/encoding.cpp'], ld=['-licuuc']),
           dict(src='c06_url.cpp', flags=['-DVP_URL_CPP="/repo/lib/whatwg/url/url.cpp"'], libs=['/repo/lib/whatwg/url/host.cpp', '/repo/lib/whatwg/encoding/encoding.cpp', '/repo/lib/whatwg/encoding/indexes_code_point.cpp', '/repo/lib/whatwg/encoding/indexes_pointer.cpp'], ld=['-licuuc'])],
    cfg=dict(cuts=CUT, weight=0.5),
    assumptions=['code points up to U+10FFFF', 'forbidden host code points as in the edition of the URL standard the code cites (before <, >, ^, | were added)'],
)

ENC_LIBS = ['/repo/lib/whatwg/encoding/encoding.cpp', '/repo/lib/whatwg/encoding/indexes_code_point.cpp', '/repo/lib/whatwg/encoding/indexes_pointer.cpp']

PROPS['C07'] = dict(
    level='proof',
    units=[dict(src='c07.cpp', libs=ENC_LIBS)],
    cfg=dict(cuts=CUT),
    entry_cfg={'utf8_percent_encode': dict(native_only=True), 'serialize_integer': dict(native_iters=1)},
    assumptions=['the std::deque/std::u32string pipelines (utf8_percent_encode, percent_encode_after_encoding, string_percent_decode) are only run natively (bounded)'],
)

PROPS['C09'] = dict(
    level='proof',
    units=[dict(src='c09.cpp')],
    cfg=dict(cuts=CUT),
    entry_cfg={'string_results': dict(native_only=True)},
    assumptions=['inputs are clean encodings of scalar values (the documented precondition)',
                 'algorithms whose results are std::basic_string objects (strip_leading_and_trailing, split_*, byte comparison) are only run natively (bounded)'],
)

PROPS['C16'] = dict(
    level='proof',
    units=[dict(src='c16.cpp')],
    cfg=dict(cuts=[{'pat': r'vpl_'}], weight=0.9),
    assumptions=['integral types of 1, 2, 4 and 8 bytes, signed and unsigned'],
)

PROPS['C17'] = dict(
    level='proof', native_s=1,
    units=[dict(src='c17.cpp')],
    cfg=dict(weight=0.9),
    assumptions=['the template is instantiated with a 4-byte element and capacity 6; every size, position and content is covered for that capacity, other capacities are not',
                 'arguments do not alias elements of the vector; positions and counts are valid (the asserted preconditions)'],
)

IDX_MULTI = ['big5', 'euc_kr', 'gb18030', 'jis0208', 'jis0212', 'iso_2022_jp_katakana']
IDX_SINGLE = ['ibm866'] + ['iso_8859_%d' % k for k in (2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 15, 16)] + ['koi8_r', 'koi8_u', 'macintosh', 'windows_874'] + ['windows_%d' % k for k in range(1250, 1259)] + ['x_mac_cyrillic']
ENC_STUBS = [[r'get_index_code_point<.*index_code_point_%s>' % n, 'vps_cp_' + n] for n in IDX_MULTI + IDX_SINGLE] \
    + [[r'get_index_pointer<.*index_pointer_%s_0,' % n, 'vps_ptr_' + n] for n in IDX_MULTI + IDX_SINGLE] \
    + [[r'get_index_shift_jis_pointer\(', 'vps_ptr_Shift_JIS'], [r'get_index_big5_pointer\(', 'vps_ptr_big5_enc'],
       [r'get_index_gb18030_ranges_code_point\(', 'vps_gb_cp'], [r'get_index_gb18030_ranges_pointer\(', 'vps_gb_ptr']]

PROPS['C01'] = dict(
    level='proof', native_complete=True, native_s=2,
    units=[dict(src='c01.cpp', libs=ENC_LIBS, rt=['tables.cpp']), dict(src='c01_sel.cpp', libs=ENC_LIBS, rt=['tables.cpp'])],
    cfg=dict(stubs=ENC_STUBS, weight=0.9),
    assumptions=['the committed snapshot data/indexes.bin stands for the standard\'s indexes (taken from the tree, cross-checked against Python\'s codecs by tools/crosscheck_indexes.py)',
                 'table lookups are replaced by uninterpreted functions in the step contracts; their agreement with the real tables is discharged by complete evaluation (ground_* entries)',
                 'the decoder state between steps is a function of the pending bytes (discharged as lemma obligations of each step)'],
)

PROPS['C02'] = dict(
    level='proof', native_complete=True, native_s=1,
    units=[dict(src='c02.cpp', libs=ENC_LIBS, rt=['tables.cpp'], skip='^ground_'),
           dict(src='c02.cpp', name='c02_ground.cpp', libs=ENC_LIBS, rt=['tables.cpp'], only='^ground_', san=[], opt='-O2'),
           dict(src='c02_sel.cpp', libs=ENC_LIBS, rt=['tables.cpp'])],
    cfg=dict(stubs=ENC_STUBS, weight=0.9),
    entry_cfg={},
    assumptions=['the committed snapshot data/indexes.bin stands for the standard\'s indexes',
                 'table lookups are replaced by uninterpreted functions in the step contracts; their agreement with the real tables is discharged by complete evaluation (ground_* entries)',
                 'inputs are scalar values (surrogates are excluded, as the standard requires)'],
)
PROPS['C03'] = dict(
    level='proof', native_complete=True, native_s=1,
    units=[dict(src='c03.cpp', libs=ENC_LIBS, rt=['tables.cpp'], skip='^ground_'),
           dict(src='c03.cpp', name='c03_ground.cpp', libs=ENC_LIBS, rt=['tables.cpp'], only='^ground_', san=[], opt='-O2')],
    cfg=dict(stubs=ENC_STUBS, weight=0.9),
    assumptions=['table lookups are replaced by uninterpreted functions related by the inverse lemma, which is discharged by complete evaluation of the real tables (ground_inverse)',
                 'texts of several characters matter only for ISO-2022-JP: two characters for the verifier, up to 20 natively (bounded)'],
)

PROPS['C11'] = dict(
    level='proof', native_complete=True, native_s=2,
    units=[dict(src='c11.cpp'), dict(src='c11_hist.cpp')],
    cfg=dict(lazy=True, ints=True, feas=1000, cuts=[{'pat': r'tree<.*>::(move|free)\('}]),
    entry_cfg={'histories': dict(native_only=True, native_s=10),
               'move_contract': dict(stubs=[[r'tree<.*>::unlink\(', 'vps_unlink'], [r'tree<.*>::link\(', 'vps_link']]),
               'erase_contract': dict(cuts=[], stubs=[[r'tree<.*>::unlink\(', 'vps_unlink_e'], [r'tree<.*>::free\(', 'vps_free_e']])},
    assumptions=['representation invariant of the node array, of any length, taken as given before each operation and proved at an arbitrary node after it; that sibling chains and ancestor chains are finite (ranks) is taken as given before each operation',
                 'growth of the node array beyond its capacity is std::vector\'s; the contract covers reuse of freed nodes and appending within capacity',
                 'erase: subtrees of up to three leaf children (the std::vector stack is executed from source); deeper subtrees, copies of subtrees, clear, assign, swap and size walk std::vector stacks: only natively (bounded histories of up to 150 operations)',
                 'termination of the walks is not proved'],
)

PROPS['C12'] = dict(
    level='proof', native_s=3, native_complete=True,
    units=[dict(src='c12.cpp'), dict(src='c11.cpp', only='^iterator_steps$', cfg=dict(lazy=True, ints=True, feas=1000))],
    cfg=dict(weight=0.9),
    entry_cfg={'whole_trees': dict(native_only=True, native_s=5)},
    assumptions=['the step contract covers up to 4 pending nodes and up to 3 children with arbitrary values (std::deque executed from source); longer pending sequences only natively (bounded)',
                 'stepping among siblings (tree_node_iterator): node arrays of any size that satisfy the representation invariant of C11'],
)

PROPS['C18'] = dict(
    level='proof', native_s=2,
    units=[dict(src='c18.cpp', libs=ENC_LIBS)],
    cfg=dict(cuts=CUT, weight=0.9),
    entry_cfg={'html_newlines_14': dict(native_only=True), 'css_filter_string': dict(native_only=True)},
    assumptions=['HTML: texts of up to 3 arbitrary characters for the verifier (the stream keeps one bit of history), up to 14 natively (bounded); CSS: any length',
                 'push_eof is called once (the code documents repeated calls as undecided)'],
)

HTML_LIBS = ENC_LIBS + ['/repo/lib/whatwg/html/parsing/atom_tbl.cpp']
PROPS['C19'] = dict(
    level='proof', native_s=2,
    units=[dict(src='c19_esc.cpp', cfg=dict(cuts=[{'pat': r'escape_string'}])), dict(src='c19.cpp'), dict(src='c19_tree.cpp', libs=HTML_LIBS)],
    cfg=dict(weight=1),
    entry_cfg={'trees': dict(native_only=True, native_s=8), 'three_siblings': dict(thorough_only=True), 'four_deep_then': dict(thorough_only=True)},
    assumptions=['escaping: texts of any length; the walk: every tree shape of up to three nodes below the serialized node (three siblings and one four-node shape in the thorough tier) with arbitrary nodes, through a node_traits specialisation for ghost nodes; larger trees natively (bounded)',
                 'texts and names are one character long in the walk contract (their copying is C05\'s contract, their escaping the escape contract)',
                 'template contents and scripting are outside the library\'s node model'],
)

PROPS['C21'] = dict(
    level='proof', native_complete=True, native_s=3,
    units=[dict(src='c21.cpp', libs=ENC_LIBS, skip='^ground_'),
           dict(src='c21.cpp', name='c21_ground.cpp', libs=ENC_LIBS, only='^ground_', san=[], opt='-O2')],
    cfg=dict(weight=0.9),
    entry_cfg={'meta': dict(native_only=True), 'css_charset': dict(native_only=True), 'meta_text': dict(stubs=[[r'whatwg::encoding::get_encoding_name\(', 'vps_lookup32']], weight=1), 'css_text': dict(stubs=[[r'whatwg::get_encoding_name<', 'vps_lookup8']], weight=1)},
    assumptions=['the label table is the one of the edition of the Encoding Standard the code cites; labels added by later editions are not judged',
                 'labels: every label in three letterings with every white space character around it, and every string one edit away from a label (complete evaluation); other strings are not enumerated',
                 'meta and @charset: random texts from a grammar (bounded)'],
)

HOOK_STUBS = [[r'get_encoding_decoder\(', 'vps_decoder'], [r'get_encoding_encoder\(', 'vps_encoder'],
              [r'process_queue<.*io_queue<char>, .*io_queue<char32_t>\s*>\(', 'vps_decode_queue'], [r'process_queue<.*io_queue<char32_t>, .*io_queue<char>\s*>\(', 'vps_encode_queue']]
PROPS['C04'] = dict(
    level='proof', native_s=2, native_complete=True,
    units=[dict(src='c04.cpp'), dict(src='c04_queue.cpp', libs=ENC_LIBS), dict(src='c04_api.cpp', libs=ENC_LIBS), dict(src='c04_text.cpp', libs=ENC_LIBS)],
    cfg=dict(weight=0.9),
    entry_cfg=dict({'queue': dict(cuts=[{'pat': r'process_queue'}]), 'encoder_html': dict(weight=3, deadline=500), 'texts': dict(native_only=True, native_s=8),
                    'decoder_api': dict(weight=2, stubs=[[r'get_encoding_decoder\(', 'vps_make'], [r'process_item<', 'vps_item']])},
                   **{k: dict(stubs=HOOK_STUBS, weight=2, native_s=1) for k in ('decode_hook', 'utf8_decode_hook', 'utf8_decode_without_bom_hook', 'utf8_decode_or_fail_hook', 'encode_hooks')}),
    assumptions=['process_item: every result of a coder, every mode, every item; process_queue: queues of any length; io_queue: up to 3 queued items and one operation of arbitrary content (std::deque executed from source); hooks: up to 4 bytes, against the contracts of process_queue and get_encoding_decoder; TextDecoder: up to 4 bytes in up to 3 pieces, against the contract of process_item',
                 'longer texts of every encoding in random pieces natively (bounded)',
                 'io_queue::read(n) with fewer than n items queued waits, as the code documents (the standard would return the items before the end)'],
)
