prop('C01', 'Decoders turn every byte stream into the standard\'s code points',
     'For each of the encodings of the WHATWG Encoding Standard, decoding a byte stream yields exactly the code points, errors and re-read bytes the standard prescribes, one step at a time and after every history of earlier bytes, well-formed or not. Each encoding name selects its own decoder.',
     ['inputs', 'histories'], 'for every byte stream of every length and every one of the supported encodings',
     'the tests decode sample texts; malformed sequences, state left over from earlier errors and the 90,000 table entries are out of reach of samples',
     ['include/wordring/whatwg/encoding/coder.hpp', 'include/wordring/whatwg/encoding/encoding.hpp', 'lib/whatwg/encoding/indexes_code_point.cpp'],
     [('*_decoder::run, get_index_code_point', 'include/wordring/whatwg/encoding/coder.hpp'), ('get_encoding_decoder', 'include/wordring/whatwg/encoding/encoding.hpp')])
prop('C02', 'Encoders turn every text into the standard\'s bytes',
     'For each encoding of the WHATWG Encoding Standard, encoding a text yields exactly the bytes, errors and re-read code points the standard prescribes, for every scalar value and after every earlier text. Each encoding name selects its own encoder, and encoding always comes to an end.',
     ['inputs', 'histories'], 'for every sequence of scalar values and every encoding that has an encoder',
     'the tests encode sample texts; 1.1 million code points times 37 tables and the state of ISO-2022-JP are out of reach of samples',
     ['include/wordring/whatwg/encoding/coder.hpp', 'include/wordring/whatwg/encoding/encoding.hpp', 'lib/whatwg/encoding/indexes_pointer.cpp'],
     [('*_encoder::run, get_index_pointer', 'include/wordring/whatwg/encoding/coder.hpp'), ('get_encoding_encoder', 'include/wordring/whatwg/encoding/encoding.hpp')])
prop('C03', 'What an encoding can encode, it decodes back',
     'Encoding a scalar value and decoding the bytes in the same encoding gives the same scalar value back, without errors, whenever the encoding can represent it. The only exceptions are the foldings the standard itself prescribes (yen sign, overline, minus sign and half-width katakana in the Japanese encodings).',
     ['inputs'], 'for every scalar value and every encoding with an encoder and a decoder',
     'the encoder and the decoder use different tables; a single inconsistent entry among 90,000 breaks the round trip of one character',
     ['include/wordring/whatwg/encoding/coder.hpp', 'lib/whatwg/encoding/indexes_code_point.cpp', 'lib/whatwg/encoding/indexes_pointer.cpp'],
     [('*_encoder::run and *_decoder::run', 'include/wordring/whatwg/encoding/coder.hpp')])
prop('C04', 'Streams of bytes and text pass through a coder whole, whatever the pieces',
     'Running a decoder or encoder over an I/O queue gives it every item in order exactly once, re-reads exactly what it asks to re-read, and turns its results into output by the chosen error mode (replacement, fatal, HTML), ending at the end of the queue. The decode and encode hooks pick the coder, strip byte order marks and pass on errors as the Encoding Standard says, and the I/O queue itself is a first-in-first-out sequence. TextDecoder gives the same text however the input is cut into chunks.',
     ['inputs', 'histories'], 'for every result a coder can return, every error mode, every queue and every way to cut the input into chunks',
     'tests push a few literal strings through in one piece; a chunk boundary inside a character or a byte order mark, or an error right at the end, is a history they do not sample',
     ['include/wordring/whatwg/encoding/encoding.hpp', 'include/wordring/whatwg/encoding/terminology.hpp', 'include/wordring/whatwg/encoding/api.hpp'],
     [('process_queue, process_item, decode, encode, bom_sniff', 'include/wordring/whatwg/encoding/encoding.hpp'), ('io_queue', 'include/wordring/whatwg/encoding/terminology.hpp'), ('text_decoder', 'include/wordring/whatwg/encoding/api.hpp')],
     note='process_item, process_queue: all inputs; io_queue, hooks and TextDecoder: short queues of arbitrary content (bounds in the evidence); whole texts: bounded native stand-in')
prop('C05', 'UTF-8, UTF-16 and UTF-32 text converts without loss',
     'Converting any sequence of Unicode scalar values between UTF-8, UTF-16 and UTF-32 yields exactly the standard encoding of the same scalar values: nothing is lost, added, reordered or altered. '
     'Reading one code point from a string consumes exactly its code units and returns its value, and no input is read beyond its end.',
     ['inputs'], 'for every sequence of scalar values of every length, each source and target encoding form',
     'the tests convert a few literal strings; the conversion must hold for all 0x10F800 scalar values at every position of strings of any length',
     ['include/wordring/whatwg/infra/unicode.hpp'],
     [('to_code_point / to_string / encoding_cast', 'include/wordring/whatwg/infra/unicode.hpp')])
prop('C06', 'Code point classes contain exactly the specified code points',
     'Every code point classification the Infra and URL standards define (ASCII classes, controls, whitespace, surrogates, noncharacters, percent-encode sets, URL code points, forbidden host code points, digits and hex digits and so on) answers yes for exactly the code points the standard lists and no for all others.',
     ['inputs'], 'for every code point 0..0x10FFFF and every class',
     'a test probes a handful of members; a class is wrong if any one of 1.1 million code points is misplaced',
     ['include/wordring/whatwg/infra/infra.hpp', 'include/wordring/whatwg/url/infra.hpp', 'lib/whatwg/url/url.cpp', 'include/wordring/whatwg/url/host.hpp'],
     [('is_* predicates', 'include/wordring/whatwg/infra/infra.hpp'), ('is_*_percent_encode_set', 'include/wordring/whatwg/url/infra.hpp')])
prop('C07', 'Percent-encoding and decoding are exact and inverse',
     'Percent-encoding a byte yields a percent sign and its two uppercase hex digits. Percent-decoding replaces exactly the well-formed triplets by their byte and leaves every other byte alone, for byte strings of any length and never reading past the end; UTF-8 percent-encoding escapes exactly the members of the chosen set, and decoding what was encoded gives the original back.',
     ['inputs'], 'for every byte string of every length, every code point and every percent-encode set',
     'the tests decode a few strings; incomplete or adjacent escapes at arbitrary positions and all 256 bytes are beyond enumeration',
     ['include/wordring/whatwg/url/infra.hpp'],
     [('percent_encode / percent_decode / utf8_percent_encode', 'include/wordring/whatwg/url/infra.hpp')])
prop('C09', 'Infra string algorithms compute exactly the specified result',
     'Case mapping, case-insensitive comparison, newline stripping and normalisation, whitespace stripping, collapsing and skipping, collecting, splitting, and isomorphic encoding and decoding produce exactly the string the Infra standard specifies. This holds for strings of any length and content in any supported encoding form, and the input is never read past its end.',
     ['inputs'], 'for every string of every length',
     'each is a loop whose result depends on the whole string (a newline pending at the very end, a string of only spaces); tests sample short literals',
     ['include/wordring/whatwg/infra/infra.hpp'],
     [('normalize_newlines, strip_*, split_*, to_ascii_*case, is_*_match, collect_*', 'include/wordring/whatwg/infra/infra.hpp')],
     note='algorithms that build std::basic_string results are covered by the labelled bounded stand-in only')
prop('C11', 'The tree container is an ordered forest',
     'After every history of insertions, removals, moves, copies, assignments, swaps and clears, the tree container holds exactly the ordered forest those operations describe. Parents, children, siblings, order and values are as specified, the nodes not concerned are untouched, erased nodes are reused without ever being shared, and moving a node keeps its whole subtree and never creates a cycle.',
     ['inputs', 'histories'], 'for every history of operations and every tree of every size and shape',
     'tests build small trees once; links between nodes go wrong only for particular positions, orders of removal and reuse of freed nodes',
     ['include/wordring/tree/tree.hpp'],
     [('tree: insert, erase, move, link, unlink, allocate, free', 'include/wordring/tree/tree.hpp'), ('tree_node_iterator', 'include/wordring/tree/tree.hpp')],
     note='link, unlink, allocate, free, insert, move: node arrays of any size; erase: subtrees of up to three leaves; whole histories: bounded native stand-in')
prop('C12', 'Tree traversals visit every node exactly once, in order',
     'Iterating over a tree in pre-order or in level-order visits every node of the forest exactly once, in exactly that order, and then compares equal to the end. Iterators can be stepped back through the same nodes, also among several roots, and the traversal never leaves the tree it started in.',
     ['inputs', 'histories'], 'for every forest of every size and shape, from any starting node',
     'the order depends on the whole shape; tests traverse a few small trees',
     ['include/wordring/tree/tree_iterator.hpp', 'include/wordring/tree/tree.hpp'],
     [('basic_tree_iterator', 'include/wordring/tree/tree_iterator.hpp'), ('tree_node_iterator', 'include/wordring/tree/tree.hpp')],
     note='one step from up to 4 pending nodes with up to 3 children, arbitrary values; whole trees: bounded native stand-in')
prop('C16', 'Integers serialize to big-endian bytes and back without loss',
     'Serializing an integer of any built-in width and signedness gives its big-endian bytes, as a whole and byte by byte, and deserializing them gives the same integer back. '
     'Byte streams produced from integer sequences of any length are exactly the concatenation of these forms, integer streams read from byte sequences are the inverse, and short input consumes only what is there.',
     ['inputs'], 'for every value of every integral type and every sequence length',
     'the tests serialize a few constants; sign extension, high bytes and stream positions cannot be enumerated',
     ['include/wordring/serialize/serialize.hpp', 'include/wordring/serialize/serialize_iterator.hpp'],
     [('serialize / deserialize', 'include/wordring/serialize/serialize.hpp'), ('serialize_iterator / deserialize_iterator', 'include/wordring/serialize/serialize_iterator.hpp')])
prop('C17', 'The fixed-capacity vector behaves as a sequence',
     'Every operation of the fixed-capacity vector (construction, assignment, element access, iteration, insertion, erasure, resizing, swapping, comparison) has exactly the effect it has on a mathematical sequence of at most the stated capacity, whatever the contents, the size and the positions. No operation touches storage outside the vector, and iterators returned point at the specified element.',
     ['inputs', 'histories'], 'for every content, every size up to the capacity and every valid position and count',
     'tests use a few sizes and positions; overlapping moves and full or empty vectors go wrong only for particular combinations',
     ['include/wordring/static_vector/static_vector.hpp'],
     [('static_vector', 'include/wordring/static_vector/static_vector.hpp')],
     note='verified for the instantiation static_vector<uint32_t, 6>')
prop('C18', 'Parser input is normalised exactly as the standards say, however it arrives',
     'The HTML input stream delivers the code points fed to it with every CR LF pair and every lone CR replaced by one LF and nothing else changed, and consuming, reconsuming and matching behave as on that normalised sequence. The CSS input filter replaces CR, FF, CR LF, NUL and surrogates as CSS Syntax prescribes and leaves all else alone.',
     ['inputs', 'histories'], 'for every text of every length, delivered in any pieces',
     'the treatment of a newline depends on the characters around it and on where the input was cut; tests feed a few literals',
     ['include/wordring/whatwg/html/parsing/input_stream.hpp', 'include/wordring/wwwc/css_syntax/input_stream.hpp'],
     [('input_stream', 'include/wordring/whatwg/html/parsing/input_stream.hpp'), ('filter_code_points', 'include/wordring/wwwc/css_syntax/input_stream.hpp')],
     note='CSS: any length; HTML: up to 3 arbitrary characters for the verifier, longer texts by the bounded native stand-in')
prop('C19', 'HTML serialisation writes exactly the standard\'s markup',
     'Serialising an HTML tree yields exactly the text of the HTML fragment serialisation algorithm: tags, attributes with their qualified names, escaped text and attribute values, raw text where the standard says raw, void elements without content or end tag, comments, doctypes and processing instructions, for every tree. Nothing in a text or attribute value can be mistaken for markup.',
     ['inputs'], 'for every tree of every shape and every text, name and attribute value in UTF-8, UTF-16 or UTF-32',
     'escaping must be right for every character at every position and the walk for every shape; tests serialise a few documents',
     ['include/wordring/whatwg/html/parsing/serializing.hpp', 'include/wordring/html/simple_html.hpp'],
     [('escape_string, to_string', 'include/wordring/whatwg/html/parsing/serializing.hpp')],
     note='escaping: any length; walk: every shape of up to three nodes below the serialised node; larger trees: bounded native stand-in')
prop('C21', 'The encoding of a document is chosen as the standards say',
     'Every encoding label of the Encoding Standard, in any lettering and surrounded by white space, names its encoding and no other string does. Byte order marks, the charset in a meta element and an @charset rule select the encoding the standards prescribe, UTF-16 declarations being read as UTF-8, and each encoding has the prescribed output encoding.',
     ['inputs'], 'for every label, every string near a label and every document start',
     'there are more than 200 labels in arbitrary lettering and the scan of a declaration depends on every character before it; tests try a few',
     ['include/wordring/whatwg/encoding/encoding.hpp', 'lib/whatwg/encoding/encoding.cpp', 'include/wordring/whatwg/html/url.hpp', 'include/wordring/wwwc/css_syntax/input_stream.hpp'],
     [('get_encoding_name, get_output_encoding_name, bom_sniff', 'include/wordring/whatwg/encoding/encoding.hpp'), ('extract_character_encoding_from_meta_element', 'include/wordring/whatwg/html/url.hpp'), ('determine_fallback_encoding', 'include/wordring/wwwc/css_syntax/input_stream.hpp')],
     note='labels: complete evaluation of the label set and its one-edit neighbourhood; declarations: short arbitrary texts for the verifier, longer ones by the bounded native stand-in')
