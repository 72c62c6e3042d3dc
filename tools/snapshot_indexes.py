"""One-off: writes data/indexes.bin, the committed snapshot of the WHATWG encoding indexes
(pointer -> code point, 4294967295 = no entry) used as the oracle by C01-C03.  Taken from the pinned
commit's generated tables and cross-checked against Python's codecs by tools/crosscheck_indexes.py."""
import re, struct, sys
src = open(sys.argv[1], encoding='utf-8-sig').read()
out = []
for m in re.finditer(r'index_code_point_(\w+)\s*\{(.*?)\};', src, re.S):
    n = [int(x) for x in re.findall(r'(\d+)u', m.group(2))]
    out.append('%s %d %s' % (m.group(1), len(n), ' '.join(map(str, n))))
with open('/verif/data/indexes.bin', 'wb') as f:
    f.write(struct.pack('<I', len(out)))
    for l in out:
        p = l.split()
        v = [int(x) for x in p[2:]]
        f.write(p[0].encode().ljust(32, b'\0') + struct.pack('<I', len(v)) + struct.pack('<%dI' % len(v), *v))
