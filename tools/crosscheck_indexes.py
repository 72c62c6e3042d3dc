"""Cross-check of the snapshot against Python's codecs; prints the differences per index."""
import struct
T = {}
b = open('/verif/data/indexes.bin', 'rb').read()
k = 4
while k < len(b):
    n, = struct.unpack_from('<I', b, k + 32)
    T[b[k:k + 32].rstrip(b'\0').decode()] = [None if x == 0xFFFFFFFF else x for x in struct.unpack_from('<%dI' % n, b, k + 36)]
    k += 36 + 4 * n


def dec(b, enc):
    try:
        s = bytes(b).decode(enc)
        return ord(s) if len(s) == 1 else None
    except (UnicodeDecodeError, TypeError):
        return None


def cmp(name, enc, f, rng):
    d = []
    for p in rng:
        a, b = T[name][p], dec(f(p), enc)
        if a != b:
            d.append((p, a and hex(a), b and hex(b)))
    print(name, enc, len(rng), 'differences', len(d), d[:8])


SB = dict(ibm866='cp866', koi8_r='koi8_r', koi8_u='koi8_u', macintosh='mac_roman', windows_874='cp874', x_mac_cyrillic='mac_cyrillic')
for n in T:
    if n.startswith('iso_8859'):
        SB[n] = n
    elif n.startswith('windows_1'):
        SB[n] = 'cp' + n[8:]
for n, e in sorted(SB.items()):
    cmp(n, e, lambda p: [p + 128], range(128))
cmp('euc_kr', 'cp949', lambda p: [p // 190 + 0x81, p % 190 + 0x41], range(23940))
cmp('gb18030', 'gb18030', lambda p: [p // 190 + 0x81, p % 190 + (0x40 if p % 190 < 0x3F else 0x41)], range(23940))
cmp('big5', 'big5hkscs', lambda p: [p // 157 + 0x81, p % 157 + (0x40 if p % 157 < 0x3F else 0x62)], range(19782))
def sj(p):
    l, t = p // 188, p % 188
    return [l + (0x81 if l < 0x1F else 0xC1), t + (0x40 if t < 0x3F else 0x41)]
cmp('jis0208', 'cp932', sj, range(11280))
cmp('jis0212', 'euc_jp', lambda p: [0x8F, p // 94 + 0xA1, p % 94 + 0xA1], range(8836))
r = T['gb18030_ranges']
R = list(zip(r[::2], r[1::2]))
bad = 0
n = 0
for p in list(range(39420)) + list(range(189000, 1237576)):
    o = max(x for x in R if x[0] <= p) if p < 39420 else (189000, 0x10000)
    cp = 0xE7C7 if p == 7457 else o[1] + p - o[0]
    b = [p // 12600 + 0x81, p // 1260 % 10 + 0x30, p // 10 % 126 + 0x81, p % 10 + 0x30]
    x = dec(b, 'gb18030')
    n += 1
    if x != cp:
        bad += 1
        if bad < 5:
            print('  gb ranges', p, hex(cp), x and hex(x))
print('gb18030_ranges', n, 'differences', bad, R[-3:])
