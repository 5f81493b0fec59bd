"""I01 I02 I03 S01 S02: reading, image operations, cutting."""
import glob, os
import imggen as g
from core import drv, hexs, bs
from vp import REPO

LUMS = (0, 1, 64, 100, 127, 128, 129, 200, 255, 256)


# ------------------------------------------------------------------ files
def pnm_case(data, lum=128):
    h = bytes(data).hex() if data is not None else None
    return drv('drv_img', 'pnm', '@F0 %d' % lum, op='pnm', bytes=list(data or b''), lum=lum, files_=[h])


def comments(r):
    return b''.join(b'#' + bytes(r.choice(b' #abc0123.\t:-P') for _ in range(r.randrange(12))) + b'\n'
                    for _ in range(r.choice((0, 0, 1, 1, 2, 3))))


def encode(r, t, i, cm=b''):
    """A well-formed file; for type 6, bytes are colours."""
    w, h, p = i
    head = b'P%d\n%s%d %d\n' % (t, cm, w, h)
    ink = [c == 'x' for c in p]
    if t in (1, 3):
        if t == 3:
            head += b'%d\n' % r.choice((1, 1, 1, 255, 2))
        style = r.randrange(6)
        out = bytearray()
        for k, v in enumerate(ink):
            out += b'1' if v else b'0'
            end = (k + 1) % w == 0
            if style == 0:
                out += b'\n' if end else b''
            elif style == 1:
                out += b'\n' if end else b' '
            elif style == 2:
                pass
            elif style == 3:
                out += b'\n'
            elif style == 4:
                out += r.choice((b'', b' ', b'\n', b'  ', b' \n', b'\n\n', b' \n '))
            else:
                out += b'\n' if (k + 1) % r.choice((3, 7, 70)) == 0 else b' '
        if r.random() < .4:
            out = bytearray(out.rstrip(b' \n'))
        elif r.random() < .3:
            out += b'\n'
        if r.random() < .15:
            out = bytearray(r.choice((b' ', b'\n', b' \n')) + out)
        return head + bytes(out)
    if t == 4:
        rows = []
        fill = r.choice((0, 1, 2))
        for y in range(h):
            bits = ['0' if v else '1' for v in ink[y * w:(y + 1) * w]]
            while len(bits) % 8:
                bits.append(str(fill) if fill < 2 else r.choice('01'))
            rows.append(bytes(int(''.join(bits[k:k + 8]), 2) for k in range(0, len(bits), 8)))
        return head + b''.join(rows)
    return head + b'255\n' + colours(r, ink)


def colours(r, ink):
    style = r.randrange(5)
    out = bytearray()
    for v in ink:
        if style == 0:
            out += b'\xff\xff\xff' if v else b'\0\0\0'
        elif style == 1:
            x = r.randrange(256)
            out += bytes((x, x, x))
        elif style == 2:
            out += bytes(r.randrange(256) for _ in range(3))
        elif style == 3:      # around the middle
            x = r.choice((126, 127, 128, 129, 130))
            out += bytes((x, x, max(0, min(255, x + r.randint(-2, 2)))))
        else:                 # one channel dominates
            c = [0, 0, 0]
            c[r.randrange(3)] = r.randrange(256)
            if r.random() < .4:
                c[r.randrange(3)] = r.randrange(256)
            out += bytes(c)
    return bytes(out)


def lum_of(b):
    return (511 * b[0] + 511) // 1024 + (396 * b[1] + 511) // 1024 + (117 * b[2] + 511) // 1024


def well_formed(ctx):
    r = ctx.rng
    out = []
    # every image of a small area, in each type
    for i in g.exhaustive(ctx.n(5, 9)):
        for t in (1, 3, 4):
            out.append(pnm_case(encode(r, t, i, comments(r))))
    # every width around the byte boundaries
    for w in list(range(1, 42)) + [47, 48, 49, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257]:
        for t in (1, 3, 4, 6):
            for h in {1, 2, r.randint(1, 9)}:
                out.append(pnm_case(encode(r, t, g.noise(r, w, h, .5), comments(r)), r.choice(LUMS)))
        out.append(pnm_case(encode(r, 4, g.any_image(r, w, r.randint(1, 12)))))
    for _ in range(ctx.n(250, 4000)):
        t = r.choice((1, 3, 4, 6, 6))
        data = encode(r, t, g.any_image(r, hi=20), comments(r))
        out.append(pnm_case(data, r.choice(LUMS)))
    # exactly at the luminance
    for _ in range(ctx.n(120, 3000)):
        px = [bytes(r.randrange(256) for _ in range(3)) for _ in range(r.randint(1, 12))]
        lum = max(0, lum_of(px[0]) + r.choice((-1, 0, 0, 1)))
        out.append(pnm_case(b'P6\n%d 1\n255\n' % len(px) + b''.join(px), lum))
    # primary colours, each level of a channel
    for ch in range(3):
        for v0 in range(0, 256, 16):
            px = [bytes(v if c == ch else 0 for c in range(3)) for v in range(v0, v0 + 16)]
            for lum in ((4, 40, 100) if ctx.quick else range(0, 130, 3)):
                out.append(pnm_case(b'P6\n4 4\n255\n' + b''.join(px), lum))
    # leading zeros, comments of many kinds
    out += [pnm_case(x) for x in (
        b'P4\n08 01\n\xf0', b'P1\n#\n2 1\n01\n', b'P1\n# a # b\n#\n##\n1 2\n0\n1', b'P4\n#c\n1 1\n\x80',
        b'P1\n1 1\n1', b'P1\n1 1\n0', b'P4\n1 1\n\0', b'P4\n1 1\n\xff', b'P3\n1 1\n1\n1', b'P6\n1 1\n255\n\n\n\n',
        b'P4\n8 2\n\n ', b'P4\n16 1\n##', b'P6\n1 1\n1\n   ', b'P1\n3 1\n 1 \n 0 \n 1 \n ', b'P1\n2 2\n1001')]
    # a big one
    for w, h in ((300, 200), (517, 40), (40, 517)):
        i = g.blobs(r, w, h)
        out.append(pnm_case(encode(r, r.choice((1, 4)), i)))
        out.append(pnm_case(encode(r, 4, i)))
    # sizes which do not fit in 16 bits
    for w, h in ((70001, 1), (1, 70001), (66000, 2)):
        i = (w, h, ''.join(r.choice('x-') for _ in range(w * h)))
        for t in (1, 4, 6) if h != 2 else (r.choice((3, 4)),):
            out.append(pnm_case(encode(r, t, i, comments(r))))
    # shipped images
    fs = sorted(glob.glob(REPO + '/resources/fonts/**/*.p?m', recursive=True) + glob.glob(REPO + '/**/*.pbm'))
    small = [f for f in fs if os.path.getsize(f) < 6000]
    for f in r.sample(small, min(len(small), ctx.n(25, 400))):
        out.append(pnm_case(open(f, 'rb').read()))
    return out


def malformed(ctx):
    r = ctx.rng
    out = [pnm_case(None), pnm_case(b'')]
    # a directory, what is not one, no name
    out += [drv('drv_img', 'pnm', hexs(p) + ' 128', op='pnm', bytes=[], lum=128) for p in ('/', '/tmp', '.', '/dev/null', '/dev/null/i', '')]
    base = []
    for i in ((1, 1, 'x'), (3, 2, 'x-xx--'), (9, 2, 'x-x-x-x-x' * 2), (2, 3, 'xx-x-x'), (8, 1, 'x-xxxxx-')):
        for t in (1, 3, 4, 6):
            base.append(encode(r, t, i, r.choice((b'', b'# c\n', b'#\n#x\n'))))
    for _ in range(ctx.n(4, 60)):
        base.append(encode(r, r.choice((1, 3, 4, 6)), g.any_image(r, hi=9), comments(r)))
    for b in base:
        for k in range(len(b)):                       # every prefix
            if ctx.quick and len(b) > 80 and r.random() < .5 and 20 < k < len(b) - 6:
                continue
            out.append(pnm_case(b[:k]))
        for x in (b'\0', b'0', b'1', b'\n', b' ', b'\n\n', b'00', b'P', b'\xff\xff\xff', b'000', b'\n0', b' 1\n'):
            out.append(pnm_case(b + x))
        for k in range(len(b)):                       # one byte changed, removed, inserted
            for _ in range(ctx.n(1, 6)):
                c = r.choice(b'0123456789 \n#P\0\xff\t\r-+.x') if r.random() < .8 else r.randrange(256)
                out.append(pnm_case(b[:k] + bytes([c]) + b[k + 1:]))
            if r.random() < ctx.n(.3, 1):
                out.append(pnm_case(b[:k] + b[k + 1:]))
            if r.random() < ctx.n(.3, 1):
                out.append(pnm_case(b[:k] + bytes([r.choice(b'0123456789 \n#')]) + b[k:]))
    for t in (1, 3, 4, 6):                             # sizes which do not match
        m = b'' if t in (1, 4) else b'1\n'
        for w in (0, 1, 2, 3, 7, 8, 9, 16, 17):
            for h in (0, 1, 2, 3):
                for n in {0, 1, w * h, w * h - 1, w * h + 1, (w + 7) // 8 * h, 3 * w * h, w // 8 * h}:
                    if n >= 0:
                        out.append(pnm_case(b'P%d\n%d %d\n' % (t, w, h) + m + (b'0' * n if t in (1, 3) else bytes(n))))
        for w, h in ((999999999, 1), (1, 999999999), (65536, 65536), (65536, 32768), (99999, 99999),
                     (4294967, 1000), (46341, 46341), (268435456, 16), (536870912, 8), (999999999, 999999999)):
            for n in (0, 1, 8, 16):
                out.append(pnm_case(b'P%d\n%d %d\n' % (t, w, h) + m + b'0' * n))
    for t in (1, 3, 4, 6):                             # sizes which are right modulo a power of 2
        m = b'' if t in (1, 4) else b'1\n'
        for w, h in ((1, 1), (2, 1), (8, 2), (3, 2)):
            n = w * h * 3 if t == 6 else (w + 7) // 8 * h if t == 4 else w * h
            for k in (16, 31, 32, 64):
                for W, H in ((w + 2 ** k, h), (w, h + 2 ** k)):
                    out.append(pnm_case(b'P%d\n%d %d\n' % (t, W, H) + m + b'0' * n))
        for w, h in ((2, 715827883), (715827883, 2), (1, 1431655766), (3, 477218589), (641, 6700417), (65537, 65535),
                     (6700417, 641), (65536, 65537), (1, 4294967295), (4294967295, 1), (4294967291, 1), (2147483649, 2),
                     (1 << 29, 8), ((1 << 29) + 1, 8), (1 << 16, 1 << 13), (178956971, 8), (1431655766, 1), (1 << 30, 4)):
            if t == 4 and w * h < 2 ** 32 and (w + 7) // 8 * h < 2 ** 16:
                continue
            for q in {w * h, 3 * w * h, (w + 7) // 8 * h, (w + 7) % 2 ** 32 // 8 * h, w * h % 2 ** 32 // 8, w * h * 8}:
                for k in ctx.n((32,), (16, 31, 32)):
                    if q % 2 ** k <= 4096:
                        out.append(pnm_case(b'P%d\n%d %d\n' % (t, w, h) + m + b'0' * (q % 2 ** k)))
    for t in (b'P2', b'P5', b'P0', b'P7', b'P8', b'P:', b'p4', b'Q1', b' P1', b'PP', b'1P', b'\0\0', b'P', b'BM', b'GIF'):
        for rest in (b'\n1 1\n1', b'\n1 1\n255\n1', b'\n8 1\n\xf0', b'\n1 1\n255\n\1\2\3', b'\n', b''):
            out.append(pnm_case(t + rest))
    for s in (b' ', b'\r\n', b'\t', b'', b'\n\n', b'\n ', b'\n#', b'\n#\n', b'\n# 1 1\n', b'#\n'):
        out.append(pnm_case(b'P1' + s + b'1 1\n1'))
        out.append(pnm_case(b'P4' + s + b'1 1\n\x80'))
        out.append(pnm_case(b'P1\n1' + s + b'1\n1'))
        out.append(pnm_case(b'P1\n1 1' + s + b'1'))
        out.append(pnm_case(b'P6\n1 1\n255' + s + b'123'))
    for x in (b'P1\n-1 1\n1', b'P1\n+1 1\n1', b'P1\n1 -1\n1', b'P1\n1.0 1\n1', b'P1\n 1 1\n1', b'P1\n1  1\n1', b'P1\n1 1 \n1',
              b'P1\n1 1\n2', b'P1\n1 1\nx', b'P1\n2 1\n1', b'P1\n2 1\n111', b'P1\n2 1\n1 2', b'P1\n2 1\n1 -', b'P1\n2 1\n1 #\n1',
              b'P3\n1 1\n', b'P3\n1 1\n255\n255', b'P3\n2 1\n1\n1 9', b'P1\n1 1', b'P1\n1', b'P1\n', b'P6\n1 1\n255', b'P6\n1 1\n\n',
              b'P1\n#only a comment', b'P1\n#', b'P4\n#\n#\n'):
        out.append(pnm_case(x))
    for _ in range(ctx.n(150, 3000)):
        out.append(pnm_case(bytes(r.choice(b'P123456\n #019\xff\0') for _ in range(r.randint(0, 24)))))
        out.append(pnm_case(b'P' + bytes(r.choice(b'1346')  for _ in range(1)) + b'\n'
                            + bytes(r.choice(b'01239 \n#') for _ in range(r.randint(0, 14)))))
    return out


def places(r, w, h, n=24):
    ps = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
    while len(ps) < n:
        ps.append((r.randrange(w), r.randrange(h)))
    return ps


def big_files(ctx):
    """Files of megabytes, known by a small drawing."""
    r = ctx.rng
    out = []
    sizes = [(4096, 256), (1365, 768), (3000, 1000), (1000, 3000), (70000, 33), (33, 70000), (2049, 2049), (1 << 17, 9),
             (9, 1 << 17), (5001, 420), (421, 5001)]
    for k in range(ctx.n(24, 200)):
        t = (1, 3, 4, 6)[k % 4]
        w, h = r.choice(sizes)
        w, h = g.around(r, w), g.around(r, h)
        if t == 4 and r.random() < .6:
            w, h = w * 3, h * r.choice((1, 2))
        i, cw, rh = g.stretch(r, 7, (w, h))
        cm = comments(r)
        lum = r.choice(LUMS) if t == 6 else 128
        ink = [c == 'x' for c in i[2]]
        end = b''
        if t in (1, 3):
            a, b = r.choice(((b'', b''), (b'', b' '), (b' ', b'')))
            cells = [a + (b'1' if v else b'0') + b for v in ink]
            end = r.choice((b'', b'\n', b'\n'))
        elif t == 4:
            cells = [b'0' if v else b'1' for v in ink]
        else:
            c = colours(r, ink)
            cells = [c[3 * n:3 * n + 3] for n in range(len(ink))]
        # the same of the drawing itself
        head = b'P%d\n%s%d %d\n' % (t, cm, i[0], i[1]) + (b'255\n' if t in (3, 6) else b'')
        if t == 4:
            small = head + b''.join(int(b''.join(cells[y * i[0]:(y + 1) * i[0]]).ljust(8, b'0'), 2).to_bytes(1, 'big')
                                    for y in range(i[1]))
        else:
            small = head + b''.join(b''.join(cells[y * i[0]:(y + 1) * i[0]]) + end for y in range(i[1]))
        ps = places(r, sum(cw), sum(rh))
        out.append(drv('drv_img', 'bigpnm', ' '.join(
            [hexs('%s/big%d' % (ctx.tmp, k)), g.stretch_arg((i, cw, rh)), str(t), str(lum), hexs(cm), hexs(end)]
            + [hexs(c) for c in cells] + [str(len(ps))] + ['%d %d' % p for p in ps]),
            op='bigpnm', small=list(small), lum=lum, cw=cw, rh=rh, at=[list(p) for p in ps]))
    return out


def i01(ctx):
    ctx.model('MCPnm', 'MCPnmQuick.cfg' if ctx.quick else 'MCPnm.cfg')
    ctx.model('MCStretch', 'MCStretchQuick.cfg')
    ctx.conform('TraceImg', well_formed(ctx) + big_files(ctx), keep=4)


def i02(ctx):
    ctx.model('MCPnm', 'MCPnmQuick.cfg' if ctx.quick else 'MCPnm.cfg')
    cs = malformed(ctx)
    # with other luminances
    ctx.conform('TraceImg', cs, keep=4)


# ------------------------------------------------------------------ operations
def i03(ctx):
    r = ctx.rng
    ctx.model('MCImg', 'MCImgQuick.cfg' if ctx.quick else 'MCImg.cfg')
    out = []

    def one(op, name, i, *more, **kw):
        out.append(drv('drv_img', op, ' '.join([g.arg(i)] + [str(m) for m in more]), op=name, img=g.js(i), **kw))

    def rects(i):
        w, h, _ = i
        if w * h <= 6:
            for x in range(w):
                for y in range(h):
                    for a in range(1, w - x + 1):
                        for b in range(1, h - y + 1):
                            yield x, y, a, b
        else:
            yield 0, 0, w, h
            for _ in range(3):
                x, y = r.randrange(w), r.randrange(h)
                yield x, y, r.randint(1, w - x), r.randint(1, h - y)

    def everything(i):
        for op in ('rot', 'clone', 'draw'):
            one(op, op, i)
        for x, y, w, h in rects(i):
            for op in ('sec', 'work', 'at'):
                one(op, op, i, x, y, w, h, x=x, y=y, w=w, h=h)

    def pair(a, b):
        out.append(drv('drv_img', 'cmp', g.arg(a) + ' ' + g.arg(b), op='cmp', img=g.js(a), img2=g.js(b)))

    small = list(g.exhaustive(ctx.n(4, 6)))
    for i in small if not ctx.quick else r.sample(small, 60):
        everything(i)
    for a in small[:40]:
        for b in small[:40]:
            pair(a, b)
    for w, h in ((1, 1), (1, 17), (17, 1), (2, 9), (31, 33), (64, 64), (100, 3), (3, 100), (8, 8), (257, 2), (2, 257)):
        everything(g.noise(r, w, h, .5))
    for _ in range(ctx.n(80, 500)):
        everything(g.any_image(r, hi=30))
    # sizes which do not fit in 16 bits
    for w, h in ((66001, 1), (1, 66001), (33000, 2), (2, 33000), (300, 230)):
        i = (w, h, ''.join(r.choice('x-') for _ in range(w * h)))
        x, y = r.randrange(w - w // 4), r.randrange(h - h // 4)
        a, b = r.randint(w // 4, w - x) or 1, r.randint(h // 4, h - y) or 1
        for op in ('rot', 'clone', 'draw'):
            one(op, op, i)
        for op in ('sec', 'work'):
            one(op, op, i, x, y, a, b, x=x, y=y, w=a, h=b)
        n = r.randrange(w * h)
        j = (w, h, i[2][:n] + ('-' if i[2][n] == 'x' else 'x') + i[2][n + 1:])
        pair(i, j)
        pair(j, i)
        pair(i, i)
    # positions and sizes
    near = [0, 1, 2, 7, 8, 9, 10, 99, 100, 101, 255, 256, 257, 999, 1000, 30000, 31000]
    for k in range(ctx.n(600, 6000)):
        w, h = r.choice(near), r.choice(near)
        x = max(0, w + r.choice((-1, 0, 1))) if r.random() < .5 else r.choice(near)
        y = max(0, h + r.choice((-1, 0, 1))) if r.random() < .5 else r.choice(near)
        if r.random() < .1:
            x = r.choice((65535, 65536, 65537, 900000000))
        out.append(drv('drv_img', 'coord', '%d %d %d %d' % (x, y, w, h), op='coord', x=x, y=y, w=w, h=h))
    ctx.model('MCStretch', 'MCStretchQuick.cfg')
    for k in range(ctx.n(60, 150)):
        w, h = r.choice(((1500, 1500), (2100, 1001), (1001, 2100), (70000, 20), (20, 70000), (300, 300), (1024, 512),
                         (2048, 1024), (1024, 2048), (1100, 1100), (4100, 600), (600, 4100)))
        i, cw, rh = g.stretch(r, 8, (g.around(r, w), g.around(r, h)))
        w, h = sum(cw), sum(rh)
        x, y = r.randrange(w), r.randrange(h)
        a, b = r.randint(1, w - x), r.randint(1, h - y)
        ps = places(r, w, h) + places(r, a, b) + places(r, b, a)
        out.append(drv('drv_img', 'bigops', ' '.join([g.stretch_arg((i, cw, rh)), '%d %d %d %d' % (x, y, a, b), str(len(ps))]
                                                     + ['%d %d' % p for p in ps]),
                       op='bigops', img=g.js(i), cw=cw, rh=rh, x=x, y=y, w=a, h=b, at=[list(p) for p in ps]))
        j = i
        for _ in range(r.choice((0, 1, 1, 2))):
            n = r.randrange(len(i[2]))
            j = (i[0], i[1], j[2][:n] + r.choice('x-') + j[2][n + 1:])
        out.append(drv('drv_img', 'bigcmp', g.stretch_arg((i, cw, rh)) + ' ' + g.stretch_arg((j, cw, rh)),
                       op='bigcmp', img=g.js(i), img2=g.js(j)))
    ships = [i for i, _ in g.shipped()]
    pool = [g.any_image(r, hi=6) for _ in range(30)] + r.sample(ships, min(len(ships), 30))
    for _ in range(ctx.n(600, 10000)):
        a = r.choice(pool)
        k = r.randrange(6)
        if k == 0:
            b = a
        elif k <= 2:        # one pixel differs
            n = r.randrange(len(a[2]))
            b = (a[0], a[1], a[2][:n] + ('-' if a[2][n] == 'x' else 'x') + a[2][n + 1:])
        elif k == 3 and a[0] != a[1]:
            b = (a[1], a[0], a[2])
        elif k == 4:
            b = g.any_image(r, a[0], r.randint(1, 30))
        else:
            b = r.choice(pool)
        pair(a, b)
        pair(b, a)
    ctx.conform('TraceImg', out, keep=6)


# ------------------------------------------------------------------ cutting
def lines_of_text(ctx, n):
    r = ctx.rng
    ships = [i for i, _ in g.shipped() if i[0] <= 30 and i[1] <= 40]
    out = []
    for _ in range(n):
        items = [r.choice(ships) if ships and r.random() < .6 else g.any_image(r, hi=12) for _ in range(r.randint(1, 6))]
        h = max(i[1] for i in items) + r.randint(0, 3)
        out.append(g.hjoin(items, [r.choice((0, 0, 1, 1, 2, 4, 5, 9)) for _ in items], h,
                           [r.randint(0, h - i[1]) for i in items], r.choice((0, 0, 1, 6)), r.choice((0, 0, 1, 3))))
    return out


def spikes(r):
    """A bar with a pixel over it and one under it, anywhere: the box goes to them."""
    w = r.choice((r.randint(1, 20), r.randint(1, 140), g.round_side(r, 200)))
    h = r.choice((3, 3, 4, 5, 9))
    m = r.randrange(h)
    gr = g.grid(w, h, '-')
    edge = lambda n: r.choice((r.randrange(n), r.randrange(n), r.randrange(min(n, 4)), n - 1 - r.randrange(min(n, 4))))
    for x in range(w):
        gr[m][x] = 'x'
    for _ in range(r.choice((1, 2, 2))):
        gr[edge(h)][edge(w)] = 'x'
    if r.random() < .3:                     # and a gap somewhere
        gr[m][edge(w)] = '-'
    i = g.pack(gr)
    return g.turn(i) if r.random() < .3 else i


def cut_images(ctx):
    r = ctx.rng
    out = list(g.exhaustive(ctx.n(9, 12)))
    if ctx.quick:                                   # all the 10..12 cell ones would take a minute
        more = [i for i in g.exhaustive(12, min_area=12, max_h=4, max_w=6)]
        out += r.sample(more, 1500)
    else:
        out += r.sample(list(g.exhaustive(15, min_area=15, max_w=5, max_h=5)), 20000)
    for w, h in ((1, 1), (1, 30), (30, 1), (2, 20), (20, 2), (16, 16), (40, 12), (33, 9), (130, 5), (5, 130), (300, 4)):
        out += g.special(w, h)
    out += [g.any_image(r, hi=24) for _ in range(ctx.n(300, 5000))]
    out += lines_of_text(ctx, ctx.n(150, 2500))
    out += [spikes(r) for _ in range(ctx.n(500, 6000))]
    # two columns, every way of touching, at every height
    for _ in range(ctx.n(300, 3000)):
        h = r.randint(1, 12)
        w = r.randint(2, 7)
        cols = []
        for _ in range(w):
            c = ['-'] * h
            for _ in range(r.choice((0, 1, 1, 1, 2, 3))):
                c[r.randrange(h)] = 'x'
            cols.append(c)
        # move a column next to the previous one
        for k in range(1, w):
            if r.random() < .4 and 'x' in cols[k - 1]:
                y = r.choice([n for n in range(h) if cols[k - 1][n] == 'x']) + r.choice((-2, -1, 0, 1, 2))
                cols[k] = ['-'] * h
                if 0 <= y < h:
                    cols[k][y] = 'x'
        out.append((w, h, ''.join(cols[x][y] for y in range(h) for x in range(w))))
    return out


def huge(ctx):
    """Lines and columns whose sizes do not fit in 16 bits, with some ink here and there."""
    r = ctx.rng
    out = []
    for w, h in ((66003, 3), (3, 66003), (131080, 2), (40000, 1), (300, 250), (2000, 40)):
        for _ in range(ctx.n(2, 12)):
            p = bytearray(b'-' * (w * h))
            for _ in range(r.choice((3, 12, 30))):
                x, y = r.randrange(w), r.randrange(h)
                if r.random() < .3:
                    x, y = min(w - 1, 65536 + r.randint(-2, 2)) if w > 65540 else x, min(h - 1, 65536 + r.randint(-2, 2)) if h > 65540 else y
                for _ in range(r.randint(1, 5)):
                    p[y * w + x] = 120
                    x, y = min(w - 1, max(0, x + r.choice((-1, 0, 1, 1)))), min(h - 1, max(0, y + r.choice((-1, 0, 1))))
            out.append((w, h, p.decode()))
    return out


def seg(i, name):
    return drv('drv_img', 'seg', g.arg(i), op=name, img=g.js(i))


def big_lines(ctx):
    r = ctx.rng
    out = []
    for w, h in ((1500, 1500), (20000, 60), (4000, 300), (300, 4000), (100000, 12), (12, 100000), (2500, 900)):
        for _ in range(ctx.n(4, 24)):
            i = g.any_image(r, r.randint(2, 14), r.randint(1, 8)) if r.random() < .4 else r.choice(lines_of_text(ctx, 1))
            s = g.stretch(r, 8, (g.around(r, w), g.around(r, h)), i)
            out.append(drv('drv_img', 'bigseg', g.stretch_arg(s), op='bigseg', **g.stretch_js(s)))
    return out


def s01(ctx):
    ctx.model('MCSegment', 'MCSegmentQuick.cfg' if ctx.quick else 'MCSegment.cfg')
    ctx.model('MCStretch', 'MCStretchQuick.cfg')
    ctx.conform('TraceImg', [seg(i, 'geom') for i in cut_images(ctx) + huge(ctx)] + big_lines(ctx), keep=4)


def s02(ctx):
    ctx.model('MCSegment', 'MCSegmentQuick.cfg' if ctx.quick else 'MCSegment.cfg')
    ctx.model('MCStretch', 'MCStretchQuick.cfg')
    ctx.conform('TraceImg', [seg(i, 'cut') for i in cut_images(ctx)] + [seg(i, 'cuts') for i in huge(ctx)] + big_lines(ctx),
                keep=4)


CHECKS = {'I01': i01, 'I02': i02, 'I03': i03, 'S01': s01, 'S02': s02}
