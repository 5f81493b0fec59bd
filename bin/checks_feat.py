"""F01-F05, D02: measures, their comparison, files of features."""
import imggen as g
import vp
from core import drv, hexs

# sides for which something is rounded, halved, cut in three, or kept in a byte
SIZES = list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129]


def shapes(ctx, n, big=True):
    r = ctx.rng
    out = []
    for w in range(1, 14):
        for h in range(1, 14):
            for _ in range(ctx.n(1, 4)):
                out.append(g.any_image(r, w, h))
    for w, h in ((1, 1), (2, 2), (3, 3), (1, 9), (9, 1), (2, 11), (11, 2), (5, 5), (6, 6), (7, 9), (12, 8), (16, 16), (21, 20)):
        out += g.special(w, h)
    for _ in range(n):
        out.append(g.any_image(r, r.choice(SIZES[:20]), r.choice(SIZES[:20])))
    for _ in range(n // 8):
        out.append(g.any_image(r, r.choice(SIZES), r.choice(SIZES[:20])))
        out.append(g.any_image(r, r.choice(SIZES[:20]), r.choice(SIZES)))
    ships = [i for i, _ in g.shipped()]
    out += r.sample(ships, min(len(ships), ctx.n(150, 3000)))
    for i in r.sample(ships, min(len(ships), ctx.n(60, 1000))):
        out.append(g.nearby(r, i))
    if big:
        for w, h in ((64, 64), (90, 40), (40, 90), (200, 3), (3, 200), (256, 1), (1, 256), (257, 2), (2, 257), (129, 65)):
            out.append(g.any_image(r, w, h))
            out.append(g.noise(r, w, h, .5))
        for w, h in ((41, 37), (37, 41), (64, 31)):
            out += g.special(w, h)[:18] if not ctx.quick else r.sample(g.special(w, h)[:18], 8)
        for w, h in ((256, 200), (200, 256)):
            out.append(g.blobs(r, w, h))
            out.append(g.noise(r, w, h, .6))
            if not ctx.quick:
                out += g.special(w, h)[:18]
    return out


def measure(i, name, how='row'):
    return drv('drv_feat', how, g.arg(i), op=name, img=g.js(i))


def bigs(ctx, n):
    """Images whose sums do not fit in 32 bits, or nearly."""
    r = ctx.rng
    out = []
    sides = [(720, 720), (800, 800), (1290, 1290), (1500, 1500), (3000, 1000), (1000, 3000), (2048, 2048), (1024, 1024),
             (4200, 300), (300, 4200), (65600, 40), (40, 65600), (511, 700), (900, 901)]
    for k in range(n):
        w, h = r.choice(sides) if r.random() < .8 else (r.randint(200, 2500), r.randint(200, 2500))
        w, h = g.around(r, w), g.around(r, h)
        q = r.randrange(4)
        c = None
        if q == 0:                          # nearly all of ink
            c = r.choice(((1, 1, 'x'), (2, 1, 'x-'), (1, 2, 'x-'), (1, 2, '-x'), (1, 3, 'xx-'), (3, 3, 'xxxx-xxxx')))
        elif q == 1:
            c = any_small(r)
        out.append(g.stretch(r, 8, (w, h), c))
    return out


def any_small(r):
    w, h = r.randint(1, 6), r.randint(1, 6)
    return w, h, ''.join('x' if r.random() < .8 else '-' for _ in range(w * h))


def family(ctx, name, small, extra=()):
    ctx.model('MCStretch', 'MCStretchQuick.cfg' if ctx.quick or name != 'numeric' else 'MCStretch.cfg', timeout=1500)
    r = ctx.rng
    imgs = list(g.exhaustive(small)) + list(extra) + shapes(ctx, ctx.n(250, 4000))
    if ctx.quick:
        imgs += r.sample(list(g.exhaustive(12, min_area=12, max_w=6, max_h=6)), 600)
    else:
        imgs += r.sample(list(g.exhaustive(16, min_area=16, max_w=4, max_h=4)), 12000)
    cs = [measure(i, name, 'row' if k % 2 else 'direct') for k, i in enumerate(imgs)]
    for s in bigs(ctx, ctx.n(24, 160)) + ([g.stretch(r, 5, (4100, 4100))] if name == 'numeric' else []):
        cs.append(drv('drv_feat', 'bigrow', g.stretch_arg(s), op='big' + name, **g.stretch_js(s)))
    ctx.conform('TraceFeat', cs, keep=4)


def f01(ctx):
    ctx.model('MCFeatures', 'MCFeaturesQuick.cfg' if ctx.quick else 'MCFeatures.cfg')
    r = ctx.rng
    extra = []
    for w in SIZES:                       # odd and even sides, ink in one half only
        for h in (1, 2, 3, 4, 5, 8, 9):
            for a, b in ((w, h), (h, w)):
                y = r.randrange(b)
                extra.append((a, b, ''.join('x' * a if k == y else '-' * a for k in range(b))))
                x = r.randrange(a)
                extra.append((a, b, ''.join('x' if k == x else '-' for _ in range(b) for k in range(a))))
    family(ctx, 'numeric', ctx.n(9, 12), extra)


def f02(ctx):
    ctx.model('MCFeatures', 'MCFeaturesQuick.cfg' if ctx.quick else 'MCFeatures.cfg')
    r = ctx.rng
    extra = []
    for h in range(1, 30):
        for _ in range(ctx.n(4, 20)):
            extra.append(g.rowbars(r, r.randint(1, 6), h))
            extra.append(g.turn(g.rowbars(r, r.randint(1, 6), h)))
    for n in range(1, 40):                # many runs
        extra += [g.checker(n, 3), g.checker(3, n), g.checker(n, n), g.checker(n, 7, 1, 1), g.checker(7, n, 2)]
    for w, h in ((300, 3), (3, 300), (520, 2), (256, 4), (4, 256), (258, 5)):
        extra += [g.checker(w, h), g.comb(w, h), g.turn(g.comb(w, h)), g.noise(r, w, h, .5),
                  g.rowbars(r, w, h), (w, h, ''.join('x' * w if y % 2 == 0 else '-' * w for y in range(h)))]
    family(ctx, 'shape', ctx.n(9, 12), extra)


def mazes(r, w, h):
    """Corridors of a random tree: one area which winds."""
    W, H = w | 1, h | 1
    gr = g.grid(W, H, 'x')
    st = [(1, 1)] if W > 2 and H > 2 else []
    for x, y in st:
        gr[y][x] = '-'
    while st:
        x, y = st[-1]
        nb = [(dx, dy) for dx, dy in ((2, 0), (-2, 0), (0, 2), (0, -2))
              if 0 < x + dx < W - 1 and 0 < y + dy < H - 1 and gr[y + dy][x + dx] == 'x']
        if not nb:
            st.pop()
            continue
        dx, dy = r.choice(nb)
        gr[y + dy // 2][x + dx // 2] = gr[y + dy][x + dx] = '-'
        st.append((x + dx, y + dy))
    for _ in range(r.randint(0, 4)):       # doors to the sides
        k = r.randrange(4)
        if k == 0:
            gr[0][r.randrange(W)] = '-'
        elif k == 1:
            gr[H - 1][r.randrange(W)] = '-'
        elif k == 2:
            gr[r.randrange(H)][0] = '-'
        else:
            gr[r.randrange(H)][W - 1] = '-'
    return g.pack(gr)


def f03(ctx):
    ctx.model('MCZone', 'MCZoneQuick.cfg' if ctx.quick else 'MCZone.cfg')
    ctx.model('MCZoneSweep', 'MCZoneSweepQuick.cfg' if ctx.quick else 'MCZoneSweep.cfg')
    r = ctx.rng
    extra = []
    for _ in range(ctx.n(60, 800)):
        extra.append(mazes(r, r.randint(3, 25), r.randint(3, 25)))
    for w in range(1, 25):
        for h in (1, 2, 3, 7, 16, 25):
            for f in (g.spiral, g.comb, g.double_comb, g.nested, g.holes):
                i = f(w, h)
                for _ in range(r.randrange(4)):
                    i = g.turn(i)
                if r.random() < .4:
                    i = g.flip(i)
                extra.append(i)
    for w, h in ((60, 40), (101, 31), (31, 101), (255, 21), (300, 9), (9, 300), (600, 2)):
        for f in (g.spiral, g.comb, g.double_comb, g.nested, g.holes, lambda w, h: mazes(r, w, h),
                  lambda w, h: g.checker(w, h), lambda w, h: g.noise(r, w, h, .4)):
            extra += [f(w, h), g.turn(g.turn(f(w, h)))]
    # V, U, W: areas which meet late
    for n in range(2, 14):
        v = [''.join('x' if x in (y, 2 * n - y) else '-' for x in range(2 * n + 1)) for y in range(n)]
        extra += [g.from_rows(v), g.from_rows(v[::-1]), g.turn(g.from_rows(v)), g.negative(g.from_rows(v))]
        wv = [''.join('-' if (x % (2 * n)) in (y, 2 * n - 1 - y) else 'x' for x in range(6 * n)) for y in range(n)]
        extra += [g.from_rows(wv), g.from_rows(wv[::-1]), g.turn(g.from_rows(wv)), g.flip(g.turn(g.from_rows(wv)))]
    extra += [tiny_share(r) for _ in range(ctx.n(30, 300))]
    family(ctx, 'zones', ctx.n(9, 12), extra)


def f04(ctx):
    ctx.model('MCContext')
    r = ctx.rng
    small = list(g.exhaustive(4))
    ships = [i for i, _ in g.shipped()]

    def pick():
        k = r.randrange(6)
        if k == 0:
            return r.choice(small)
        if k == 1 and ships:
            return r.choice(ships)
        if k == 2:
            return r.choice(g.special(r.randint(1, 12), r.randint(1, 12)))
        return g.any_image(r, hi=16)

    def seq():
        n = r.randint(2, 7)
        s = [pick() for _ in range(n)]
        for k in range(1, n):
            q = r.random()
            if q < .25:                       # same size, other content
                w, h, p = s[k - 1]
                s[k] = g.any_image(r, w, h)
            elif q < .4:                      # an image met before
                s[k] = s[r.randrange(k)]
            elif q < .5:
                s[k] = g.turn(s[k - 1])
            elif q < .55:
                s[k] = g.negative(s[k - 1])
        if r.random() < .2:
            s.sort(key=lambda i: i[0] * i[1], reverse=r.random() < .5)
        return s

    out = []
    for _ in range(ctx.n(450, 6000)):
        s = seq()
        out.append(drv('drv_feat', 'rows', '%d ' % len(s) + ' '.join(map(g.arg, s)), op='rows', imgs=[g.js(i) for i in s]))
        s = seq()
        orders = []
        for _ in s:
            k = r.randrange(4)
            o = list(range(25))
            if k == 0:
                o = []
            elif k == 1:
                o = o[::-1]
            elif k == 2:
                r.shuffle(o)
            else:
                o = [r.choice((22, 23, 24, 24, 23, r.randrange(25))) for _ in range(r.randint(1, 9))]
            orders.append(o)
        out.append(drv('drv_feat', r.choice(('ctx', 'ctxi')), '%d ' % len(s) + ' '.join(
            '%s %d %s' % (g.arg(i), len(o), ' '.join(map(str, o))) for i, o in zip(s, orders)),
            op='ctx', imgs=[g.js(i) for i in s]))
    ctx.conform('TraceFeat', out, keep=3)
    # the working images of the recognition, along a line: one process for all the cases
    out = []
    w = h = 1
    for _ in range(ctx.n(400, 5000)):
        i = g.any_image(r, hi=24)
        k = r.random()
        if k < .4 and w <= i[0] and h <= i[1]:      # a character of the size of the one before
            if k < .1 and h <= i[0] and w <= i[1]:  # or of its quarter turn
                w, h = h, w
            x, y = r.randint(0, i[0] - w), r.randint(0, i[1] - h)
        else:
            x, y = r.randrange(i[0]), r.randrange(i[1])
            w, h = r.randint(1, i[0] - x), r.randint(1, i[1] - y)
        out.append(drv('drv_img', 'work', '%s %d %d %d %d' % (g.arg(i), x, y, w, h), op='work', img=g.js(i), x=x, y=y, w=w, h=h))
    ctx.conform('TraceImg', out, keep=1)


INTERVAL = [100] * 6 + [200, 200, 100, 100, 200, 200, 100, 100, 100, 200, 200, 200, 200, 100]


def tiny_share(r):
    """An image with areas whose share of the sides is under 1 %, sides of 101 at least."""
    n = r.choice((99, 100, 101, 150, 199, 200, 201, 240))
    h = r.randint(1, 3)
    gr = g.grid(n, h + 1, '-')
    gr[h] = list('x' * n) if r.random() < .7 else list('-' * n)
    for y in range(h):
        for x in r.sample(range(1, 6), r.randint(1, 2)):
            gr[y][x] = 'x'
    i = g.pack(gr)
    for _ in range(r.randrange(4)):
        i = g.turn(i)
    return i


def value(r, col, img=None):
    if col <= 20:
        n = INTERVAL[col - 1]
        return [r.choice((0, 1, n - 1, n, n // 2, r.randint(0, n), r.randint(0, n), r.randint(0, n)))]
    if col <= 22:
        return [r.choice((0, 1, 2, 3, r.randint(0, 300)))]
    if col == 23:
        return [x for _ in range(7) for x in (r.randrange(2), r.choice((0, 1, 2, 3, r.randint(0, 300))))]
    if col == 24:
        return [r.randrange(2), r.randrange(2)] + [r.choice((0, 1, 2, 3, r.randint(0, 300))) for _ in range(5)]
    n = r.choice((0, 1, 1, 2, 2, 3, 4, 5, r.randint(0, 40)))
    k = r.randrange(3)
    if k == 0:
        w = [r.randint(1, 30) for _ in range(n)]
        return sorted(x * 100 // sum(w) for x in w)
    if k == 1:
        return sorted(r.choice((0, 1, 50, 100, r.randint(0, 100))) for _ in range(n))
    return [r.randint(0, 100) for _ in range(n)]


def rel(col, x, y, d):
    f = (lambda v: '%d %s' % (len(v), ' '.join(map(str, v)))) if col == 25 else (lambda v: ' '.join(map(str, v)))
    return drv('drv_feat', 'rel', '%d %s %s %d' % (col, f(x), f(y), d), op='rel', col=col, x=x, y=y, d=d)


def f05(ctx):
    ctx.model('MCDistance', 'MCDistanceQuick.cfg' if ctx.quick else 'MCDistance.cfg')
    r = ctx.rng
    out = []
    for col in range(1, 21):
        n = INTERVAL[col - 1]
        for _ in range(ctx.n(150, 1500)):
            x, y = value(r, col), value(r, col)
            if r.random() < .3:
                y = [max(0, min(n, x[0] + r.choice((-11, -10, -9, -1, 0, 1, 9, 10, 11, 19, 20, 21))))]
            dd = abs(x[0] - y[0])
            d = r.choice((0, 1, n // 10, n // 10, dd, dd + 1, max(0, dd - 1), n, r.randint(0, n)))
            out.append(rel(col, x, y, d))
    exact = [1, 7] if ctx.quick else list(range(1, 21))
    for col in exact:                       # the whole square, one limit each
        n = INTERVAL[col - 1]
        step = 3 if ctx.quick and n == 200 else 1
        for a in range(0, n + 1, step):
            for b in range(0, n + 1, step if ctx.quick else (1 if col in (1, 7) else 7)):
                if ctx.quick and col == 1 and (a + b) % 3:
                    continue
                out.append(rel(col, [a], [b], r.choice((abs(a - b), n // 10, max(0, abs(a - b) - 1)))))
    for col in (21, 22):
        for _ in range(ctx.n(100, 1000)):
            x, y = value(r, col), value(r, col)
            out.append(rel(col, x, x if r.random() < .3 else y, r.choice((0, 1, 2, 50, 300))))
    for col in (23, 24, 25):
        for _ in range(ctx.n(700, 8000)):
            x, y = value(r, col), value(r, col)
            k = r.randrange(5)
            if k == 0:
                y = list(x)
            elif k <= 2:
                y = list(x)
                if x:
                    for _ in range(r.randint(1, 4)):
                        n = r.randrange(len(x))
                        y[n] = max(0, x[n] + r.choice((-1, 1))) if col != 23 or n % 2 else 1 - x[n]
                    if col == 25:
                        y = [min(v, 100) for v in y]
            elif k == 3 and col == 25:
                y = [r.randint(0, 100) for _ in x]
            out.append(rel(col, x, y, r.choice((0, 1, 14, 28, 42, 49, 50, 51, 57, 71, 85, 99, 100, r.randint(0, 100)))))
    # sizes which differ by what a narrower number drops
    for col in (21, 22, 23, 24):
        for _ in range(ctx.n(80, 600)):
            x = value(r, col)
            y = list(x)
            for _ in range(r.choice((1, 1, 2, 7))):
                n = r.randrange(len(x))
                if col == 23 and n % 2 == 0 or col == 24 and n < 2:
                    continue
                y[n] += r.choice((255, 256, 257, 512, 32768, 65535, 65536, 65537, 1 << 24, 3 << 28))
            if r.random() < .5:
                x, y = y, x
            out.append(rel(col, x, y, r.choice((0, 1, 14, 15, 28, 50, 85, 86, 99, 100))))
    # many shares
    for k in range(ctx.n(60, 400)):
        n = r.choice((127, 128, 255, 256, 257, 300, 511, 512, 700)) if r.random() < .8 else r.randint(41, 900)
        a = [r.choice((0, 1, 2, 100, r.randint(0, 100))) for _ in range(n)]
        b = list(a) if k % 3 == 0 else [min(100, v + r.choice((0, 0, 1, 3))) for v in a] if k % 3 == 1 else [r.randint(0, 100) for _ in a]
        if k % 7 == 6:                      # as many modulo 256, not as many
            b = a[:n - 256] if n > 256 else a + [r.randint(0, 100)] * 256
        out.append(rel(25, a, b, r.choice((0, 50, 99, 100, r.randint(0, 100)))))
    # values of real glyphs
    ships = [i for i, _ in g.shipped()]
    if ships:
        ims = r.sample(ships, ctx.n(60, 500))
        res = vp.run_driver(vp.build(['drv_feat'])['drv_feat'], [('i%d' % k, 'row ' + g.arg(i)) for k, i in enumerate(ims)])
        rows = [o for s, o in res.values() if s == 'ok']
        for _ in range(ctx.n(500, 5000)):
            a, b = r.choice(rows), r.choice(rows)
            col = r.choice(list(range(1, 23)) + [23, 24, 25] * 5)
            f = lambda q: [q['n'][col - 1]] if col <= 22 else q[{23: 'a', 24: 'z', 25: 'pz'}[col]]
            out.append(rel(col, f(a), f(b), r.choice((0, 10, 20, 50, r.randint(0, 100)))))
    ctx.conform('TraceFeat', out, keep=4)


def synthetic(r):
    return {'n': [value(r, c)[0] for c in range(1, 23)], 'a': value(r, 23), 'z': value(r, 24), 'pz': value(r, 25)}


def feature_lines(rows):
    out = [[len(rows)]]
    out += [[q['n'][k] for q in rows] for k in range(22)]
    out += [[v for q in rows for v in q['a']], [v for q in rows for v in q['z']],
            [v for q in rows for v in [len(q['pz'])] + q['pz']]]
    return out


def feature_text(rows):
    return ''.join(' '.join(map(str, l)) + '\n' for l in feature_lines(rows))


def d02(ctx):
    ctx.model('MCFeatureFile')
    r = ctx.rng
    ships = [i for i, _ in g.shipped()]
    out = []

    def pick():
        k = r.randrange(5)
        if k == 0 and ships:
            return r.choice(ships)
        if k == 1:
            return r.choice(g.special(r.randint(1, 9), r.randint(1, 9)))
        if k == 2 and r.random() < .2:
            return tiny_share(r)
        return g.any_image(r, hi=12)

    for k in range(ctx.n(260, 3000)):
        s = [pick() for _ in range(r.choice((0, 1, 1, 2, 3, 4, 6)))]
        if s and r.random() < .5:           # equal rows
            s.insert(r.randrange(len(s) + 1), r.choice(s))
        if r.random() < .15:                # no area at all: an empty list of shares
            s.insert(r.randrange(len(s) + 1), (3, 3, 'x' * 9))
        m = [pick() for _ in range(r.choice((0, 0, 1, 2)))]
        out.append(drv('drv_feat', 'dio', '%d %s %d %s' % (len(s), ' '.join(map(g.arg, s)), len(m), ' '.join(map(g.arg, m))),
                       op='dio', imgs=[g.js(i) for i in s], more=[g.js(i) for i in m]))
    for n in (13, 33, 65):
        s = [pick() for _ in range(n)]
        out.append(drv('drv_feat', 'dio', '%d %s 0' % (len(s), ' '.join(map(g.arg, s))),
                       op='dio', imgs=[g.js(i) for i in s], more=[]))
    for _ in range(ctx.n(260, 3000)):
        rows = [synthetic(r) for _ in range(r.choice((0, 1, 2, 3, 5, 8)))]
        out.append(drv('drv_feat', 'din', hexs(feature_text(rows)), op='din', rows=rows, lines=feature_lines(rows)))
    for n in (65536 + r.randrange(2000),):      # more rows than 16 bits count
        s = [g.any_image(r, hi=6) for _ in range(13)]
        asked = sorted({0, 1, 255, 256, 65535, 65536 % n, n - 1} | {r.randrange(n) for _ in range(20)})
        out.append(drv('drv_feat', 'bigrows', '%d %d %s %d %s' % (n, len(s), ' '.join(map(g.arg, s)), len(asked), ' '.join(map(str, asked))),
                       op='bigrows', n=n, imgs=[g.js(i) for i in s], asked=asked))
    rows = [synthetic(r) for _ in range(ctx.n(300, 3000))]
    out.append(drv('drv_feat', 'din', hexs(feature_text(rows)), op='din', rows=rows, lines=feature_lines(rows)))
    ctx.conform('TraceFeat', out, keep=3)
    # a row of a file compares as the row of the image
    out = []
    for _ in range(ctx.n(250, 3000)):
        a, b = pick(), pick()
        out.append(drv('drv_feat', 'dcmp', '%s %s' % (g.arg(a), g.arg(b)), op='dcmp', img=g.js(a), img2=g.js(b)))
    ctx.conform('TraceFeat', out, keep=1)


CHECKS = {'F01': f01, 'F02': f02, 'F03': f03, 'F04': f04, 'F05': f05, 'D02': d02}
