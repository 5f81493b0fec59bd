"""D01, O01-O03, C01, C02, L01, L02, A01: glyph databases, recognition, texts."""
import json, os
import imggen as g
import vp
from core import drv, hexs, bs
from checks_feat import feature_text, INTERVAL
from checks_dict import wordlist, word, wl, raw, ALPHABETS

UNKNOWN = 4294967295


def token(r, hi=5):
    """A word: bytes without blanks."""
    k = r.randrange(8)
    if k == 0 and r.random() < .3:          # characters which other readers take as blanks, marks or ends
        w = [r.choice('\ufeff\u00a0\u0085\u2028\u2029\u3000\u200b\u00ad\u0300\u1680\ufffe\x00\x1a\x1c\x1f\x7f\x08\\%"#').encode()
             for _ in range(r.choice((1, 1, 2)))] + [r.choice((b'', b'', b'a', b'bc'))]
        r.shuffle(w)
        return b''.join(w)
    if k == 0:
        return bytes(r.choice(b'!#$&"\'()*+,-./:;<=>?@[]{}|~x0123') for _ in range(r.randint(1, hi)))
    if k == 1:
        return r.choice(('é', '€', 'œ', '😀', 'ﬁ', 'ß')).encode()
    if k == 2:
        return str(r.randint(0, 99999)).encode()[:hi]
    if k == 3:
        return bytes(r.choice([c for c in range(33, 256) if c not in (0x85, 0xa0)]) for _ in range(r.randint(1, hi)))
    return bytes(r.choice(b'abcI1l') for _ in range(r.randint(1, hi)))


# ------------------------------------------------------------------ glyph files
def glyph(r, pics, words=None):
    views = []
    for _ in range(r.choice((0, 1, 1, 1, 1, 2, 3, 5))):
        w = r.choice(words) if words else token(r, r.choice((1, 2, 5, 12)))
        views.append((w, r.choice((b'f', b'Arial', b'/usr/share/fonts/x.ttf', b'f2', token(r))),
                      r.choice((UNKNOWN, UNKNOWN, 0, 1, 17, 999999))))
    return {'img': r.choice(pics), 'views': views}


def js_glyph(q):
    return {'img': g.js(q['img']), 'views': [[list(w), list(f), -1 if n == UNKNOWN else n] for w, f, n in q['views']]}


def glyph_bytes(q, sep=b' '):
    i = q['img']
    return (b'%d %d %s\n%d\n' % (i[0], i[1], i[2].encode(), len(q['views']))
            + b''.join(w + b' ' + f + b' %d\n' % n for w, f, n in q['views']))


def gio(gs):
    a = '%d %s' % (len(gs), ' '.join('%s %d %s' % (g.arg(q['img']), len(q['views']),
                   ' '.join('%s %s %d' % (hexs(w), hexs(f), n) for w, f, n in q['views'])) for q in gs))
    return drv('drv_ocr', 'gio', a, op='gio', glyphs=[js_glyph(q) for q in gs])


def d01(ctx):
    ctx.model('MCGlyphFile', 'MCGlyphFileQuick.cfg' if ctx.quick else 'MCGlyphFile.cfg')
    r = ctx.rng
    pics = [i for i, _ in r.sample(g.shipped(), min(60, len(g.shipped())))] + [g.any_image(r, hi=12) for _ in range(60)]
    pics += [(1, 1, 'x'), (1, 1, '-'), (300, 1, 'x' * 300), (1, 300, '-' * 300), g.noise(r, 100, 120, .5), (10, 10, 'x' * 100)]
    out = []
    def some_glyphs(sizes):
        for x in ctx.some(ctx.gen('GenGlyphFile', MaxGlyphs=2), sizes):
            yield [{'img': (q['img']['w'], q['img']['h'], bytes(q['img']['p']).decode()),
                    'views': [(bytes(w), bytes(f), UNKNOWN if n == -1 else n) for w, f, n in q['views']]} for q in x]

    for gs in some_glyphs(ctx.n(700, 2000)):
        out.append(gio(gs))
        t = b''.join(glyph_bytes(q) for q in gs)
        out.append(drv('drv_ocr', 'gread', hexs(t), op='gread', text=list(t)))
    for _ in range(ctx.n(900, 9000)):
        gs = [glyph(r, pics) for _ in range(r.choice((0, 1, 1, 2, 3, 6)))]
        if gs and r.random() < .3:
            gs.insert(r.randrange(len(gs)), r.choice(gs))
        out.append(gio(gs))
    for _ in range(ctx.n(500, 5000)):
        gs = [glyph(r, pics[:60]) for _ in range(r.choice((0, 1, 2, 3, 6)))]
        t = b''.join(glyph_bytes(q) for q in gs)
        out.append(drv('drv_ocr', 'gread', hexs(t), op='gread', text=list(t)))
    gs = [glyph(r, pics) for _ in range(ctx.n(200, 2000))]
    t = b''.join(glyph_bytes(q) for q in gs)
    out.append(drv('drv_ocr', 'gread', hexs(t), op='gread', text=list(t)))
    # sizes beyond 8 and 16 bits: views, glyphs, words and fonts
    for n in (255, 256, 257, 300):
        gs = [{'img': (1, 1, 'x'), 'views': [(b'w%d' % (k % 7), b'f%d' % k, k) for k in range(n)]},
              {'img': (2, 1, 'x-'), 'views': [(b'a' * n, b'f' * (n + 1), n)]},
              {'img': (3, 1, 'xx-'), 'views': [(b'b', b'g', 65535 + n)]}]
        out += [gio(gs), gio(gs[::-1]), gio([{'img': (1, 1, 'x-'[k % 2]), 'views': [(b'%d' % k, b'f', k)][:k % 3]} for k in range(n)])]
        t = b''.join(glyph_bytes(q) for q in gs)
        out.append(drv('drv_ocr', 'gread', hexs(t), op='gread', text=list(t)))
    gs = [{'img': (1, 1, 'x'), 'views': [(b'a' * 66000, b'f' * 5, 3), (b'b', b'f' * 66000, 70000)]}, {'img': (1, 1, '-'), 'views': [(b'c', b'd', 1)]}]
    out.append(gio(gs))
    out += bigdbs(r)
    ctx.conform('TraceOcr', out, keep=4)


# ------------------------------------------------------------------ databases in memory
def db_text(r, n, words, fonts, maxviews=3):
    t = b''
    for _ in range(n):
        k = r.choice((1, 1, 1, 1, 2, r.randint(1, maxviews)))
        t += b'1 1 x\n%d\n' % k
        for _ in range(k):
            t += r.choice(words) + b' ' + r.choice(fonts) + b' %d\n' % r.choice((UNKNOWN, 0, 3))
    return t


def near_words(r, w):
    return r.choice((w[:-1], w + b'a', w + b'\x01', w[1:], w[:-1] + bytes([w[-1] ^ 1]), w * 2, w + w[-1:], b'',
                     bytes([w[0] + 1 & 255 or 1]) + w[1:]))


def pool_words(r, n, lens=(1, 1, 2, 3, 4, 5, 7, 8)):
    ws = [token(r, r.choice(lens)) for _ in range(n)]
    for _ in range(n // 2):                 # near each other
        w = near_words(r, r.choice(ws))
        if w and not any(c in b' \t\n\r\v\f' for c in w) and len(w) <= 8:
            ws.append(w)
    return ws


def db(op, text, infos, q):
    return drv('drv_ocr', 'db', '%s %s %d %s' % (hexs(text), hexs(infos), len(q), ' '.join(hexs(w) for w in q)),
               op=op, text=list(text), infos=list(infos), queries=[list(w) for w in q])


def bigdb(r, n, w, f, pre=b'w', one=0):
    """A database with more glyphs, words, fonts or views than 16 bits count."""
    edges = (0, 1, 255, 256, 32767, 32768, 65535, 65536, w - 1, w, f - 1, f, n - 1)
    asked = sorted({k for k in edges if k < n} | {r.randrange(n) for _ in range(30)})
    table = {pre + b'%d' % (r.choice(asked) % w): [r.randrange(8) for _ in range(4)] for _ in range(20)}
    infos = b''.join(x + b' %d %d %d %d\n' % tuple(v) for x, v in table.items() if len(x) <= 8)
    q = [pre + b'%d' % (k % w) for k in asked[:12]] + [pre, b'', pre + b'%d' % w, pre + b'0%d' % (w - 1), pre + b'%d' % (w - 1), b'v1', b'x1']
    return drv('drv_ocr', 'bigdb', '%d %d %d %d %s %s %d %s %d %s' % (n, w, f, one, hexs(pre), hexs(infos), len(asked), ' '.join(map(str, asked)),
                                                                      len(q), ' '.join(map(hexs, q))),
               op='bigdb', n=n, w=w, f=f, one=one, pre=list(pre), infos=list(infos), asked=asked, queries=[list(x) for x in q])


def bigdbs(r):
    return [bigdb(r, 70000 + r.randrange(3000), 70000, 3), bigdb(r, 70000, 33000 + r.randrange(999), 67000, b'abcd'),
            bigdb(r, 66000 + r.randrange(999), 300, 66000, b'aa'), bigdb(r, 67000, 40000 + r.randrange(999), 5, b'', 1)]


def word_set(text):
    ws = []
    ls = text.split(b'\n')
    i = 0
    while i + 1 < len(ls):
        n = int(ls[i + 1])
        ws += [l.split()[0] for l in ls[i + 2:i + 2 + n]]
        i += 2 + n
    return ws


def o01(ctx):
    ctx.model('MCGlyphFile', 'MCGlyphFileQuick.cfg' if ctx.quick else 'MCGlyphFile.cfg')
    r = ctx.rng
    out = []
    for _ in range(ctx.n(1200, 12000)):
        ws = pool_words(r, r.choice((1, 2, 4, 8, 20)))
        if r.random() < .2:
            ws += [token(r, 40) for _ in range(3)]
        fonts = [b'f%d' % k for k in range(r.randint(1, 5))] + [token(r)]
        t = db_text(r, r.choice((0, 1, 2, 4, 8, 20)), ws, fonts)
        mine = word_set(t)
        q = [b''] + [r.choice(ws) for _ in range(4)] + [near_words(r, r.choice(mine or ws)) for _ in range(6)] + mine[:8]
        out.append(db('words', t, b'', q))
    # lengths around the slots of the words, every order
    for n in range(1, 14):
        ws = [b'a' * k for k in range(1, n + 1)] + [b'b' * k for k in range(n, 0, -1)]
        r.shuffle(ws)
        t = b''.join(b'1 1 x\n1\n' + w + b' f 0\n' for w in ws)
        out.append(db('words', t, b'', ws + [b'a' * (n + 1), b'c', b'ab', b'']))
    ships = vp.REPO + '/resources/glyphs/normalized-glyphs-latin.txt'
    if os.path.exists(ships):               # a part of the database of the project
        gs = open(ships, 'rb').read().split(b'\n')
        t, i, k = b'', 0, 0
        lim = ctx.n(120, 400)
        while i + 1 < len(gs) and k < lim:
            n = int(gs[i + 1])
            m = min(n, 12)
            t += b'1 1 x\n%d\n' % m + b'\n'.join(gs[i + 2:i + 2 + m]) + b'\n'
            i += 2 + n
            k += 1
        ws = word_set(t)
        out.append(db('words', t, b'', sorted(set(ws)) + [near_words(r, r.choice(ws)) for _ in range(40)]))
    # sizes beyond 8 bits: words, fonts, lengths, glyphs and views of one glyph
    for n in (255, 256, 257, 300):
        ws = [b'w%d' % k for k in range(n)] + [b'a' * k for k in range(n - 3, n + 4)]
        r.shuffle(ws)
        t = b''.join(b'1 1 x\n1\n' + w + b' f%d 0\n' % k for k, w in enumerate(ws))
        out.append(db('words', t, b'', r.sample(ws, 60) + [b'a' * k for k in range(n - 5, n + 6)] + [b'w', b'w%d' % n, b'']))
        t = b'1 1 x\n%d\n' % len(ws) + b''.join(w + b' f%d 0\n' % k for k, w in enumerate(ws)) + b'1 1 x\n1\nzz f0 0\n'
        out.append(db('words', t, b'', r.sample(ws, 20) + [b'zz', b'z', b'a' * (n + 4)]))
    ws = [b'a' * 66000, b'a' * 464, b'a' * 465, b'a' * 65536, b'b']
    out.append(db('words', b''.join(b'1 1 x\n1\n' + w + b' f 0\n' for w in ws), b'', ws + [b'a' * 65535, b'a' * 463]))
    for _ in range(ctx.n(1, 6)):
        out += bigdbs(r)
    ctx.conform('TraceOcr', out, keep=3)


def o02(ctx):
    ctx.model('MCLines', 'MCLinesQuick.cfg')
    r = ctx.rng
    out = []
    for _ in range(ctx.n(1500, 15000)):
        ws = pool_words(r, r.choice((1, 2, 4, 8, 20)), (1, 1, 2, 3, 4, 5, 6, 7, 8))
        t = db_text(r, r.choice((1, 2, 4, 8, 20)), ws, [b'f', b'g'])
        mine = word_set(t)
        table = {}
        for _ in range(r.choice((0, 1, 2, 5, 12, 30))):
            k = r.randrange(5)
            w = r.choice(mine) if k <= 2 else near_words(r, r.choice(mine)) if k == 3 else r.choice(ws)
            if r.random() < .1:                        # a long word whose beginning is known
                w = (r.choice(mine) + b'abcdefghi')[:r.choice((9, 10, 16))]
            if w and not any(c in b' \t\n\r\v\f' for c in w):
                table[w] = [r.randrange(8) for _ in range(4)]
        items = list(table.items())
        k = r.randrange(3)
        if k == 0:
            items.sort()
        elif k == 1:
            items.sort(reverse=True)
        info = b''.join(w + b' %d %d %d %d\n' % tuple(v) for w, v in items)
        out.append(db('infos', t, info, []))
    # entries of the same word: one of them
    for _ in range(ctx.n(60, 600)):
        ws = pool_words(r, 3)
        t = db_text(r, 5, ws, [b'f'])
        info = b''.join(r.choice(ws) + b' %d %d %d %d\n' % tuple(r.randrange(8) for _ in range(4)) for _ in range(8))
        out.append(db('infos', t, info, []))
    for n in (255, 256, 257, 300):          # hundreds of entries, of words and of fonts
        ws = [b'w%d' % k for k in range(n)]
        items = [w + b' %d %d %d %d\n' % tuple(r.randrange(8) for _ in range(4)) for w in ws + [b'other%d' % k for k in range(n)]]
        r.shuffle(items)
        r.shuffle(ws)
        out.append(db('infos', b''.join(b'1 1 x\n1\n' + w + b' f%d 0\n' % k for k, w in enumerate(ws)), b''.join(items), []))
        out.append(db('infos', b'1 1 x\n%d\n' % n + b''.join(w + b' f 0\n' for w in ws), b''.join(items[:n]), []))
    out += bigdbs(r)[1:3]
    ctx.conform('TraceOcr', out, keep=3)


def o03(ctx):
    ctx.model('MCUniverse', 'MCUniverseQuick.cfg')
    r = ctx.rng
    out = []
    for _ in range(ctx.n(900, 9000)):
        ws = pool_words(r, r.choice((1, 2, 3, 6)), (1, 1, 2, 5))
        t = db_text(r, r.choice((1, 2, 3, 5, 9, 15)), ws, [b'f', b'g', b'h'], maxviews=r.choice((2, 3, 4)))
        out.append(db('classes', t, b'', []))
    out += bigdbs(r)[1:3] + [bigdb(r, 66000, 50 + r.randrange(9), 9), bigdb(r, 2100, 2, 3)]
    t = db_text(r, ctx.n(70, 300), pool_words(r, 12), [b'f', b'g'])
    out.append(db('classes', t, b'', []))
    for n in (255, 256, 257, 300):          # sizes beyond 8 bits: glyphs of a class, classes, views of a glyph
        one = b'1 1 x\n1\na f 0\n'
        many = b'1 1 x\n%d\n' % n + b''.join(b'w%d f%d 0\n' % (k % 9, k) for k in range(n))
        out.append(db('classes', one * n + b'1 1 x\n1\nb f 0\n' + one, b'', []))
        out.append(db('classes', b''.join(b'1 1 x\n1\nw%d f 0\n' % k for k in range(n)) + one, b'', []))
        out.append(db('classes', many + one + many + many[:-2] + b'1\n', b'', []))
        for hi in (1, 100, 1000):
            vals = [r.randint(0, hi) for _ in range(n)]
            qs = [(r.choice(vals), r.choice((0, 1, 2, 10, hi))) for _ in range(8)]
            out.append(drv('drv_ocr', 'range', '%d %s %d %s' % (n, ' '.join(map(str, vals)), len(qs), ' '.join('%d %d' % q for q in qs)),
                           op='range', values=vals, queries=[list(q) for q in qs]))
    for _ in range(ctx.n(900, 9000)):       # the index of the values of a measure
        n = r.choice((0, 1, 2, 5, 12, 40))
        hi = r.choice((3, 20, 100))
        vals = [r.randint(0, hi) for _ in range(n)]
        qs = [(r.choice(vals) if vals and r.random() < .4 else r.randint(0, hi), r.choice((0, 1, 2, 10, 10, hi))) for _ in range(8)]
        out.append(drv('drv_ocr', 'range', '%d %s %d %s' % (n, ' '.join(map(str, vals)), len(qs), ' '.join('%d %d' % q for q in qs)),
                       op='range', values=vals, queries=[list(q) for q in qs]))
    ctx.conform('TraceOcr', out, keep=3)


# ------------------------------------------------------------------ recognition
def measured(imgs):
    """Rows of the features of the images."""
    u = sorted(set(imgs))
    res = vp.run_driver(vp.build(['drv_feat'])['drv_feat'], [('i%d' % k, 'row ' + g.arg(i)) for k, i in enumerate(u)], jobs=vp.NCPU)
    for s, o in res.values():
        if s != 'ok':
            raise vp.CheckError('no features for an image of a database: ' + str(o))
    m = {i: res['i%d' % k][1] for k, i in enumerate(u)}
    return [m[i] for i in imgs]


class Dbs:
    """Databases shared by the events: kept in a file for the specification."""

    def __init__(self, ctx):
        self.ctx, self.all = ctx, []

    def add(self, rows, views, images=()):
        self.all.append({'rows': rows, 'views': views, 'images': [g.js(i) for i in images]})
        return len(self.all)

    def env(self):
        f = self.ctx.tmp + '/dbs.json'
        with open(f, 'w') as fh:
            json.dump(self.all, fh)
        return {'DBS': f}


def numbered(gs):
    """Views with the numbers of the fonts."""
    nums = {}
    return [[[list(w), nums.setdefault(f, len(nums))] for w, f in q] for q in gs]


def views_for(r, words, fonts):
    k = r.choice((1, 1, 1, 1, 2, 3))
    return [(r.choice(words), r.choice(fonts)) for _ in range(k)]


def bend(r, i, n=None):
    """The image with some pixels changed: near in the measures."""
    w, h, p = i
    p = list(p)
    for _ in range(n if n is not None else r.choice((0, 1, 1, 2, 3, 6))):
        k = r.randrange(len(p))
        p[k] = '-' if p[k] == 'x' else 'x'
    return (w, h, ''.join(p))


def glyphs_text(imgs, views):
    return b''.join(b'%d %d %s\n%d\n' % (i[0], i[1], i[2].encode(), len(v)) + b''.join(w + b' ' + f + b' 0\n' for w, f in v)
                    for i, v in zip(imgs, views))


def c01(ctx):
    ctx.model('MCUniverse', 'MCUniverseQuick.cfg' if ctx.quick else 'MCUniverse.cfg', timeout=840)
    r = ctx.rng
    ships = [i for i, _ in g.shipped()]
    dbs = Dbs(ctx)
    todo = []                               # (db images or None, rows or None, views, queries)

    def base():
        if ships and r.random() < .6:
            return r.choice(ships)
        return g.any_image(r, r.randint(3, 16), r.randint(3, 16))

    for k in range(ctx.n(110, 1500)):       # databases of images
        bases = [base() for _ in range(r.choice((1, 2, 3)))]
        words = pool_words(r, r.choice((1, 2, 3, 5)), (1, 1, 2))
        fonts = [b'f', b'g', b'h'][:r.randint(1, 3)]
        imgs = []
        for _ in range(r.choice((1, 2, 4, 8, 16, 30))):
            b = r.choice(bases)
            imgs.append(bend(r, b) if r.random() < .75 else g.nearby(r, b) if r.random() < .7 else base())
        views = [views_for(r, words, fonts) for _ in imgs]
        if r.random() < .4:                 # classes of several glyphs
            vs = [views_for(r, words, fonts) for _ in range(3)]
            views = [r.choice(vs) for _ in imgs]
        qs = [r.choice(imgs)] + [bend(r, r.choice(bases)) for _ in range(4)] + [g.nearby(r, r.choice(bases)), base()]
        r.shuffle(qs)
        todo.append((imgs, None, views, qs))
    for k in range(ctx.n(200, 3000)):       # rows near the one of the query, at the limits of each measure
        qs = [base() for _ in range(2)]
        rows = [q for q in measured(qs[:1])] if False else None
        todo.append((None, qs, None, qs))
    need = sorted({i for t in todo for i in (t[0] or []) + (t[1] or [])})
    rowof = dict(zip(need, measured(need)))

    def perturbed(q):
        q = json.loads(json.dumps(q))
        for _ in range(r.choice((0, 1, 1, 2, 4, 8, 14))):
            c = r.randrange(20)
            n = INTERVAL[c]
            d = r.choice((1, 1, 2, n // 20, n // 10 - 1, n // 10, n // 10)) if r.random() < .93 else n // 10 + 1
            q['n'][c] = min(n, max(0, q['n'][c] + r.choice((-d, d))))
        if r.random() < .08:
            q['n'][r.choice((20, 21))] += 1
        for _ in range(r.choice((0, 0, 1, 2, 3, 3, 4, 5))):
            c = r.randrange(7)
            if r.random() < .5:
                q['a'][2 * c] ^= 1
            else:
                q['a'][2 * c + 1] += 1
        for _ in range(r.choice((0, 0, 0, 1, 3, 4, 5))):
            c = r.randrange(7)
            q['z'][c] = (1 - q['z'][c]) if c < 2 else q['z'][c] + 1
        k = r.randrange(5)
        if k == 0:
            q['pz'] = [min(100, max(0, v + r.choice((-30, -5, 0, 5, 30)))) for v in q['pz']]
        elif k == 1 and r.random() < .4:
            q['pz'] = q['pz'] + [50]
        elif k == 2 and q['pz'] and r.random() < .4:
            q['pz'] = [0 for _ in q['pz']]
        return q

    cases = []
    spec_rows = 0
    for imgs, seeds, views, qs in todo:
        if imgs is None:
            rows = [perturbed(rowof[r.choice(seeds)]) for _ in range(r.choice((1, 2, 3, 5, 9, 20)))]
            if r.random() < .3:             # copies: ties
                rows += [r.choice(rows) for _ in range(3)]
            words = pool_words(r, r.choice((1, 2, 3, 5)), (1, 1, 2))
            vs = [views_for(r, words, [b'f', b'g']) for _ in range(r.choice((2, 4, 30)))]
            views = [r.choice(vs) for _ in rows]
            im = [(1, 1, 'x')] * len(rows)
            n = dbs.add(rows, numbered(views))
        else:
            rows = [rowof[i] for i in imgs]
            im = imgs
            if spec_rows < ctx.n(40, 400) and len(imgs) <= 8:      # the specification measures the glyphs too
                spec_rows += len(imgs)
                n = dbs.add([], numbered(views), imgs)
            else:
                n = dbs.add(rows, numbered(views))
        cases.append(drv('drv_ocr', 'rec', '@F0 @F1 %d %s' % (len(qs), ' '.join(map(g.arg, qs))), op='rec', db=n,
                         imgs=[g.js(i) for i in qs],
                         files_=[glyphs_text(im, views).hex(), feature_text(rows).encode().hex()]))
    # the databases and the drawings of the machine
    x = ctx.gen('GenUniverse', MaxGlyphs=2, Drawings=9)
    pics = [(i['w'], i['h'], bytes(i['p']).decode()) for i in x['images']]
    for d in ctx.some(x['dbs'], 300):
        n = dbs.add([x['rows'][k - 1] for k, _ in d], [v for _, v in d])
        im = [pics[k - 1] for k, _ in d]
        views = [[(w.encode(), b'fg'[f:f + 1]) for w, f in v] for _, v in d]
        fonts = list(dict.fromkeys(f for v in views for _, f in v))
        dbs.all[-1]['views'] = [[[list(w), fonts.index(f)] for w, f in v] for v in views]
        cases.append(drv('drv_ocr', 'rec', '@F0 @F1 %d %s' % (len(pics), ' '.join(map(g.arg, pics))), op='rec', db=n, imgs=[g.js(i) for i in pics],
                         files_=[glyphs_text(im, views).hex(), feature_text([x['rows'][k - 1] for k, _ in d]).encode().hex()]))
    # the database of the project
    big = shipped_db()
    if big:
        n = dbs.add(big[0], numbered(big[1]))
        pool = big[2]
        for _ in range(ctx.n(8, 60)):
            qs = []
            for _ in range(6):
                b = r.choice(pool)
                qs.append(r.choice((b, bend(r, b), bend(r, b), g.nearby(r, b), r.choice(ships) if ships else b)))
            cases.append(drv('drv_ocr', 'rec', '%s %s %d %s' % (hexs(LATIN), hexs(LATIN_DATAS), len(qs), ' '.join(map(g.arg, qs))),
                             op='rec', db=n, imgs=[g.js(i) for i in qs]))
    # many rows: near ones (candidates as many), or copies of one which is no candidate
    for n in (300, ctx.n(400, 700)):
        q = base()
        rows = [perturbed(measured([q])[0]) for _ in range(n)]
        words = [b'w%d' % k for k in range(r.choice((7, 290)))]
        views = [views_for(r, words, [b'f', b'g']) for _ in rows]
        cases.append(drv('drv_ocr', 'rec', '@F0 @F1 1 ' + g.arg(q), op='rec', db=dbs.add(rows, numbered(views)), imgs=[g.js(q)],
                         files_=[glyphs_text([(1, 1, 'x')] * n, views).hex(), feature_text(rows).encode().hex()]))
    for n in (70, 150) if ctx.quick else (70, 150, 300, 600):           # many which are all near enough to be candidates
        q = base()
        own = measured([q])[0]
        rows = []
        for _ in range(n):
            row = json.loads(json.dumps(own))
            for c in r.sample(range(20), r.choice((1, 2, 3, 4))):
                s = INTERVAL[c] // 100 * r.choice((1, 1, 2))
                row['n'][c] += -s if row['n'][c] > INTERVAL[c] // 2 else s
            rows.append(row)
        views = [[(b'w%d' % k, b'f')] for k in range(n)]
        cases.append(drv('drv_ocr', 'rec', '@F0 @F1 1 ' + g.arg(q), op='rec', db=dbs.add(rows, numbered(views)), imgs=[g.js(q)],
                         files_=[glyphs_text([(1, 1, 'x')] * n, views).hex(), feature_text(rows).encode().hex()]))
    for before, after in ((250, 3), (65530, 0), (65540, 7), (30000, 36000)) if ctx.quick else ((255, 1), (65530, 0), (65534, 2), (65540, 7), (30000, 36000), (131070, 5)):
        q = base()
        own = measured([q])[0]
        pad = json.loads(json.dumps(own))
        if r.random() < .5:
            c = r.randrange(20)
            pad['n'][c] += INTERVAL[c] // 5 * (-1 if pad['n'][c] > INTERVAL[c] // 2 else 1)
        else:
            pad = perturbed(pad)
            pad['n'][r.choice((20, 21))] += 3
            c = r.randrange(20)
            step = INTERVAL[c] // 100       # which can be told from the same
            pad['n'][c] = own['n'][c] + (step if own['n'][c] < step else -step)
        rows = [perturbed(own) for _ in range(r.randint(3, 12))]
        words = pool_words(r, 5, (1, 1, 2))
        views = [views_for(r, words, [b'f', b'g']) for _ in rows]
        fonts = list(dict.fromkeys([b'p'] * bool(before) + [f for v in views for _, f in v]))
        n = dbs.add(rows, [[[list(w), fonts.index(f)] for w, f in v] for v in views])
        # (glyphs of one word know one another: a word for each)
        allv = [[(b'pad%d' % k, b'p')] for k in range(before)] + views + [[(b'pad-%d' % k, b'p')] for k in range(after)]
        cases.append(drv('drv_ocr', 'rec', '@F0 @F1 1 ' + g.arg(q), op='bigrec', db=n, imgs=[g.js(q)], pad=pad, padview=bs(b'pad'),
                         files_=[glyphs_text([(1, 1, 'x')] * len(allv), allv).hex(),
                                 feature_text([pad] * before + rows + [pad] * after).encode().hex()]))
    ctx.conform('TraceOcr', cases, env=dbs.env(), keep=2)


LATIN = vp.REPO + '/resources/glyphs/normalized-glyphs-latin.txt'
LATIN_DATAS = vp.REPO + '/resources/datas/latin.txt'


def shipped_db():
    """-> rows, views, images of the database of the project."""
    try:
        ls = open(LATIN, 'rb').read().split(b'\n')
        ds = open(LATIN_DATAS).read().split('\n')
    except OSError:
        return None
    views, imgs = [], []
    i = 0
    while i + 1 < len(ls):
        w, h, p = ls[i].split()
        imgs.append((int(w), int(h), p.decode()))
        n = int(ls[i + 1])
        views.append([tuple(l.split()[:2]) for l in ls[i + 2:i + 2 + n]])
        i += 2 + n
    n = int(ds[0])
    cols = [[int(x) for x in l.split()] for l in ds[1:26]]
    rows = []
    p = 0
    for k in range(n):
        m = cols[24][p]
        rows.append({'n': [c[k] for c in cols[:22]], 'a': cols[22][14 * k:14 * k + 14], 'z': cols[23][7 * k:7 * k + 7],
                     'pz': cols[24][p + 1:p + 1 + m]})
        p += 1 + m
    if n != len(imgs):
        return None
    return rows, views, imgs


def c02(ctx):
    ctx.model('MCUniverse', 'MCUniverseQuick.cfg' if ctx.quick else 'MCUniverse.cfg', timeout=840)
    r = ctx.rng
    ships = [i for i, _ in g.shipped()]
    dbs = Dbs(ctx)
    cases, sets = [], []
    for k in range(ctx.n(160, 2000)):
        imgs = []
        kind = r.randrange(5)
        for _ in range(r.choice((1, 2, 5, 12, 40))):
            if kind == 0:
                i = g.any_image(r, hi=10)
            elif kind == 1 and imgs:
                i = bend(r, r.choice(imgs))
            elif kind == 2:
                i = r.choice(g.special(r.randint(1, 9), r.randint(1, 9)))
            elif kind == 3 and ships:
                i = r.choice(ships)
            else:
                i = g.any_image(r, r.choice((1, 1, 2, 3)), r.choice((1, 1, 2, 3)))
            imgs.append(i)
        if r.random() < .4:                 # the same drawing with other words
            imgs += [r.choice(imgs) for _ in range(3)]
        sets.append(imgs)
    for n in (255, 257, 300, 513, 1025):          # many times the same drawing, among others
        imgs = [r.choice(((1, 1, 'x'), (2, 2, 'x--x')))] * n + [(1, 2, 'x-'), (2, 1, '-x')] * 2
        if r.random() < .5:
            r.shuffle(imgs)
        sets.append(imgs)
    need = sorted({i for s in sets for i in s})
    rowof = dict(zip(need, measured(need)))
    for imgs in sets:
        words = pool_words(r, r.choice((1, 2, 5)), (1, 1, 2))
        views = [views_for(r, words, [b'f', b'g']) for _ in imgs]
        if len(imgs) > 200:                 # each its own word
            views = [[(b'w%d' % k, b'f')] for k in range(len(imgs))]
        elif r.random() < .03:              # a glyph with many words
            views[r.randrange(len(views))] = [(b'w%d' % k, b'f%d' % (k % 3)) for k in range(r.choice((255, 257, 513, 1025)))]
        n = dbs.add([], numbered(views))
        order = list(range(len(imgs)))
        r.shuffle(order)
        order = order[:12 if len(imgs) <= 200 else 3]
        cases.append(drv('drv_ocr', 'rec', '@F0 @F1 %d %s' % (len(order), ' '.join(g.arg(imgs[k]) for k in order)), op='self', db=n,
                         which=[k + 1 for k in order],
                         files_=[glyphs_text(imgs, views).hex(), feature_text([rowof[i] for i in imgs]).encode().hex()]))
    big = shipped_db()
    if big:
        n = dbs.add([], numbered(big[1]))
        order = list(range(len(big[2])))
        r.shuffle(order)
        order = order[:ctx.n(1200, 6000)]
        for k in range(0, len(order), 100):
            o = order[k:k + 100]
            cases.append(drv('drv_ocr', 'rec', '%s %s %d %s' % (hexs(LATIN), hexs(LATIN_DATAS), len(o), ' '.join(g.arg(big[2][j]) for j in o)),
                             op='self', db=n, which=[j + 1 for j in o]))
    ctx.conform('TraceOcr', cases, env=dbs.env(), keep=2)


# ------------------------------------------------------------------ lines of candidates
def lists_arg(words, nf, lists):
    return '%s %d %d %s' % (wl(words), nf, len(lists), ' '.join(
        '%d %s' % (len(l), ' '.join('%d %d' % c for c in l)) for l in lists))


def js_lists(words, lists):
    return [[[bs(words[w]), f] for w, f in l] for l in lists]


def a_list(r, words, nf, hi=5):
    k = r.randrange(8)
    if k == 0:
        return []
    if k <= 2:
        return [(r.randrange(len(words)), r.randrange(nf))]
    l = [(r.randrange(len(words)), r.randrange(nf)) for _ in range(r.randint(2, hi))]
    q = r.randrange(4)
    if q == 0:
        l.sort()                            # the views of a word together
    elif q == 1:
        l = [(l[0][0], f) for _, f in l]
    elif q == 2:
        l[-1] = (l[0][0], l[-1][1])         # a word twice, apart
    return l


def generated_lists(lists):
    """Lists of the specification -> words, lists of (place of the word, font)"""
    text = lambda w: w if isinstance(w, str) else bytes(w).decode()
    words = sorted({text(w) for l in lists for w, _ in l}) or ['a']
    return words, [[(words.index(text(w)), f) for w, f in l] for l in lists]


def l01(ctx):
    ctx.model('MCLines', 'MCLinesQuick.cfg' if ctx.quick else 'MCLines.cfg')
    r = ctx.rng
    out = []
    for x in ctx.some(ctx.gen('GenLines', Length=2), 8000):     # the inputs of the machine
        words, lists = generated_lists(x['lists'])
        info = ''.join('%s %d %d %d %d\n' % ((w,) + tuple(v)) for w, v in zip('ab', x['info']) if v)
        out.append(drv('drv_ocr', 'lines', '%s %d %s %s' % (hexs(info), len(lists), ' '.join('%d %d %d %d' % tuple(b) for b in x['boxes']),
                                                            lists_arg(words, 2, lists)),
                       op='lines', infos=bs(info), boxes=x['boxes'], lists=js_lists(words, lists)))
    for _ in range(ctx.n(6000, 60000)):
        words = sorted({bytes(r.choice(b'abcgpqy,\'-') for _ in range(r.choice((1, 1, 1, 2)))) for _ in range(r.randint(1, 6))})
        words = [w.decode() for w in words]
        r.shuffle(words)
        nf = r.randint(1, 3)
        n = r.choice((0, 1, 2, 3, 4, 6, 10))
        lists = [a_list(r, words, nf) for _ in range(n)]
        top, base = r.randint(0, 8), 0
        base = top + r.randint(2, 14)
        boxes = []
        x = 0
        for _ in range(n):
            t = max(0, top + r.choice((0, 0, 0, 1, -1, 2, -2, 5, -4)))
            b = max(t + 1, base + r.choice((0, 0, 0, 1, -1, 2, -2, 3, -5)))
            w = r.randint(1, 5)
            boxes.append((x, t, w, b - t))
            x += w + r.randint(0, 3)
        common = r.random() < .6
        info = ''
        kinds = (0, 1, 2, 3, 4, 5, 6, 7)
        for w in words:
            if r.random() < .8:
                v = [r.randrange(8), r.randrange(8), r.choice((2, 2, 1, 4, 3, 6)) if common else r.choice(kinds),
                     r.choice((2, 2, 2, 1, 4, 3, 6)) if common else r.choice(kinds)]
                info += '%s %d %d %d %d\n' % ((w,) + tuple(v))
        out.append(drv('drv_ocr', 'lines', '%s %d %s %s' % (hexs(info), n, ' '.join('%d %d %d %d' % b for b in boxes),
                                                            lists_arg(words, nf, lists)),
                       op='lines', infos=bs(info), boxes=[list(b) for b in boxes], lists=js_lists(words, lists)))
    # sizes beyond 8 and 16 bits: characters of a line, candidates, fonts, positions
    for n, up, nf in ((255, 0, 2), (256, 250, 300), (257, 3000, 2), (300, 65530, 70), (400, 40, 300)):
        words = ['w%d' % k for k in range(r.choice((3, 300)))]
        lists = [a_list(r, words, nf, r.choice((5, 5, 5, 5, 300))) for _ in range(n)]
        boxes = [(k * 300, up + r.choice((9, 10, 10, 10, 12, 15)), r.randint(1, 200), r.choice((10, 20, 20, 20, 25))) for k in range(n)]
        info = ''.join('%s %d %d %d %d\n' % (w, r.randrange(8), r.randrange(8), r.choice((2, 2, 1, 4)), r.choice((2, 2, 1, 4)))
                       for w in words if r.random() < .9)
        out.append(drv('drv_ocr', 'lines', '%s %d %s %s' % (hexs(info), n, ' '.join('%d %d %d %d' % b for b in boxes), lists_arg(words, nf, lists)),
                       op='lines', infos=bs(info), boxes=[list(b) for b in boxes], lists=js_lists(words, lists)))

    def line(words, boxes, lists, kinds=(2, 2, 1, 4)):
        info = ''.join('%s %d %d %d %d\n' % (w, r.randrange(8), r.randrange(8), r.choice(kinds), r.choice(kinds)) for w in words if r.random() < .9)
        out.append(drv('drv_ocr', 'lines', '%s %d %s %s' % (hexs(info), len(boxes), ' '.join('%d %d %d %d' % b for b in boxes), lists_arg(words, 1, lists)),
                       op='lines', infos=bs(info), boxes=[list(b) for b in boxes], lists=js_lists(words, lists)))
    for n in (255, 256, 257, 300, 513):     # as many on the base line, and on the mean line; fewer on others
        few = r.choice((3, 40, 200))
        words = ['a', 'b', 'c', 'd', 'e', 'f']
        for h in (0, 20, 700):
            boxes = [(k, 30, 3, 20) for k in range(n)] + [(k, 30 + d, 3, 20 + h - d) for k in range(few) for d in (r.choice((0, 6)),)]
            r.shuffle(boxes)
            line(words, boxes, [a_list(r, words, 1, 4) for _ in boxes])
    for n in (255, 256, 257, 300, 600, 3000):       # lines of any height
        for _ in range(ctx.n(60, 300)):
            words = ['a', 'b', 'c', 'd', 'e', 'f']
            ts, hs = [r.randrange(n) for _ in range(3)], r.choice(([1, n, r.randint(1, n)], [r.randint(1, n)]))
            boxes = [(k, r.choice(ts), 3, r.choice(hs)) for k in range(r.choice((3, 6, 12)))]
            line(words, boxes, [a_list(r, words, 1, 4) for _ in boxes], (2, 2, 2, 1, 4))
    ctx.conform('TraceOcr', out, keep=4)


def l02(ctx):
    ctx.model('MCLines', 'MCLinesQuick.cfg' if ctx.quick else 'MCLines.cfg')
    r = ctx.rng
    out = []
    for x in ctx.some(ctx.gen('GenFonts', Length=ctx.n(4, 5)), 3000):
        words, lists = generated_lists(x)
        out.append(drv('drv_ocr', 'font', lists_arg(words, 2, lists), op='font', lists=js_lists(words, lists)))
    for _ in range(ctx.n(6000, 60000)):
        words = ['a', 'b', 'c'][:r.randint(1, 3)]
        nf = r.choice((1, 2, 2, 3, 4))
        n = r.choice((0, 1, 2, 3, 4, 5, 6, 9, 12))
        lists = []
        for _ in range(n):
            l = a_list(r, words, nf, 4)
            if r.random() < .3:
                l = l[:1]
            lists.append(l)
        out.append(drv('drv_ocr', 'font', lists_arg(words, nf, lists), op='font', lists=js_lists(words, lists)))
    # just under, at and over the half
    for n in range(1, 14):
        for s in range(0, n + 1):
            for other in (0, 1):
                if s + other > n:
                    continue
                lists = [[(0, 1)]] * s + [[(1, 0)]] * other + [[(0, 0), (1, 1), (0, 1)]] * (n - s - other)
                r.shuffle(lists)
                out.append(drv('drv_ocr', 'font', lists_arg(['a', 'b'], 2, lists), op='font', lists=js_lists(['a', 'b'], lists)))
    # sizes beyond 8 bits: characters of a line, fonts, candidates of a character
    for n in (255, 256, 257, 300, 511, 512, 513):
        for s in (n // 2 - 1, n // 2, n // 2 + 1, n - 1, n):
            for f in (0, 1, 256, 299):
                lists = [[(0, f)]] * s + [[(0, 2), (1, f), (0, f)]] * (n - s)
                r.shuffle(lists)
                out.append(drv('drv_ocr', 'font', lists_arg(['a', 'b'], 300, lists), op='font', lists=js_lists(['a', 'b'], lists)))
        words = ['w%d' % k for k in range(n)]
        lists = [[(k, r.randrange(300)) for k in range(n)], [(0, 299)], [(n - 1, 299)], [(k, 299) for k in range(n)]]
        out.append(drv('drv_ocr', 'font', lists_arg(words, 300, lists), op='font', lists=js_lists(words, lists)))
        for few in (1, 3, 100, 254):        # more of a font than a byte counts, fewer of another
            lists = [[(0, 0)]] * n + [[(0, 1)]] * few + [[(0, 1), (1, 0), (2, 2)]] * r.choice((1, 7))
            r.shuffle(lists)
            out.append(drv('drv_ocr', 'font', lists_arg(['a', 'b', 'c'], 3, lists), op='font', lists=js_lists(['a', 'b', 'c'], lists)))
        lists = [a_list(r, words, 300, 300) for _ in range(20)]
        out.append(drv('drv_ocr', 'font', lists_arg(words, 300, lists), op='font', lists=js_lists(words, lists)))
    ctx.conform('TraceOcr', out, keep=4)


PUNCT = list('!#$%&\'()*+,-.:;<=>?[]{}')


def a01(ctx):
    ctx.model('MCAssemble', 'MCAssembleQuick.cfg' if ctx.quick else 'MCAssemble.cfg')
    r = ctx.rng
    out = []
    every = [chr(c) for c in range(33, 127)]
    for x in ctx.gen('GenAssemble', Length=2, MaxWords=2) + ([] if ctx.quick else ctx.gen('GenAssemble', Length=3, MaxWords=2)):
        words, lists = generated_lists(x['lists'])
        dic, spaces = [bytes(w).decode() for w in x['words']], [k - 1 for k in x['gaps'] if k <= len(lists)]
        spaces.sort()
        out.append(drv('drv_ocr', 'text', '%s %d %s %s' % (wl(dic), len(spaces), ' '.join(map(str, spaces)), lists_arg(words, 2, lists)),
                       op='text', words=[bs(w) for w in dic], spaces=spaces, lists=js_lists(words, lists)))
    for k in range(ctx.n(5000, 50000)):
        al = r.choice((['a', 'b'], ['a', 'b', 'c', 'é', 'ab'], ['a', 'ï', '€', 'b', 'ﬁ', 'fi'], list('abcdef')))
        words = list(al)
        if r.random() < .7:
            words += r.sample(PUNCT, 2) + [r.choice(('"', '/', '@', '..', 'a.', '_', '|', '0', '1'))]
        if r.random() < .1:
            words = [r.choice(every) for _ in range(4)] + ['a']
        words = list(dict.fromkeys(words))
        n = r.choice((0, 1, 2, 3, 4, 6, 10, 16))
        idx = lambda: r.randrange(len(words)) if r.random() < .3 else r.randrange(len(al))
        idx0 = lambda: min(idx(), len(words) - 1)
        lists = []
        for _ in range(n):
            m = r.choice((0, 1, 1, 1, 2, 2, 3, 4)) if r.random() < .6 else 1
            l = [(idx0(), r.randrange(2)) for _ in range(m)]
            if r.random() < .3:
                l += [(w, 1) for w, _ in l[-1:]]
            lists.append(l)
        spaces = sorted(r.sample(range(n), r.choice((0, 0, 1, 2, 3)) if n >= 3 else 0)) if n else []
        if n and r.random() < .15:
            spaces = list(range(n))
        # a dictionary which has words of the line
        dic = []
        for _ in range(r.choice((0, 1, 2, 4, 8))):
            q = r.randrange(4)
            if n and q <= 2:
                i = r.randrange(n)
                j = min(n, i + r.choice((1, 2, 3, 5)))
                if q == 0:                    # a whole word of the line
                    i = max([s for s in spaces if s <= i] + [0])
                    j = min([s for s in spaces if s > i] + [n])
                    st = [k for k in range(i, j) if not lists[k] or words[lists[k][0][0]] in PUNCT]
                    if st:
                        j = st[0] if st[0] > i else j
                w = ''.join(words[r.choice(l)[0]] for l in lists[i:j] if l)
                if r.random() < .15:
                    w += r.choice(al)
                dic.append(w)
            else:
                dic.append(word(r, [w for w in al], 3))
        dic = [w for w in dic if w]
        out.append(drv('drv_ocr', 'text', '%s %d %s %s' % (wl(dic), len(spaces), ' '.join(map(str, spaces)), lists_arg(words, 2, lists)),
                       op='text', words=[bs(w) for w in dic], spaces=spaces, lists=js_lists(words, lists)))
    for _ in range(ctx.n(600, 6000)):        # words of any bytes
        words = list(dict.fromkeys(w for w in [raw(r, r.choice((1, 2, 3, 16))) for _ in range(5)] + [b'a', b'.'] if 0 not in w))
        lists = [[(r.randrange(len(words)), 0) for _ in range(r.choice((1, 1, 2, 3)))] for _ in range(r.choice((1, 2, 3, 5)))]
        dic = [b''.join(words[l[0][0]] for l in lists[i:j]) for i in range(len(lists)) for j in range(i + 1, len(lists) + 1) if r.random() < .5]
        out.append(drv('drv_ocr', 'text', '%s 0  %s' % (wl(dic), lists_arg(words, 2, lists)),
                       op='text', words=[bs(w) for w in dic], spaces=[], lists=js_lists(words, lists)))
    for c in every:                          # every character of one byte, alone and between others
        for dic in ([], ['a' + c + 'b', c, 'ab', 'a', 'b'], ['a' + c + 'b']):
            lists = [[(0, 0)], [(1, 0)], [(2, 0)]]
            words = ['a', c, 'b'] if c not in 'ab' else ['x', c, 'y']
            out.append(drv('drv_ocr', 'text', '%s 0  %s' % (wl(dic), lists_arg(words, 2, lists)),
                           op='text', words=[bs(w) for w in dic], spaces=[], lists=js_lists(words, lists)))
    # sizes beyond 8 bits: characters of a line, of a word, candidates, words of the dictionary, blanks
    for n in (127, 128, 255, 256, 257, 300):
        al = ['a', 'b', 'c', 'é', 'd']
        for m in (n, 40, 7):
            lists = [[(r.randrange(5), 0)] if r.random() < .97 or n > 130 and m == n else [(4, 0), (2, 1)] for _ in range(n)]
            spaces = list(range(m, n, m))
            whole = [''.join(al[l[0][0]] for l in lists[i:j]) for i, j in zip([0] + spaces, spaces + [n])]
            for dic in ([], whole, [w[:-1] for w in whole if len(w) > 1], [whole[0] + 'a'] + whole[1:]):
                out.append(drv('drv_ocr', 'text', '%s %d %s %s' % (wl(dic), len(spaces), ' '.join(map(str, spaces)), lists_arg(al, 2, lists)),
                               op='text', words=[bs(w) for w in dic], spaces=spaces, lists=js_lists(al, lists)))
        for some in (0, 1, 9):              # as many which nothing was found for
            lists = [[]] * n + [[(r.randrange(5), 0)] for _ in range(some)]
            r.shuffle(lists)
            spaces = sorted(r.sample(range(n), r.choice((0, 3))))
            out.append(drv('drv_ocr', 'text', '%s %d %s %s' % (wl(['ab', 'a']), len(spaces), ' '.join(map(str, spaces)), lists_arg(al, 2, lists)),
                           op='text', words=[bs('ab'), bs('a')], spaces=spaces, lists=js_lists(al, lists)))
        words = ['w%d' % k for k in range(n)]
        lists = [[(k, 0) for k in range(n)], [(n - 1, 1)], [(k, 1) for k in range(n - 1, -1, -1)]]
        for dic in (words, words[-1:], [words[-1] * 3], [words[-2] + words[-1] + words[0]], []):
            out.append(drv('drv_ocr', 'text', '%s 0  %s' % (wl(dic), lists_arg(words, 2, lists)),
                           op='text', words=[bs(w) for w in dic], spaces=[], lists=js_lists(words, lists)))
    ctx.conform('TraceOcr', out, keep=4)


CHECKS = {'D01': d01, 'O01': o01, 'O02': o02, 'O03': o03, 'C01': c01, 'C02': c02, 'L01': l01, 'L02': l02, 'A01': a01}
