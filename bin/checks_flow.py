"""D03, D04, D05, E01, E02: sessions of a user who runs the programs on files."""
import os, shutil, subprocess
import core, vp
import imggen as g
from core import bs
from checks_img import encode, lum_of
from checks_ocr import bend, pool_words, token, LATIN
from checks_dict import ALPHABETS, raw

EXES = ('write_glyphs', 'normalize_glyphs', 'write_datas', 'make_trie_dictionary', 'show_glyphs', 'ocr2_extract_text')
UNKNOWN = 4294967295


# ------------------------------------------------------------------ running
def run(exe, args, cwd, timeout):
    """-> status, exit status, standard output"""
    try:
        p = subprocess.run(vp.LIMIT + [exe] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                           timeout=timeout, cwd=cwd, env=vp.ENV)
    except subprocess.TimeoutExpired:
        return 'hang', -1, b''
    # an uncaught exception ends by abort(): it is the way the programs report an error
    return ('crash' if p.returncode < 0 and p.returncode != -6 else 'ok'), p.returncode, p.stdout


def limited(exe, args, cwd, timeout, how, room):
    """The same with an output which takes so many bytes (how: file), or none (full, closed)."""
    f = cwd + '/limited'
    cmd = ['prlimit', '--fsize=%d' % room] if how == 'file' else []
    try:
        with open('/dev/full' if how == 'full' else f, 'wb') as o:
            # the signal of a file too large is ignored, as in python: the write fails
            p = subprocess.run(cmd + (['sh', '-c', 'exec "$0" "$@" >&-'] if how == 'closed' else []) + [exe] + args, stdout=o,
                               stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=timeout, cwd=cwd, env=vp.ENV, restore_signals=False)
        out = b'' if how == 'full' else open(f, 'rb').read()
    except subprocess.TimeoutExpired:
        return 'hang', -1, b''
    return ('crash' if p.returncode < 0 and p.returncode != -6 else 'ok'), p.returncode, out


def names(s):
    """The files which a step reads."""
    if s['op'] == 'label':
        return [n for t in s['args'] for n in (t['img'], t['text'])]
    if s['op'] == 'extract':
        return [n for n in s['args'].values() if n]
    return list(s['args'])


def argv(s):
    op, a = s['op'], s['args']
    lum = ['-l', s.get('lum', '128')] if s.get('lum', '128') != '128' or s.get('dashl') else []
    if op == 'label':
        return 'write_glyphs', lum + [x for t in a for x in (t['img'], t['text'], bytes(t['font']))]
    if op == 'show':
        return 'show_glyphs', lum + a
    if op == 'normalize':
        return 'normalize_glyphs', a
    if op == 'datas':
        return 'write_datas', a
    if op == 'trie':
        return 'make_trie_dictionary', a
    if op == 'extract':
        return 'ocr2_extract_text', [a['glyphs'], a['datas'], a['img']] + [x for x in (a['infos'], a['dict']) if x]
    raise KeyError(op)


def flow(ctx, i, c, exe, timeout):
    d = '%s/flow%d' % (ctx.tmp, i)
    last = None                             # status and output of the last program
    if ctx.hangs >= 8:                      # enough of them are known
        return i, []
    os.makedirs(d, exist_ok=True)
    events = [{'op': 'start', 'to': '', 'st': 'ok'}]
    try:
        for s in c['steps']:
            e = {k: v for k, v in s.items() if k not in ('hex', 'dashl')}
            e['st'] = 'ok'
            e.setdefault('to', '')
            if s['op'] == 'file':
                b = bytes.fromhex(s['hex'])
                with open('%s/%s' % (d, s['to']), 'wb') as f:
                    f.write(b)
                e['bytes'] = list(b)
            elif s['op'] == 'dir':
                os.mkdir('%s/%s' % (d, s['name']))
                continue
            elif s['op'] in ('limited', 'unreadable', 'usage'):
                name, args = (s['prog'], s['args']) if s['op'] == 'usage' else argv(s['step'])
                e.pop('step', None)
                e.pop('args', None)
                if s['op'] == 'limited':
                    e.update(rc0=last[0], full=list(last[1]))
                    if s['room'] < 0:       # near all of it
                        e['room'] = max(0, len(last[1]) + 2 + s['room'])
                    if s['how'] == 'closed' and not last[1]:
                        continue            # nothing is written, nothing can be missed
                    e['st'], e['rc'], out = limited(exe[name], args, d, timeout, s['how'], e['room'])
                    e['out'] = list(out)
                else:
                    if s['op'] == 'unreadable':
                        e['names'] = names(s['step'])
                    e['st'], e['rc'], out = run(exe[name], args, d, timeout)
            elif s['op'] not in ('same', 'samepairs'):
                name, args = argv(s)
                e['lum'] = bs(s.get('lum', '128'))
                e['st'], e['rc'], out = run(exe[name], args, d, timeout)
                e['out'] = list(out)
                last = e['rc'], out
                if e['to']:
                    with open('%s/%s' % (d, e['to']), 'wb') as f:
                        f.write(out)
            events.append(e)
            if e['st'] != 'ok':
                ctx.hangs += e['st'] == 'hang'
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for n, e in enumerate(events):
        e['id'] = 'f%d.%d' % (i, n)
    return i, events


def run_flow(ctx, cases, timeout):
    exe = vp.build(EXES)
    with vp.ThreadPoolExecutor(vp.NCPU) as ex:
        for x in ex.map(lambda ic: flow(ctx, ic[0], ic[1], exe, timeout), cases):
            yield x


core.RUNNERS['flow'] = run_flow


# ------------------------------------------------------------------ steps
def file(to, b):
    return {'op': 'file', 'to': to, 'hex': b.hex()}


def label(to, *triples, **kw):
    return dict({'op': 'label', 'to': to, 'args': [{'img': i, 'text': t, 'font': list(f)} for i, t, f in triples]}, **kw)


def step(op, to, *args, **kw):
    return dict({'op': op, 'to': to, 'args': list(args)}, **kw)


def extract(glyphs, datas, img, infos='', dic=''):
    return {'op': 'extract', 'to': '', 'args': {'glyphs': glyphs, 'datas': datas, 'img': img, 'infos': infos, 'dict': dic}}


def session(*steps):
    return {'k': 'flow', 'steps': list(steps)}


# ------------------------------------------------------------------ material
def boxes(i):
    """Where an image is cut (for the generation only: the specification says what is right)."""
    w, h, p = i
    col = [[y for y in range(h) if p[y * w + x] == 'x'] for x in range(w)]
    out = []
    x = 0
    while x < w:
        if not col[x]:
            x += 1
            continue
        s = x
        while x + 1 < w and any(abs(a - b) <= 1 for a in col[x] for b in col[x + 1]):
            x += 1
        top = min(min(c) for c in col[s:x + 1])
        bot = max(max(c) for c in col[s:x + 1])
        out.append((s, top, x - s + 1, bot - top + 1))
        x += 1
    return out


def part(i, b):
    x, y, w, h = b
    return (w, h, ''.join(i[2][(y + k) * i[0] + x:(y + k) * i[0] + x + w] for k in range(h)))


def drawings(i):
    return [part(i, b) for b in boxes(i)]


def solid(i):
    return len(boxes(i)) == 1 and boxes(i)[0] == (0, 0, i[0], i[1])


class Material:
    def __init__(self, ctx):
        self.r = ctx.rng
        ships = [i for i, _ in g.shipped() if i[0] <= 16 and i[1] <= 20]
        self.pool = self.r.sample(ships, min(len(ships), ctx.n(300, 2000)))

    def drawing(self):
        """The drawing of a character: one box, tight."""
        r = self.r
        k = r.random()
        if k < .55 and self.pool:
            i = r.choice(self.pool)
        elif k < .7:
            i = (1, r.choice((1, 1, 2, 3, 8)), '')
            i = (1, i[1], 'x' * i[1])
        else:
            i = g.any_image(r, hi=9)
        d = drawings(i)
        return r.choice(d) if d else (1, 1, 'x')

    def line(self, ds, wide=.3):
        """The drawings side by side."""
        r = self.r
        h = max(i[1] for i in ds) + r.choice((0, 0, 1, 3))
        mode = r.randrange(3)
        al = []
        base = r.randint(max(i[1] for i in ds), h)
        for i in ds:
            if mode == 0:
                al.append(base - i[1])                      # on a base line
            elif mode == 1:
                al.append(max(0, min(h - i[1], base - i[1] + r.choice((0, 0, 0, 1, -1, 2, -2, -4)))))
            else:
                al.append(r.randint(0, h - i[1]))
        gaps = [r.choice((4, 5, 5, 6, 9)) if r.random() < wide else r.choice((1, 1, 1, 2, 3, 4)) for _ in ds]
        edges = r.choice((0, 0, 0, 1, 5, 7)), r.choice((0, 0, 1, 4))
        if r.random() < .5:             # neighbours which do not touch, though no blank column parts them
            for k in range(len(ds) - 1):
                if r.random() < .5:
                    pair = g.hjoin(ds[k:k + 2], [0, 0], h, al[k:k + 2], 0, 0)
                    if [(b[0], b[2]) for b in boxes(pair)] == [(0, ds[k][0]), (ds[k][0], ds[k + 1][0])]:
                        gaps[k] = 0
        return g.hjoin(ds, gaps, h, al, *edges)

    def picture(self, i, lum=None):
        t = self.r.choice((1, 3, 4, 4, 6)) if lum is None else 6
        b = encode(self.r, t, i)
        if t == 6:
            head = b[:len(b) - 3 * i[0] * i[1]]
            lum = 128 if lum is None else lum
            b = head + b''.join(self.colour(c == 'x', lum) for c in i[2])
        return b

    def colour(self, ink, lum):
        """A colour which is ink at this luminance."""
        r = self.r
        for _ in range(200):
            c = bytes((r.randrange(256), r.randrange(256), r.randrange(256)))
            if r.random() < .5:
                x = max(0, min(255, lum + r.choice((-3, -2, -1, 0, 1, 2))))
                c = bytes((x, x, x))
            if (lum_of(c) >= lum) == ink:
                return c
        return b'\xff\xff\xff' if ink else b'\0\0\0'

    def text(self, words):
        r = self.r
        return b''.join(w + r.choice((b'\n', b' ', b' ', b' ', b' ', b' ', r.choice((b'\t', b'\r\n', b'\v', b'  ', b' \f')))) + (b' \n' if r.random() < .05 else b'') for w in words[:-1]) \
            + (words[-1] + r.choice((b'', b'\n', b' ', b' \n\n')) if words else r.choice((b'', b'\n', b'  ')))


def many_drawings(r, n, hi=5):
    """So many different little drawings of characters."""
    out = {}
    while len(out) < n:
        for d in drawings(g.noise(r, r.randint(1, hi), r.randint(1, hi), r.choice((.4, .6, .8)))):
            out[d] = 1
    return list(out)[:n]


SIZES = (255, 256, 257, 300)    # beyond 8 bits
LONG = (1023, 1025, 2049, 4094, 4095, 4096, 4097, 8191, 8193, 32766, 32768, 33000, 65537, 70000)     # beyond usual buffers, 15 and 16 bits


def font(r):
    if r.random() < .25:                    # alike: the same beginning, the same end, the same size
        b = b'DejaVuSansCondensed-Oblique-' * r.choice((1, 1, 2, 5))
        return r.choice((b[:r.randint(1, len(b))], b + b'10', b + b'12', b'10' + b, b'12' + b))
    return r.choice((b'f', b'g', b'Arial', b'DejaVuSans-10', b'/x/y.ttf', b'1', b'\xc3\xa9'))


# ------------------------------------------------------------------ D05
def d05(ctx):
    ctx.model('MCWorkflow', 'MCWorkflowQuick.cfg' if ctx.quick else 'MCWorkflow.cfg')
    m = Material(ctx)
    r = ctx.rng
    out = []
    for _ in range(ctx.n(700, 8000)):
        steps, triples = [], []
        n = r.choice((1, 1, 1, 2, 3))
        lum = None
        if n == 1 and r.random() < .25 or r.random() < .08:
            lum = r.choice((0, 1, 50, 100, 127, 129, 200, 255, 256))
        for k in range(n):
            q = r.random()
            if q < .1:
                i = g.any_image(r, hi=14)
            elif q < .13:
                i = (r.randint(1, 6), r.randint(1, 6), '')
                i = i[:2] + ('-' * (i[0] * i[1]),)
            elif q < .16:                   # ink up to the edges, at the width of the words of the machine
                i = g.noise(r, r.choice((7, 8, 9, 31, 32, 33, 64)), r.randint(1, 4), .25)
            elif q < .18:                   # wider, or higher, than a byte counts
                ds = [g.noise(r, r.randint(1, 4), r.randint(1, 3), .7) for _ in range(4)]
                far = r.choice((250, 254, 255, 256, 257, 300, 520))
                i = g.hjoin(ds, [r.choice((1, 3, far)) for _ in ds], 4, [r.randint(0, 4 - x[1]) for x in ds], r.choice((0, 1, far)), r.choice((0, 7)))
                if r.random() < .3:
                    i = (i[1], i[0], i[2])
            else:
                i = m.line([m.drawing() for _ in range(r.choice((1, 2, 3, 5, 8)))])
            if lum is None:
                b = m.picture(i)
            else:
                b = b'P6\n%d %d\n255\n' % (i[0], i[1]) + b''.join(m.colour(c == 'x', lum) for c in i[2])
            nb = len(boxes(i))
            if lum == 0:
                nb = 1 if nb or i[0] * i[1] else 0
            ws = [token(r, r.choice((1, 2, 4, 10, 30))) for _ in range(nb)]
            q = r.random()
            if q < .1:
                ws += [token(r, 2)]
            elif q < .2 and ws:
                ws.pop(r.randrange(len(ws)))
            elif q < .23 and ws:
                ws = ws[:1] * r.choice((len(ws), len(ws) + 1))
            if r.random() < .03:
                b = b[:-1]
            steps += [file('i%d' % k, b), file('t%d' % k, m.text(ws))]
            triples.append(('i%d' % k, 't%d' % k, font(r)))
        if n > 1 and r.random() < .3:       # the same image again, another text or font
            triples.append((triples[0][0], triples[r.randrange(n)][1], font(r)))
        kw = {'lum': str(lum)} if lum is not None else {'dashl': r.random() < .1}
        if lum is not None and r.random() < .3:     # other ways to write it, other values
            kw['lum'] = r.choice(('0%d' % lum, '0000000000%d' % lum, 'x', '', '%dx' % lum, '12 8', '%d.5' % lum, '1000', '65536', '4294967295',
                                  '4294967296', '%d' % (2**32 + lum), '%d' % (2**64 + lum), '99999999999999999999999'))
        steps.append(label('g', *triples, **kw))
        if r.random() < .5:
            steps.append(step('show', '', *[t[0] for t in triples], **({'lum': kw['lum']} if lum is not None else {})))
        out.append(session(*steps))
    for n in ('-', '-i', '-ll', '--', '-l.', 'l', 'al', 'xl-', '-128', '128', './-l', '-L'):    # names which look like options
        i = m.line([m.drawing() for _ in range(2)])
        ws = [token(r, 2) for _ in boxes(i)]
        for kw in ({}, {'dashl': True}):
            out.append(session(file(n, m.picture(i)), file('t', m.text(ws)), label('g', (n, 't', r.choice((b'f', b'-l', b'-', b'128'))), **kw),
                               step('show', '', n, **kw)))
            out.append(session(file('i', m.picture(i)), file(n, m.text(ws)), label('g', ('i', n, b'f'), ('i', n, b'-l'), **kw),
                               step('show', '', 'i', 'i', 'i', 'i', **kw)))
    for n in SIZES:                         # characters of a line, words of a text, bytes of a word and of a font
        i = m.line(many_drawings(r, n, 4), .05)
        ws = [b'w%d' % k for k in range(len(boxes(i)))]
        long = b'a' * n
        out.append(session(file('i', m.picture(i)), file('t', m.text(ws)), file('j', b'P1\n2 1\n0 1\n'), file('u', long),
                           label('g', ('i', 't', b'f'), ('j', 'u', b'f' * n)), step('show', '', 'i', 'j')))
        out.append(session(file('i', m.picture(i)), file('t', m.text(ws + [b'x'])), label('g', ('i', 't', b'f'))))
        out.append(session(file('i', m.picture(i)), file('t', m.text(ws[:n - 256] or ws[:-1])), label('g', ('i', 't', b'f'))))
        out.append(session(*[file('j%d' % k, b'P1\n%d 1\n%s\n' % (k % 3 + 1, b'0 ' * (k % 3 + 1))) for k in range(3)], file('u', b'a'),
                           label('g', *[('j%d' % (k % 3), 'u', b'f%d' % k) for k in range(n)])))
    for n in LONG:                          # long words, fonts, blanks before, between and after words
        a, b = b'a' * n, b'a' * (n - 1) + b'b'
        tail = r.choice((b'', b'\n', b' ' * n))
        out.append(session(file('j', b'P1\n3 1\n1 0 1\n'), file('t', a + b' ' + b + tail), file('u', b' ' * n + b'a' + b'\n' * n + b'b'), file('v', b'a ' * n),
                           label('g', ('j', 't', a), ('j', 'u', b), ('j', 't', a)), label('', ('j', 'v', b'f'))))
    ctx.conform('TraceWorkflow', out, keep=3)


# ------------------------------------------------------------------ glyph files
def glyph_file(r, imgs, views):
    return b''.join(b'%d %d %s\n%d\n' % (i[0], i[1], i[2].encode(), len(v))
                    + b''.join(w + b' ' + f + b' %d\n' % n for w, f, n in v) for i, v in zip(imgs, views))


def views(r, words, fonts, lo=1):
    return [(r.choice(words), r.choice(fonts), r.choice((UNKNOWN, UNKNOWN, UNKNOWN, 0, 3)))
            for _ in range(r.choice((lo, 1, 1, 1, 2, 3, 5)))]


def some_glyphs(ctx, m, n, pool=None, lo=1):
    r = ctx.rng
    words = pool_words(r, r.choice((1, 2, 4)), (1, 1, 2, 4))
    fonts = [b'f', b'g', b'h'][:r.randint(1, 3)]
    imgs = []
    for _ in range(n):
        q = r.random()
        if pool and q < .6:
            imgs.append(r.choice(pool))
        elif imgs and q < .7:
            imgs.append(bend(r, r.choice(imgs), 1))
        elif imgs and q < .8:               # the same pixels in other dimensions
            w, h, p = r.choice(imgs)
            imgs.append((h, w, p))
        elif q < .9:
            imgs.append(m.drawing())
        else:
            imgs.append(g.any_image(r, hi=8))
    return imgs, [views(r, words, fonts, lo) for _ in imgs]


def d04(ctx):
    ctx.model('MCGlyphFile', 'MCGlyphFileQuick.cfg' if ctx.quick else 'MCGlyphFile.cfg')
    m = Material(ctx)
    r = ctx.rng
    out = []
    for x in ctx.some(ctx.gen('GenGlyphFile', MaxGlyphs=2), 250):
        b = [glyph_file(r, [(q['img']['w'], q['img']['h'], bytes(q['img']['p']).decode())],
                        [[(bytes(w), bytes(f), UNKNOWN if n == -1 else n) for w, f, n in q['views']]]) for q in x]
        out.append(session(file('a', b''.join(b)), step('normalize', 'n1', 'a'), step('normalize', 'n2', 'n1'), step('same', '', 'n1', 'n2'),
                           *([file('b', b[0]), file('c', b[1]), step('normalize', 'n3', 'c', 'b'), step('samepairs', '', 'n1', 'n3')]
                             if len(b) == 2 else [])))
    small = [(1, 1, 'x'), (1, 1, '-'), (2, 1, 'x-'), (1, 2, 'x-'), (2, 1, '-x'), (1, 2, 'xx'), (2, 2, 'x--x'), (4, 1, 'x--x')]
    for _ in range(ctx.n(700, 8000)):
        nf = r.choice((1, 1, 2, 2, 3, 5))
        pool = r.choice((small, small[:3], [m.drawing() for _ in range(r.choice((1, 2, 5)))]))
        files, names = [], []
        for k in range(nf):
            n = r.choice((0, 1, 2, 3, 6, 12, 40))
            imgs, vs = some_glyphs(ctx, m, n, pool, r.choice((0, 1)))
            if r.random() < .3 and imgs:    # twice the same glyph
                j = r.randrange(len(imgs))
                k2 = r.randrange(len(imgs) + 1)
                imgs.insert(k2, imgs[j])
                vs.insert(k2, list(vs[j if j < k2 or j >= len(vs) else j]))
            files.append(file('a%d' % k, glyph_file(r, imgs, vs)))
            names.append('a%d' % k)
        steps = files + [step('normalize', 'n1', *names), step('normalize', 'n2', 'n1'), step('same', '', 'n1', 'n2')]
        q = r.random()
        if q < .35 and nf > 1:              # the other way round
            other = names[:]
            r.shuffle(other)
            steps += [step('normalize', 'n3', *other), step('samepairs', '', 'n1', 'n3')]
        elif q < .6 and nf > 1:             # in two times
            k = r.randint(1, nf - 1)
            steps += [step('normalize', 'p', *names[:k]), step('normalize', 'n3', 'p', *names[k:]), step('samepairs', '', 'n1', 'n3')]
        elif q < .7:                        # a file twice
            steps += [step('normalize', 'n3', *(names + [r.choice(names)])), step('samepairs', '', 'n1', 'n3')]
        out.append(session(*steps))
    for n in SIZES:                         # glyphs of a file, views of a glyph, files, bytes of words
        imgs = many_drawings(r, n)
        again = imgs + imgs[:3] + imgs[-3:]
        f1 = glyph_file(r, again, [[(b'w%d' % k, b'f', UNKNOWN)] for k in range(len(again))])
        f2 = glyph_file(r, imgs[::-1], [[(b'w%d' % k, b'g', UNKNOWN)] for k in range(n)])
        out.append(session(file('a', f1), file('b', f2), step('normalize', 'n1', 'a', 'b'), step('normalize', 'n2', 'n1'), step('same', '', 'n1', 'n2'),
                           step('normalize', 'n3', 'b', 'a'), step('samepairs', '', 'n1', 'n3')))
        vs = [[(b'w%d' % (k % 5), b'f%d' % k, UNKNOWN) for k in range(n)], [(b'w%d' % (k % 7), b'f%d' % k, UNKNOWN) for k in range(n)],
              [(b'a' * n, b'f' * n, n)]]
        out.append(session(file('a', glyph_file(r, small[:3], vs)), file('b', glyph_file(r, small[:1] * 2 + small[1:3], vs[1:] + vs[1:])),
                           step('normalize', 'n1', 'a', 'b'), step('normalize', 'n2', 'n1'), step('same', '', 'n1', 'n2')))
    for n in (1023, 4097, 33000) if ctx.quick else LONG:                 # long words and fonts, alike
        a, b = b'a' * n, b'a' * (n - 1) + b'b'
        vs = [[(a, b'f', 0), (b, b'f', 0), (b'w', a, 0), (b'w', b, 0)], [(a, a, UNKNOWN), (b'w', b'f', 0)], [(b, b, 0), (a, b'f', 0)]]
        out.append(session(file('a', glyph_file(r, small[:3], vs)), file('b', glyph_file(r, small[:3], vs[::-1])), step('normalize', 'n1', 'a', 'b'),
                           step('normalize', 'n2', 'n1'), step('same', '', 'n1', 'n2'), step('datas', 'd', 'n1')))
    for w, h in ((70, 80), (64, 64), (65, 64), (257, 129), (300, 230))[::1 if not ctx.quick else 1]:    # large drawings, nearly the same
        base = [r.choice('x-') for _ in range(w * h)]
        imgs = []
        for at in (w * h - 1, w * h - 2, w * h - w, w * h // 2, 0, None):
            b = list(base)
            if at is not None:
                b[at] = '-' if b[at] == 'x' else 'x'
            imgs.append((w, h, ''.join(b)))
        imgs = (imgs + imgs) if w * h < 10000 else imgs[:2] + imgs[:2]
        r.shuffle(imgs)
        vs = [[(b'w%d' % k, b'f', UNKNOWN)] for k in range(len(imgs))]
        out.append(session(file('a', glyph_file(r, imgs, vs)), step('normalize', 'n1', 'a'), step('normalize', 'n2', 'n1'), step('same', '', 'n1', 'n2')))
    fs = [file('a%d' % k, glyph_file(r, small[k % 3:k % 3 + 1], [[(b'w', b'f%d' % k, UNKNOWN)]])) for k in range(257)]
    out.append(session(*fs, step('normalize', 'n', *[f['to'] for f in fs])))
    ctx.conform('TraceWorkflow', out, keep=2)


def d03(ctx):
    ctx.model('MCFeatureFile', 'MCFeatureFile.cfg')
    m = Material(ctx)
    r = ctx.rng
    out = []
    for _ in range(ctx.n(250, 3000)):
        imgs, vs = some_glyphs(ctx, m, r.choice((0, 1, 2, 3, 5, 9)), None, r.choice((0, 1)))
        if r.random() < .3 and imgs:
            imgs.append(r.choice(imgs))
            vs.append(vs[0])
        t = glyph_file(r, imgs, vs)
        if r.random() < .15:                # fonts and words which look like glyphs
            t = t.replace(b' f ', b' 4294967295 ').replace(b' g ', b' 1 ')
        out.append(session(file('g', t), step('datas', 'd', 'g')))
    for _ in range(ctx.n(60, 600)):         # after normalisation, in any order
        imgs, vs = some_glyphs(ctx, m, r.choice((2, 4, 6)), [m.drawing() for _ in range(3)])
        k = r.randint(0, len(imgs))
        out.append(session(file('a', glyph_file(r, imgs[:k], vs[:k])), file('b', glyph_file(r, imgs[k:], vs[k:])),
                           step('normalize', 'n', 'a', 'b'), step('datas', 'd', 'n')))
    for n in SIZES[::1 if not ctx.quick else 2]:         # more glyphs, more views, longer words than a byte counts
        imgs = many_drawings(r, n)
        out.append(session(file('g', glyph_file(r, imgs, [[(b'w', b'f', 0)] for _ in imgs])), step('datas', 'd', 'g')))
        out.append(session(file('g', glyph_file(r, imgs[:3], [[(b'w%d' % k, b'f%d' % k, 0) for k in range(n)], [], [(b'a' * n, b'f' * n, n)]])),
                           step('datas', 'd', 'g')))
    for n in LONG:                          # long lines of views, one or several, before and after other glyphs
        out.append(session(file('g', glyph_file(r, [(1, 1, 'x'), (1, 2, 'x-'), (2, 1, 'x-'), (2, 2, 'x--x')],
                                                [[(b'a' * n, b'f', 0)], [(b'w', b'f' * n, 0), (b'a', b'g', 0), (b'a' * (n // 2), b'f' * n, UNKNOWN)],
                                                 [(b'w', b'f', 0)] * r.choice((0, 1, 2)), [(b'b' * (n - 4), b'f', 0), (b'c', b'f', 0)]])), step('datas', 'd', 'g')))
    for w, h in ((1, 1), (1, 2), (2, 1), (1, 9), (9, 1), (3, 3), (64, 2), (2, 64), (30, 30)):
        imgs = g.special(w, h)
        out.append(session(file('g', glyph_file(r, imgs, [[(b'w', b'f', 0)] for _ in imgs])), step('datas', 'd', 'g')))
    ctx.conform('TraceWorkflow', out, keep=2)


# ------------------------------------------------------------------ from images to text
def infos_for(r, words, many=.7):
    t = b''
    for w in dict.fromkeys(words):
        if len(w) <= 8 and r.random() < many:
            v = [r.randrange(8), r.randrange(8), r.choice((2, 2, 2, 1, 4, 3, 6, 0)), r.choice((2, 2, 2, 1, 4, 3, 6, 0))]
            t += w + b' %d %d %d %d\n' % tuple(v)
    return t


def good_words(r):
    """Words which a dictionary can hold: valid UTF-8, without blanks."""
    if r.random() < .08:                    # or not: any bytes
        return [w for w in [raw(r, r.choice((1, 2, 3))) for _ in range(5)] if 0 not in w] + [b'a']
    k = r.randrange(4)
    if k == 0:
        return [b'a', b'b', b'c']
    if k == 1:
        return [w.encode() for w in ('a', 'é', '€', 'ab', 'l', 'I', '1')]
    if k == 2:
        return [b'a', b'b', b'.', b',', b'-', b'"', b'o']
    return [x.encode() for x in r.choice(ALPHABETS)][:6]


def learned(ctx, m, r, repeat=False):
    """A session which learns some lines and reads lines."""
    words = [w for w in good_words(r) if w and not any(c in b' \t\n\r\v\f' for c in w)] or [b'a']
    stock = [m.drawing() for _ in range(r.choice((1, 2, 3, 5)))]
    if r.random() < .5:                     # near each other: several candidates
        stock += [drawings(bend(r, r.choice(stock), 1))[0:1] for _ in range(2)] and \
            [d for k in range(3) for d in drawings(bend(r, r.choice(stock), r.choice((1, 1, 2))))[:1]]
    ownword = {d: r.choice(words) for d in stock}
    steps, triples = [], []
    spelled = []
    nl = r.choice((1, 1, 2, 3))
    lines = []
    for k in range(nl):
        ds = [r.choice(stock) for _ in range(r.choice((1, 2, 4, 7, 12) if repeat else (1, 2, 3, 5, 8)))]
        i = m.line(ds)
        real = drawings(i)
        ws = [ownword.get(d, words[0]) if r.random() < .7 else r.choice(words) for d in real]
        steps += [file('i%d' % k, m.picture(i)), file('t%d' % k, m.text(ws))]
        triples.append(('i%d' % k, 't%d' % k, r.choice((b'f', b'f', b'g'))))
        spelled.append((i, ws))
        lines.append(ds)
    if r.random() < .5:
        steps.append(label('g', *triples))
        src = ['g']
    else:
        steps += [label('g%d' % k, t) for k, t in enumerate(triples)]
        src = ['g%d' % k for k in range(nl)]
    if r.random() < .6 or len(src) > 1:
        steps.append(step('normalize', 'n', *src))
        base = 'n'
    else:
        base = src[0]
    steps.append(step('datas', 'd', base))
    # what to read: the same lines, or others
    for k in range(r.choice((1, 2)) if not repeat else 1):
        dic = inf = ''
        q = r.random()
        if q < .75:
            inf = 'w%d' % k
            steps.append(file(inf, infos_for(r, words, r.choice((0, .5, .9)))))
            if q < .55:
                dic = 'k%d' % k
                ws = set()
                for i, w in spelled:
                    bx = boxes(i)
                    cut = [0] + [j for j in range(1, len(bx)) if bx[j - 1][0] + bx[j - 1][2] + 4 < bx[j][0]] + [len(w)]
                    for a, b in zip(cut, cut[1:]):
                        if r.random() < .7:
                            ws.add(b''.join(w[a:b]))
                        if r.random() < .2 and b - a > 1:
                            ws.add(b''.join(w[a:b - 1]))
                for _ in range(r.choice((0, 2, 5))):
                    ws.add(b''.join(r.choice(words) for _ in range(r.choice((1, 2, 3)))))
                ws = sorted(ws)
                r.shuffle(ws)
                steps += [file('l%d' % k, b'\n'.join(ws) + b'\n'), step('trie', dic, 'l%d' % k)]
        z = r.random()
        if z < .3 and not repeat:
            img = 'i%d' % r.randrange(nl)
        else:
            img = 'q%d' % k
            more = [m.drawing() for _ in range(r.choice((0, 0, 1, 2)))]
            ds = [r.choice(stock) for _ in range(r.choice((1, 3, 6, 10) if not repeat else (4, 8, 14, 20)))] + more
            if r.random() < .3:
                ds += [d for j in range(2) for d in drawings(bend(r, r.choice(stock), r.choice((1, 2, 3))))[:1]]
            r.shuffle(ds)
            steps.append(file(img, m.picture(m.line(ds))))
        if r.random() < .1 and base == 'n':
            pass
        steps.append(extract(base, 'd', img, inf, dic))
    return session(*steps)


def wide(ctx, m, r):
    """A session with lines wider than a byte counts: little drawings far from the left edge."""
    stock = []
    while len(stock) < 3:
        d = drawings(g.any_image(r, hi=5)) or [(1, 1, 'x')]
        stock.append(r.choice(d))
    words = [b'a', b'b', b'cc', b'.', b'-']
    learn = m.line(stock * 2)
    ws = [r.choice(words) for _ in boxes(learn)]
    steps = [file('i', m.picture(learn)), file('t', m.text(ws)), label('g', ('i', 't', b'f')), step('normalize', 'n', 'g'), step('datas', 'd', 'n')]
    for k in range(2):
        h = max(i[1] for i in stock) + 1
        q = r.random()
        far = r.choice((240, 248, 250, 252, 255, 256, 258, 300, 506, 512)) + r.randint(-4, 4)
        ds = [r.choice(stock) for _ in range(r.choice((3, 5, 8)))]
        first, rest = ds[:1], ds[1:]
        ds = first + [(1, 1, '-')] * (r.random() < .5) + rest
        gaps = [far if j == 0 else r.choice((1, 2, 3, 4, 5, 6, 7)) for j in range(len(ds))]
        left = 0
        if q < .3:                          # everything is far from the left edge
            left, gaps[0] = far, 2
        img = g.hjoin(ds, gaps, h, [r.randint(0, h - i[1]) for i in ds], left, r.choice((0, 1, 300)))
        steps += [file('q%d' % k, m.picture(img)), extract('n', 'd', 'q%d' % k, '', '')]
        if r.random() < .4:
            steps.append(step('show', '', 'q%d' % k))
    return session(*steps)


def whole(m, x):
    """The session of the machine MCWorkflow on one of its images: labelled, normalised, measured, read back."""
    i = (x['img']['w'], x['img']['h'], bytes(x['img']['p']).decode())
    return session(file('i', m.picture(i)), file('t', m.text([bytes(w) for w in x['words']])), label('g', ('i', 't', b'f')),
                   step('normalize', 'n', 'g'), step('datas', 'd', 'n'), extract('n', 'd', 'i'))


def e01(ctx):
    ctx.model('MCWorkflow', 'MCWorkflowQuick.cfg' if ctx.quick else 'MCWorkflow.cfg')
    m = Material(ctx)
    r = ctx.rng
    sessions = ctx.gen('GenWorkflow', Areas='{1, 2, 3, 4, 5, 6, 8, 9, 10}', MaxWidth=9)
    machine = [whole(m, x) for x in ctx.some(sessions, 300, 5000)]
    out = [learned(ctx, m, r) for _ in range(ctx.n(260, 4000))]
    out += [wide(ctx, m, r) for _ in range(ctx.n(20, 200))]
    # databases which do not correspond are refused
    for _ in range(ctx.n(12, 60)):
        a = some_glyphs(ctx, m, r.randint(1, 4))
        b = some_glyphs(ctx, m, r.choice([n for n in range(0, 6) if n != len(a[0])]))
        out.append(session(file('g', glyph_file(r, *a)), file('h', glyph_file(r, *b)), step('datas', 'd', 'h'),
                           file('i', m.picture(m.line(a[0][:3]))), extract('g', 'd', 'i')))
    # empty database, blank image, damaged image
    for _ in range(ctx.n(10, 60)):
        a = some_glyphs(ctx, m, r.choice((0, 2)))
        i = r.choice(((3, 3, '-' * 9), (1, 1, 'x'), m.line([m.drawing(), m.drawing()])))
        b = m.picture(i)
        out.append(session(file('g', glyph_file(r, *a)), step('datas', 'd', 'g'), file('i', b[:-1] if r.random() < .3 else b),
                           extract('g', 'd', 'i')))
    for n in SIZES:                         # more words, more entries, longer words than a byte counts
        out.append(full_of(m, r, n))
        out.append(long_line(m, r, n))
    for n in (513, 700):
        out.append(long_line(m, r, n))
    ctx.conform('TraceWorkflow', machine + out, keep=2)


def e02(ctx):
    ctx.model('MCSession', 'MCSessionQuick.cfg' if ctx.quick else 'MCSession.cfg')
    m = Material(ctx)
    r = ctx.rng
    out = [learned(ctx, m, r, True) for _ in range(ctx.n(220, 3000))]
    # the lines of the machine, with any drawings
    for k in range(ctx.n(1, 8)):
        for x in ctx.gen('GenSession', Drawings='{1, 2, 3}', Answers='{{}}', MaxLen=ctx.n(4, 6)):
            out.append(lettered(m, r, x))
    for n in (130,) + SIZES:                # more different drawings than a byte counts, seen again after all of them
        out.append(many_on_a_line(m, r, n))
    ctx.conform('TraceWorkflow', out, keep=2)


def base_of(m, r, n, ds, words):
    """Steps which make a database of these drawings."""
    i = m.line(ds)
    return [file('i', m.picture(i)), file('t', m.text([words[k % len(words)] for k in range(len(boxes(i)))])),
            label('g', ('i', 't', b'f')), step('normalize', 'n', 'g'), step('datas', 'd', 'n')]


def full_of(m, r, n):
    """A line read with files of many words."""
    words = [b'a', b'b', b'w%d' % n, b'c' * n, b'd']
    ds = many_drawings(r, 8, 9)
    known = [b'w%d' % k for k in range(n + 1)]
    dic = known + [b'a' * k for k in range(1, n)] + [b'c' * n, b'c' * n + b'ab', b'ab' + b'c' * n]
    inf = b''.join(w + b' %d %d %d %d\n' % tuple(r.randrange(8) for _ in range(4)) for w in r.sample(known, n) + words[:2])
    r.shuffle(dic)
    line = m.line([r.choice(ds) for _ in range(12)])
    return session(*base_of(m, r, n, ds, words), file('l', b'\n'.join(dic) + b'\n'), step('trie', 'k', 'l'), file('w', inf),
                   file('q', m.picture(line)), extract('n', 'd', 'q', 'w', 'k'))


def long_line(m, r, n):
    """A line of many characters, with spaces among the last ones."""
    ds = many_drawings(r, 3, 3)
    words = [b'a', b'bc', b'.']
    seq = [r.choice(ds) for _ in range(n + r.randint(1, 40))]
    h = 4
    wide = {r.randrange(n) for _ in range(r.choice((0, 1, 5)))} | {r.randrange(n - 2, len(seq)) for _ in range(r.choice((1, 3)))}
    line = g.hjoin(seq, [r.choice((5, 6, 9)) if k in wide else r.choice((1, 2)) for k in range(len(seq))], h, [r.randint(0, h - d[1]) for d in seq], 0, 0)
    return session(*base_of(m, r, n, ds, words), file('q', m.picture(line)), extract('n', 'd', 'q'))


def many_on_a_line(m, r, n):
    ds = many_drawings(r, n, 4)
    base = [m.drawing() for _ in range(3)] + ds[:3]
    line = m.line(ds + r.sample(ds, 20) + ds[:4] + ds[-4:], .05)
    return session(*base_of(m, r, n, base, [b'a', b'b', b'c']), file('q', m.picture(line)), extract('n', 'd', 'q'))


def lettered(m, r, line):
    """A line of the machine MCSession: some of its drawings are learned, then it is read."""
    ds = [m.drawing() for _ in range(3)]
    if r.random() < .5:
        ds[1] = (drawings(bend(r, ds[0], 1)) or ds)[0]
    if r.random() < .3:                     # the same pixels, turned over; the same, in other dimensions
        w, h, p = ds[0]
        ds[2] = (drawings((h, w, p)) or ds)[0]
    known = [ds[k] for k in range(3) if r.random() < .8] or ds[:1]
    i = m.line(known)
    return session(file('i', m.picture(i)), file('t', m.text([r.choice((b'a', b'b', b'c')) for _ in boxes(i)])),
                   label('g', ('i', 't', b'f')), step('normalize', 'n', 'g'), step('datas', 'd', 'n'),
                   file('q', m.picture(m.line([ds[d - 1] for d in line]))), extract('n', 'd', 'q'))


# ------------------------------------------------------------------ learning
SIX = ['glyphs/normalized-glyphs-%s.txt' % a for a in ('latin', 'cyrillic', 'latin-cyrillic')] + \
      ['datas/%s.txt' % a for a in ('latin', 'cyrillic', 'latin-cyrillic')]


def maybe(f):
    try:
        with open(f, 'rb') as h:
            return {'have': True, 'b': list(h.read())}
    except OSError:
        return {'have': False, 'b': []}


def run_learn(ctx, cases, timeout):
    """The script, copied in a directory with fonts of its own."""
    exe = vp.build(EXES)

    def one(ic):
        i, c = ic
        if ctx.hangs >= 8:
            return i, []
        d = '%s/learn%d' % (ctx.tmp, i)
        try:
            os.makedirs(d)
            shutil.copy(vp.REPO + '/learning', d + '/learning')
            for x in ('glyphs', 'datas'):
                os.makedirs('%s/resources/%s' % (d, x))
            for name, b in c['before'].items():
                with open('%s/resources/%s' % (d, name), 'wb') as f:
                    f.write(bytes.fromhex(b))
            e = {'id': 'l%d' % i, 'op': 'learn', 'to': '', 'st': 'ok', 'before': [maybe('%s/resources/%s' % (d, n)) for n in SIX]}
            for a in ('latin', 'cyrillic'):
                top = '%s/resources/fonts/%s' % (d, a)
                os.makedirs(top + '/generated')
                os.makedirs(top + '/mano')
                letters = bytes.fromhex(c[a]['letters'])
                with open(top + '/letters', 'wb') as f:
                    f.write(letters)
                e[a] = []
                for kind in ('generated', 'mano'):
                    for font, name, img, text in c[a][kind]:
                        os.makedirs('%s/%s/%s' % (top, kind, font), exist_ok=True)
                        f0 = '%s/%s/%s/%s' % (top, kind, font, name)
                        with open(f0 + ('.pnm' if kind == 'generated' else '.pbm'), 'wb') as f:
                            f.write(bytes.fromhex(img))
                        if kind == 'mano' and text is not None:
                            with open(f0 + '.txt', 'wb') as f:
                                f.write(bytes.fromhex(text))
                        t = letters if kind == 'generated' else bytes.fromhex(text) if text is not None else b'\0'
                        e[a].append([list(bytes.fromhex(img)), list(t), bs(font)])
            cmd = ['./learning' if c['how'] == './' else d + '/learning'] + \
                [exe[x] for x in ('write_glyphs', 'normalize_glyphs', 'write_datas')]

            def go(limit):
                p = subprocess.run(limit + cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                                   timeout=timeout * 3, cwd=d if c['how'] == './' else ctx.tmp, env=vp.ENV, restore_signals=False)
                return p.returncode, [maybe('%s/resources/%s' % (d, n)) for n in SIX]
            e['rc'], e['after'] = go([])
            if c.get('room') is not None:   # again, where a file can only have so many bytes
                e['op'] = 'learnlimited'
                e['free'] = e['after']
                biggest = max([len(x['b']) for x in e['free']])
                e['room'] = max(0, int(biggest * c['room'][0]) + c['room'][1])
                for n in SIX:
                    if n in c['before']:
                        with open('%s/resources/%s' % (d, n), 'wb') as f:
                            f.write(bytes.fromhex(c['before'][n]))
                    elif os.path.exists('%s/resources/%s' % (d, n)):
                        os.remove('%s/resources/%s' % (d, n))
                e['rc'], e['after'] = go(['prlimit', '--fsize=%d' % e['room']])
        except subprocess.TimeoutExpired:
            e['st'] = 'hang'
            ctx.hangs += 1
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return i, [{'id': 's%d' % i, 'op': 'start', 'to': '', 'st': 'ok'}, e]

    with vp.ThreadPoolExecutor(vp.NCPU) as ex:
        for x in ex.map(one, cases):
            yield x


core.RUNNERS['learn'] = run_learn


def alphabet(m, r, bad):
    """Fonts of an alphabet: letters, generated images which have them all, images made by hand."""
    n = r.choice((1, 2, 3, 4))
    letters = [token(r, r.choice((1, 1, 2))) for _ in range(n)]
    stock = [m.drawing() for _ in range(n)]
    res = {'letters': m.text(letters).hex(), 'generated': [], 'mano': []}
    names = r.sample(['Arial-10', 'Arial-10-bold', 'DejaVuSans', 'zz', '\u00e9t\u00e9', 'A', 'a.b', "x'y", '0', '-9'], 5)

    def image(k):
        for _ in range(50):
            i = m.line([d if r.random() < .6 else (drawings(bend(r, d, 1)) or [d])[0] for d in (stock if k == n else [m.drawing() for _ in range(k)])])
            if len(boxes(i)) == k:
                return i
        return g.hjoin([(1, 1, 'x')] * k, [1] * k, 1, [0] * k, 0, 0)

    def picture(i):
        if r.random() < .4:
            return m.picture(i, 100)
        b = m.picture(i)
        while b[1:2] == b'6' and r.random() < .95:      # of the default luminance
            b = m.picture(i)
        return b
    for font in names[:r.choice((1, 1, 2, 3))]:
        for f in r.sample([font, font + '-aliasing', 'x y', 'b'], r.choice((1, 1, 2))):
            res['generated'].append([font, f, picture(image(n)).hex(), None])
    for font in r.sample(names, r.choice((1, 1, 2))):
        for f in r.sample(['a \u0431 \u0432', "&'(-_", 'a', 'z', ',.', '1 2 3 ; # $ ~ %', '\u00f9'], r.choice((1, 2))):
            k = r.choice((1, 2, 5))
            t = m.text([r.choice(letters) if r.random() < .5 else token(r, 2) for _ in range(k)])
            res['mano'].append([font, f, picture(image(k)).hex(), t.hex()])
    if bad:
        x = r.choice(res[r.choice(('generated', 'mano', 'mano'))])
        q = r.randrange(4)
        if q == 0 and x[3] is not None:
            x[3] = None                     # no text
        elif q == 1 and x[3] is not None:
            x[3] = (bytes.fromhex(x[3]) + b' more').hex()
        elif q == 2:
            x[2] = x[2][:-2]                # the image is cut
        else:
            x[2] = picture(image(max(1, n + 1 if x[3] is None else 7))).hex()
    return res


def e03(ctx):
    ctx.model('MCLearn')
    m = Material(ctx)
    r = ctx.rng
    out = []
    for _ in range(ctx.n(100, 900)):
        bad = r.random()
        before = {}
        for f in SIX:
            if r.random() < .5:
                before[f] = r.choice((b'', b'old\n', b'1 1 x\n1\nw f 0\n')).hex()
        out.append({'k': 'learn', 'how': r.choice(('./', 'abs')), 'before': before,
                    'latin': alphabet(m, r, bad < .15), 'cyrillic': alphabet(m, r, .15 <= bad < .3)})
    ctx.conform('TraceWorkflow', out, keep=1)


# ------------------------------------------------------------------ D07: outputs without room, inputs which are not there
def again(s, how, room=0):
    return {'op': 'limited', 'to': '', 'step': s, 'how': how, 'room': room}


def faulty(m, r, big=False):
    """The programs on good files, then the same with an output which fails, or without one of the files."""
    ds = many_drawings(r, r.choice((60, 150)), 12) if big else [m.drawing() for _ in range(r.choice((1, 2, 4)))]
    line = m.line(ds)
    ws = [r.choice((b'a', b'b', b'\xc3\xa9')) for _ in boxes(line)]
    words = [b'w%d' % k for k in range(r.choice((700, 3000) if big else (0, 1, 3)))] + [b'a']
    j = m.line(ds * (2 if big else 1))
    files = [file('i', m.picture(line)), file('t', m.text(ws)), file('l', b'\n'.join(words) + b'\n'), file('q', m.picture(j)),
             file('w', infos_for(r, ws))]
    runs = [label('g', ('i', 't', b'f')), step('show', '', 'i', 'q'), step('normalize', 'n', 'g', 'g'), step('datas', 'd', 'n'),
            step('trie', 'k', 'l', *(['l'] * r.randrange(2))), extract('n', 'd', 'q', *r.choice((('', ''), ('w', ''), ('w', 'k'))))]
    if r.random() < .15:                    # a run which fails anyway
        runs.append(r.choice((step('show', '', 'i', 't'), step('normalize', '', 'i'), extract('n', 'i', 'q'))))
    steps = files[:]
    for s in runs:
        steps.append(s)
        for _ in range(r.choice((1, 2, 3))):
            q = r.random()
            if q < .15:
                steps.append(again(s, 'full'))
            elif q < .3:
                steps.append(again(s, 'closed'))
            else:
                steps.append(again(s, 'file', r.choice((0, 1, 2, 10, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 10**7, -1, -1, -1, -2, -3, -20))))
    # a file which is not there, a directory
    steps.append({'op': 'dir', 'name': 'D'})
    for s in runs:
        if s['op'] not in ('label', 'show', 'normalize', 'datas', 'trie', 'extract'):
            continue
        for _ in range(2):
            x = dict(s)
            if s['op'] == 'label':
                t = dict(s['args'][0])
                t[r.choice(('img', 'text'))] = r.choice(('no', 'D', 'no/no', 'i/no', ''))
                x['args'] = r.choice(([t], s['args'] + [t], [t] + s['args']))
            elif s['op'] == 'extract':
                x['args'] = dict(s['args'])
                x['args'][r.choice([k for k, v in s['args'].items() if v])] = r.choice(('no', 'D', 'i/no'))
            else:
                x['args'] = list(s['args'])
                x['args'][r.randrange(len(x['args']))] = r.choice(('no', 'D', 'i/no', ''))
            steps.append({'op': 'unreadable', 'to': '', 'step': x})
    return session(*steps)


def many_files(m, r, n):
    """Many files for a program, one of them, often the last, damaged or not there."""
    i = m.line([m.drawing()])
    ws = [r.choice((b'a', b'b')) for _ in boxes(i)]
    pic = m.picture(i)
    steps = [file('i', pic), file('t', m.text(ws)), label('g', ('i', 't', b'f')), file('b', pic[:-1]), file('x', glyph_file(r, [(1, 1, 'x')], [[(b'a', b'f', 0)]])[:-4]),
             file('u', m.text(ws + [b'a'])), file('l', b'a\n'), {'op': 'dir', 'name': 'D'}]

    def damaged(good, bad):
        a = [good] * n
        a[r.choice((n - 1, n - 1, n - 2, n // 2, r.randrange(n)))] = bad
        return a
    none = ('no', 'D', 'i/no', '')
    for bad in ('b', r.choice(none)):
        s = step('show', '', *damaged('i', bad))
        steps.append(s if bad == 'b' else {'op': 'unreadable', 'to': '', 'step': s})
    for bad in ('x', r.choice(none)):
        s = step('normalize', '', *damaged('g', bad))
        steps.append(s if bad == 'x' else {'op': 'unreadable', 'to': '', 'step': s})
    steps.append({'op': 'unreadable', 'to': '', 'step': step('trie', '', *damaged('l', r.choice(none)))})
    for bad in (('b', 't', b'f'), ('i', 'u', b'f'), (r.choice(none), 't', b'f'), ('i', r.choice(none), b'f')):
        s = label('', *damaged(('i', 't', b'f'), bad))
        steps.append(s if bad[0] == 'b' or bad[1] == 'u' else {'op': 'unreadable', 'to': '', 'step': s})
    return session(*steps, step('normalize', 'n', *['g'] * n), step('show', '', *['i'] * n), step('trie', 'k', *['l'] * n))


def d07(ctx):
    ctx.model('MCFaults')
    m = Material(ctx)
    r = ctx.rng
    out = [faulty(m, r) for _ in range(ctx.n(150, 2500))]
    out += [faulty(m, r, True) for _ in range(ctx.n(8, 80))]
    out += [many_files(m, r, n) for n in (3, 5, 8, 9, 16, 17, 18, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300)]
    good = [file('i', b'P1\n1 1\n1\n'), file('t', b'a'), label('g', ('i', 't', b'f')), step('normalize', 'n', 'g'), step('datas', 'd', 'n')]

    def usage(prog, *args):
        return {'op': 'usage', 'to': '', 'prog': prog, 'args': list(args)}
    out.append(session(*good, usage('write_glyphs'), usage('write_glyphs', 'i'), usage('write_glyphs', 'i', 't'), usage('write_glyphs', '-l', '3'),
                       usage('write_glyphs', '-l'), usage('write_glyphs', '-l', '3', 'i', 't'), usage('write_glyphs', 'i', 't', 'f', 'i'),
                       usage('write_glyphs', 'i', 't', 'f', 'i', 't'), usage('write_glyphs', '-l', '9', 'i', 't', 'f', 'i', 't'),
                       usage('show_glyphs'), usage('show_glyphs', '-l', '9'), usage('show_glyphs', '-l'),
                       usage('normalize_glyphs'), usage('write_datas'), usage('make_trie_dictionary'),
                       usage('ocr2_extract_text'), usage('ocr2_extract_text', 'n'), usage('ocr2_extract_text', 'n', 'd')))
    for _ in range(ctx.n(40, 400)):         # the script
        bad = r.random() < .1
        before = {f: r.choice((b'', b'old\n')).hex() for f in SIX if r.random() < .5}
        out.append({'k': 'learn', 'how': r.choice(('./', 'abs')), 'before': before, 'latin': alphabet(m, r, bad), 'cyrillic': alphabet(m, r, False),
                    'room': r.choice(((0, 0), (0, 50), (.2, 0), (.5, 0), (.7, 0), (.9, 0), (1, -1), (1, 0), (1, 1), (1.2, 0), (1.5, 0), (3, 0)))})
    ctx.conform('TraceWorkflow', out, keep=2)


CHECKS = {'D07': d07, 'E03': e03, 'D03': d03, 'D04': d04, 'D05': d05, 'E01': e01, 'E02': e02}
