"""D06: files of databases which are cut or damaged."""
import re
import imggen as g
from core import drv, hexs
from checks_dict import wordlist, word, ALPHABETS
from checks_feat import feature_text, synthetic
from checks_flow import (Material, some_glyphs, glyph_file, infos_for, good_words, session, file, step, extract)

OPS = {'glyphs': ('gload', 'oload'), 'rows': ('fload',), 'infos': ('iload',), 'dict': ('dload',)}
DIMS = [(0, 1), (1, 0), (0, 0), (65536, 65536), (4294967295, 4294967295), (2147483648, 2), (2, 2147483648),
        (65537, 65535), (4294967296, 1), (1, 99999999999), (1431655766, 3), (16777216, 256), (4294967295, 2)]


def loads(kind, b, queries=()):
    out = []
    for op in OPS[kind]:
        if op == 'dload':
            out.append(drv('drv_ocr', op, '@F0 %d %s' % (len(queries), ' '.join(map(hexs, queries))),
                           op=op, file=list(b), queries=[list(q) for q in queries], files_=[b.hex()]))
        else:
            out.append(drv('drv_ocr', op, '@F0', op=op, file=list(b), files_=[b.hex()]))
    return out


def tame(b, kind):
    """No number with a sign, none out of the domain of the specification, no image which takes all the memory."""
    if re.search(rb'[+-]\d', b):
        return False
    if any(len(t) > 5 for t in re.findall(rb'\d+', b)):
        return False
    if kind == 'glyphs':
        ns = list(re.finditer(rb'(?<!\d)(\d{1,5})[\s]+(?=(\d{1,5})(?!\d))', b))
        return all(int(m[1]) * int(m[2]) < 10 ** 6 for m in ns)
    return True


def hurts(r, b):
    """A damage which is not a cut."""
    b = b.replace(b' 4294967295', b' 77')
    k = r.randrange(9)
    if not b:
        return bytes([r.choice(b'0 1a\n')])
    i = r.randrange(len(b))
    if k == 0:
        return b[:i] + bytes([r.choice(b'\n\t 0129ax-\xff\0,.')]) + b[i + 1:]
    if k == 1:
        return b[:i] + b[i + 1:]
    if k == 2:
        return b[:i] + bytes([r.choice(b'\n\t 0129ax-\xff')]) + b[i:]
    if k == 3:                                          # lines in another order, twice, or gone
        ls = b.splitlines(True)
        j, l = r.randrange(len(ls)), r.randrange(len(ls))
        q = r.randrange(3)
        if q == 0:
            ls[j], ls[l] = ls[l], ls[j]
        elif q == 1:
            ls.insert(l, ls[j])
        else:
            del ls[j]
        return b''.join(ls)
    ns = list(re.finditer(rb'\d+', b))
    if k in (4, 5) and ns:                              # another number
        m = r.choice(ns)
        v = int(m[0])
        w = r.choice((v + 1, v - 1, v + 2, 0, v * 2, v * 10 + 1, v // 10, 1))
        return b[:m.start()] + b'%d' % max(w, 0) + b[m.end():]
    ts = list(re.finditer(rb'\S+', b))
    if k == 6 and ts:                                   # no number, or none of them
        m = r.choice(ts)
        return b[:m.start()] + r.choice((b'', b'x', b'1x', b'0x1', b'1.5')) + b[m.end():]
    if k == 7:                                          # a hole
        j = r.randrange(len(b) + 1)
        i, j = min(i, j), max(i, j)
        return b[:i] + b[j:]
    j = r.randrange(len(b))                             # something twice
    return b[:i] + b[j:]


def drawn(b):
    """All the pixels which are there are of ink or of nothing."""
    i = 0
    while True:
        m = re.compile(rb'\s*(\d+)\s*(\d+)').match(b, i)
        if not m:
            return True
        n = int(m[1]) * int(m[2])
        i = m.end() + 1
        if b[i:i + n].strip(b'x-'):
            return False
        m = re.compile(rb'\s*(\d+)').match(b, i + n)
        if not m:
            return True
        i = m.end()
        for _ in range(int(m[1])):
            m = re.compile(rb'\s*\S+\s+\S+\s*\d+').match(b, i)
            if not m:
                return True
            i = m.end()


def cuts(r, b, n):
    """So many of the beginnings of a file; the last ones always."""
    ks = list(range(len(b) + 1))
    if len(ks) > n:
        ks = sorted(set(r.sample(ks, n)) | set(ks[-14:]))
    return [b[:k] for k in ks]


def a_glyph_file(ctx, m, n=None):
    r = ctx.rng
    imgs, vs = some_glyphs(ctx, m, r.choice((0, 1, 2, 3)) if n is None else n, None, r.choice((0, 1)))
    return glyph_file(r, imgs, vs)


def small_infos(r):
    return b''.join(w + b' %d %d %d %d\n' % tuple(r.randrange(200) for _ in range(4))
                    for w in r.sample([b'a', b'ab', b'1', b'12345678', b'123456789', b'\xc3\xa9', b'-', b'.'], r.randint(0, 5)))


def dict_file(ws):
    """A dictionary as the writer makes it: breadth first."""
    root = {}
    for w in ws:
        t = root
        s = w.decode()
        for i, c in enumerate(s):
            t = t.setdefault(c, [False, {}])
            if i == len(s) - 1:
                t[0] = True
            t = t[1]
    out, level, at = [], [root], 0
    todo = [(c, x) for c, x in sorted(root.items(), key=lambda q: q[0].encode())]
    k, last = 0, len(todo)
    while k < len(todo):
        c, (t, kids) = todo[k]
        out.append(b'%d %d %d %d\n' % (int.from_bytes(c.encode(), 'little'), last - k, len(kids), t))
        todo += sorted(kids.items(), key=lambda q: q[0].encode())
        last += len(kids)
        k += 1
    return b''.join(out)


def d06(ctx):
    ctx.model('MCDamage')
    m = Material(ctx)
    r = ctx.rng
    out = []
    # the files of the machine, cut everywhere, and with noise
    for x in ctx.some(ctx.gen('GenDamage', MaxEntries=2, Noise='{10}'), 60, 1500):
        b = bytes(x['b'])
        for c in cuts(r, b, ctx.n(25, 400)):
            out += loads(x['kind'], c, [b'a', b'ab', b'b', b'baa', b'aa', b'ba'] if x['kind'] == 'dict' else ())
        for _ in range(ctx.n(6, 60)):
            h = hurts(r, b)
            if tame(h, x['kind']):
                out += loads(x['kind'], h, [b'a', b'ab', b'b'] if x['kind'] == 'dict' else ())

    def several(kind, b, qs=(), some_cuts=25, some_hurts=25):
        o = []
        for c in cuts(r, b, some_cuts):
            o += loads(kind, c, qs)
        for _ in range(some_hurts):
            h = hurts(r, b)
            if r.random() < .2:
                h = hurts(r, h)
            if tame(h, kind):
                o += loads(kind, h, qs)
        return o

    for _ in range(ctx.n(30, 300)):
        out += several('glyphs', a_glyph_file(ctx, m))
        out += several('infos', small_infos(r))
    for _ in range(ctx.n(8, 60)):
        out += [x for b in cuts(r, infos_for(r, [w for w in good_words(r) if w] + [b'123456789']) + b'z 1 2 3 4294967295\n', 60)
                for x in loads('infos', b)]
    for t in (b'4294967296', b'42949672950', b'99999999999999999999', b'4294967295', b'004294967295', b'00000000000012'):
        for k in range(4):
            ns = [b'1', b'2', b'3', b'4']
            ns[k] = t
            out += loads('infos', b'a ' + b' '.join(ns) + b'\nb 1 1 1 1\n')
        out += loads('glyphs', b'1 1 x\n1\na f ' + t + b'\n')
        out += loads('glyphs', b'1 1 x\n1\na f 1\n1 1 -\n1\nb f ' + t + b'\n')
    for w, h in DIMS:                                   # images of no pixel, or of more than there can be
        for before in (b'', b'1 1 x\n1\na f 1\n'):
            for px in (b'', b'x', b'x' * 40):
                out += loads('glyphs', before + b'%d %d ' % (w, h) + px + b'\n1\na f 1\n')
    for _ in range(ctx.n(24, 200)):
        rows = [synthetic(r) for _ in range(r.choice((0, 1, 1, 2, 3)))]
        b = feature_text(rows).encode()
        if tame(b, 'rows'):
            out += several('rows', b, (), 20, 20)
    for _ in range(ctx.n(30, 300)):
        ws = sorted(set(w if isinstance(w, bytes) else w.encode() for w in wordlist(r, r.choice((0, 1, 2, 3, 5, 9)))[0]))
        ws = [w for w in ws if w and max(map(ord, w.decode())) < 128] or [b'a', b'ab']
        if r.random() < .4:
            ws = [w for w in ([b'a', b'b', b'ab', b'abc', b'aa', b'ba', b'bb', b'bab']) if r.random() < .5] or [b'a']
        b = dict_file(ws)
        out += several('dict', b, ws + [w[:-1] for w in ws if len(w) > 1] + [w + b'a' for w in ws[:3]], 25, 25)
    # long files, damaged at the end or anywhere
    for n in (17, 33, 65, 70, 129, 300):
        gs = [b'1 %d %s\n1\na%d f 0\n' % (k % 3 + 1, b'x-x'[:k % 3 + 1], k) for k in range(n)]
        out += several('glyphs', b''.join(gs), (), 4, 8)
        out += several('glyphs', b'1 1 x\n%d\n' % n + b''.join(b'a%d f 0\n' % k for k in range(n)), (), 4, 8)
        out += several('infos', b''.join(b'a%d 1 2 3 4\n' % k for k in range(n)), (), 4, 8)
        ws = sorted(b'%c%c%c' % (97 + k % 7, 97 + k // 7 % 7, 97 + k // 49) for k in range(n))
        out += several('dict', dict_file(ws), ws[:3] + ws[-3:], 4, 25)
        b = dict_file(ws).splitlines(True)
        for _ in range(12):                 # children which are not there, late in the file
            k = r.choice((len(b) - 1, len(b) - 2, r.randrange(len(b))))
            t = b[k].split(b' ')
            t[r.choice((1, 2))] = b'%d' % r.choice((0, 1, 2, 3, 50, len(b) - k, len(b) - k + 1))
            out += loads('dict', b''.join(b[:k] + [b' '.join(t)] + b[k + 1:]), ws[-2:])
    ctx.conform('TraceOcr', out, keep=4)

    # the programs
    out = []
    for _ in range(ctx.n(40, 500)):
        b = a_glyph_file(ctx, m)
        other = a_glyph_file(ctx, m)
        for d in [r.choice(cuts(r, b, 60)) for _ in range(3)] + [hurts(r, b) for _ in range(3)]:
            if (tame(d, 'glyphs') or b.startswith(d)) and drawn(d):
                files = [file('g', d), file('h', other)]
                k = r.randrange(4)
                out.append(session(*files, step('normalize', 'n', *((('g',), ('g', 'h'), ('h', 'g'), ('g', 'g'))[k])), step('datas', 'd', 'g')))
    for _ in range(ctx.n(60, 800)):
        imgs, vs = some_glyphs(ctx, m, r.choice((1, 2, 3)))
        gb = glyph_file(r, imgs, vs)
        words = [w for v in vs for w, _, _ in v]
        infos = infos_for(r, words, 1)
        ws = sorted(set(w for w in words if w.isascii())) or [b'a']
        dic = dict_file(ws)
        pic = m.picture(m.line(imgs[:2]))
        k = r.randrange(4)
        cut = r.choice(cuts(r, (gb, b'', infos, dic)[k], 40)) if k != 1 else None
        base = [file('g', gb), step('datas', 'd', 'g'), file('w', infos if k != 2 else cut), file('t', dic if k != 3 else cut), file('i', pic)]
        if k == 0:
            base.append(file('h', cut))
            out.append(session(*base, extract('h', 'd', 'i', 'w', 't')))
        elif k == 1:
            rows = [synthetic(r) for _ in imgs]
            d = r.choice(cuts(r, feature_text(rows).encode(), 60)[:-2])
            out.append(session(*base, file('e', d), extract('g', 'e', 'i', 'w', 't')))
        else:
            out.append(session(*base, extract('g', 'd', 'i', 'w', 't')))
    ctx.conform('TraceWorkflow', out, keep=2)


CHECKS = {'D06': d06}
