"""T01-T05, R01: words, dictionaries, tries, choice of words, UTF-8, replacements."""
import itertools, os, subprocess
from math import gcd
import core, vp
from core import drv, hexs, bs

ALPHABETS = [
    'ab', 'abc', 'a', 'aé', 'éè', 'éÉ', 'aà€', '€₠₭', '😀😁a', 'aé€😀', '\x01\x7f\x80\u07ff\u0800\uffff\U00010000\U0010ffff',
    'abcdefghijklmnopqrstuvwxyz', 'a-b\'', 'a b', 'éĩũ', '\u00e9\u00a9\u0169', '一丁七万', '\U00010080\U00010000\u0100\u0180\x80',
]


def word(r, al, hi=5):
    return ''.join(r.choice(al) for _ in range(r.randint(1, hi)))


def wordlist(r, n=None):
    al = r.choice(ALPHABETS)
    ws = [word(r, al, r.choice((1, 2, 3, 5, 8))) for _ in range(n or r.choice((0, 1, 1, 2, 3, 5, 8, 14)))]
    k = r.randrange(6)
    if k == 0 and ws:                       # words which go on others
        w = r.choice(ws)
        ws += [w + word(r, al, 2) for _ in range(2)] + [w[:-1]]
    elif k == 1 and ws:                     # twice the same
        ws += [r.choice(ws) for _ in range(3)]
    elif k == 2:                            # another alphabet
        ws += [word(r, r.choice(ALPHABETS), 3) for _ in range(3)]
    elif k == 3 and ws:                     # same start, different ends
        w = r.choice(ws)
        ws += [w[:r.randint(0, len(w))] + word(r, al, 3) for _ in range(4)]
    q = r.random()
    if q < .4:
        r.shuffle(ws)
    elif q < .6:
        ws.sort(key=lambda w: w.encode())
    elif q < .7:
        ws.sort(key=lambda w: w.encode(), reverse=True)
    elif q < .8:
        ws.sort(key=lambda w: (len(w.encode()), w))
    if r.random() < .3:
        ws.insert(r.randint(0, len(ws)), '')
    return ws, al


def queries(r, ws, al, n):
    q = ['']
    q += r.sample(ws, min(len(ws), n // 2))
    base = [w for w in ws if w] or [word(r, al)]
    for _ in range(n):
        w = r.choice(base)
        k = r.randrange(7)
        if k == 0:
            w = w[:-1]
        elif k == 1:
            w = w + r.choice(al)
        elif k == 2:
            w = w[:r.randint(0, len(w))]
        elif k == 3:
            p = r.randrange(len(w))
            w = w[:p] + r.choice(al) + w[p + 1:]
        elif k == 4:
            w = w + r.choice(base)
        elif k == 5:
            w = w[1:]
        else:
            w = word(r, r.choice(ALPHABETS), 3)
        q.append(w)
    return q


def chars(r, n):
    """n different characters, of every length."""
    pool = list(range(33, 127)) + list(range(0xa1, 0x7ff, 3)) + list(range(0x800, 0xd7ff, 37)) + list(range(0x10000, 0x10ffff, 997))
    return [chr(c) for c in r.sample(pool, n)]


def large(r, k):
    """Dictionaries with a particular size."""
    if k == 0:                              # many children
        cs = chars(r, 700)
        ws = cs[:400] + [c + r.choice(cs) for c in cs[:100]] + ['a' + c for c in cs]
        return ws, cs
    if k == 1:                              # long words
        ws = [word(r, 'ab', 2) * r.choice((50, 128, 129, 200)) for _ in range(4)]
        ws += ['é' * 256, 'é' * 255, 'é' * 257, 'x' * 600]
        return ws, 'abéx'
    if k == 2:                              # many words
        return [word(r, 'abcdefgé', 7) for _ in range(1500)], 'abcdefgé'
    if k == 3:                              # the levels have the sizes at which a byte overflows
        cs = chars(r, 300)
        return cs[:256] + [a + b for a in cs[:16] for b in cs[16:33]] + [cs[255] + c for c in cs[:257]], cs
    ws = ['a' * n for n in range(1, 120)]    # every prefix
    return ws + ['a' * 50 + 'b' * n for n in range(1, 40, 2)], 'ab'


def wl(ws):
    return '%d %s' % (len(ws), ' '.join(hexs(w) for w in ws)) if ws else '0'


def dict_case(ws, qs):
    return drv('drv_dict', 'dict', wl(ws) + ' ' + wl(qs), op='dict', words=[bs(w) for w in ws], queries=[bs(q) for q in qs])


def big(r, lo, hi, suf, nq=60, pre=''):
    """A dictionary with more nodes than 16 bits count."""
    qs = ['']
    ok = lambda c: 0 < c < 0x110000 and not 0xd800 <= c < 0xe000
    alls = list(suf) + [s[:-1] for s in suf] + [s + 'a' for s in suf] + ['', 'a', 'b', 'ba', 'é']
    for _ in range(nq):
        c = r.choice((lo, lo + 1, hi, hi - 1, lo - 1, hi + 1, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi),
                      min(hi, lo + 255), min(hi, lo + 256), min(hi, lo + 65535), min(hi, lo + 65536)))
        if ok(c):
            qs.append((pre if r.random() < .9 else r.choice(('', 'a'))) + chr(c) + r.choice(alls))
    return drv('drv_dict', 'bigdict', '%d %d %s %s %s' % (lo, hi, hexs(pre), wl(suf), wl(qs)), op='bigdict', lo=lo, hi=hi, pre=bs(pre),
               suffixes=[bs(s) for s in suf], queries=[bs(q) for q in qs])


def bigs(r, n):
    for _ in range(n):
        yield big(r, 0x800, 0x800 + 33000 + r.randrange(2000), r.sample(['', 'a', 'b', 'ab', 'éa', 'c'], 4))   # 16 bits overflow twice
        yield big(r, 0x100 + r.randrange(99), 0x11800 + r.randrange(999), ['a' + r.choice('bé'), 'b'])
        yield big(r, 0x10000 + r.randrange(999), 0x20400 + r.randrange(999), [''], pre=r.choice(('a', 'ab', 'é')))    # after one letter
        yield big(r, 0xfff0 - r.randrange(40000), 0x10000 + r.randrange(70000), r.choice((['x'], ['', 'x'], [''])))


def exhaustive_words(al, hi):
    out, last = [], ['']
    for _ in range(hi):
        last = [w + c for w in last for c in al]
        out += last
    return out


def small_dicts(r, ctx, al='ab'):
    """Every set of the words of one or two letters, and sets of words of up to three."""
    w2 = exhaustive_words(al, 2)
    for m in range(1 << len(w2)):
        yield [w for i, w in enumerate(w2) if m >> i & 1]
    w3 = exhaustive_words(al, 3)
    for _ in range(ctx.n(150, 3000)):
        yield r.sample(w3, r.randint(1, 8))


def t01(ctx):
    ctx.model('MCTrie')
    r = ctx.rng
    out = []
    for al in ('ab', 'aé', '€₠', '😀\U00010000'):
        qs = [''] + exhaustive_words(al, 3)
        for ws in small_dicts(r, ctx, al):
            ws = list(ws)
            r.shuffle(ws)
            if len(ws) < 7 and not ctx.quick or r.random() < .6:
                out.append(dict_case(ws, qs if r.random() < .5 else r.sample(qs, 8)))
    for _ in range(ctx.n(700, 8000)):
        ws, al = wordlist(r)
        out.append(dict_case(ws, queries(r, ws, al, 12)))
    for k in range(5):
        for _ in range(ctx.n(1, 6)):
            ws, al = large(r, k)
            r.shuffle(ws)
            out.append(dict_case(ws, queries(r, ws, al, 60)))
    out += list(bigs(r, ctx.n(1, 6)))
    ctx.conform('TraceSpell', out, keep=4)


# ------------------------------------------------------------------ the tool
def run_mktrie(ctx, cases, timeout):
    exe = vp.build(['make_trie_dictionary', 'drv_dict'])
    def one(ic):
        i, c = ic
        d = '%s/mk%d' % (ctx.tmp, i)
        os.makedirs(d, exist_ok=True)
        names = []
        for k, h in enumerate(c['files']):
            names.append('%s/w%d' % (d, k))
            with open(names[-1], 'wb') as f:
                f.write(bytes.fromhex(h))
        try:
            if ctx.hangs >= 8:              # enough of them are known
                return i, 'skipped', b''
            p = subprocess.run(vp.LIMIT + [exe['make_trie_dictionary']] + names, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=timeout * 3, cwd=d, env=vp.ENV)
            return i, p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            ctx.hangs += 1
            return i, None, b''
    with vp.ThreadPoolExecutor(vp.NCPU) as ex:
        done = list(ex.map(one, cases))
    res = vp.run_driver(exe['drv_dict'], [('m%d' % i, 'dictf %s %d %s' % (hexs(o), len(c['q']), ' '.join(q or '-' for q in c['q'])))
                                          for (i, rc, o), (_, c) in zip(done, cases) if rc == 0], timeout, jobs=vp.NCPU)
    for (i, rc, o), (_, c) in zip(done, cases):
        if rc == 'skipped':
            yield i, []
            continue
        e = {'id': 'm%d' % i, 'st': 'ok', 'op': c.get('op', 'mktrie'), 'rc': -1 if rc is None else rc,
             'files': [list(bytes.fromhex(h)) for h in c['files']], 'queries': [list(bytes.fromhex(q)) for q in c['q']],
             'text': list(o)}
        st, a = res.get('m%d' % i, ('hang' if rc is None else 'failed', None))
        e['st'] = st
        if st == 'ok':
            e['out'] = a
        yield i, [e]


core.RUNNERS['mktrie'] = run_mktrie


def t02(ctx):
    ctx.model('MCTrie')
    r = ctx.rng
    out = []
    for _ in range(ctx.n(300, 4000)):       # round trips
        ws, al = wordlist(r)
        out.append(dict_case(ws, queries(r, ws, al, 6)))
    for k in range(5):
        ws, al = large(r, k)
        out.append(dict_case(ws, queries(r, ws, al, 20)))

    def files(ws):
        n = r.choice((1, 1, 2, 2, 3, 4, 6))
        fs = [[] for _ in range(n)]
        if r.random() < .5:
            for w in ws:
                fs[r.randrange(n)].append(w)
        else:
            cut = sorted(r.randint(0, len(ws)) for _ in range(n - 1))
            for k, (a, b) in enumerate(zip([0] + cut, cut + [len(ws)])):
                fs[k] = ws[a:b]
        if r.random() < .3:                 # a word in two files
            fs[r.randrange(n)] += [r.choice(ws)] if ws else []
        res = []
        for f in fs:
            t = '\n'.join(f)
            if t and r.random() < .75:
                t += '\n'
            if r.random() < .2:
                t += r.choice(('\n', '\n\n'))
            res.append(t.encode().hex())
        return res

    for _ in range(ctx.n(250, 3000)):
        ws, al = wordlist(r)
        qs = queries(r, ws, al, 8)
        out.append({'k': 'mktrie', 'files': files(ws), 'q': [q.encode().hex() for q in qs]})
    for k in range(5):
        ws, al = large(r, k)
        qs = queries(r, ws, al, 20)
        out.append({'k': 'mktrie', 'files': files(ws), 'q': [q.encode().hex() for q in qs]})
    out += list(bigs(r, ctx.n(1, 6)))
    for n in (255, 257, 1023, 1025, 2049, 4095, 4096, 4097, 5000):      # long lines
        a = 'ab' * (n // 2) + 'a' * (n % 2)
        ws = [a, r.choice((a[:-1] + 'c', a + 'c', 'c' + a)), 'c', a[:r.randrange(n)]]
        r.shuffle(ws)
        qs = [a, a[:-1], a + 'a', 'c', 'b', 'c' + a, a + 'c']
        out.append({'k': 'mktrie', 'files': files(ws), 'q': [q.encode().hex() for q in qs]})
    ctx.conform('TraceSpell', out, keep=4)


# ------------------------------------------------------------------ choice of a word
def dis(ws, prefix, pos):
    return drv('drv_dict', 'dis', '%s %s %d %s' % (wl(ws), hexs(prefix), len(pos), ' '.join(wl(p) for p in pos)),
               op='dis', words=[bs(w) for w in ws], prefix=bs(prefix), pos=[[bs(s) for s in p] for p in pos])


def t03(ctx):
    if ctx.quick:
        ctx.model('MCPick', 'MCPickQuick.cfg')
    else:
        ctx.model('MCPick')
    r = ctx.rng
    out = []

    text = lambda b: bytes(b).decode()
    for x in ctx.some(ctx.gen('GenPick', Letters='{97, 98}', MaxPositions=2, MaxWords=1), 5000) + \
            ([] if ctx.quick else ctx.some(ctx.gen('GenPick', Letters='{97, 98}', MaxPositions=2, MaxWords=2), None, 60000)):
        out.append(dis([text(w) for w in x['words']], '', [[text(s) for s in p] for p in x['pos']]))

    def pieces(w):
        """w cut in candidates of one or several characters."""
        p = []
        while w:
            n = min(len(w), r.choice((1, 1, 1, 1, 2, 2, 3)))
            p.append(w[:n])
            w = w[n:]
        return p

    def near(s, al):
        k = r.randrange(5)
        if k == 0:
            return s + r.choice(al)
        if k == 1 and len(s) > 1:
            return s[:-1]
        if k == 2 and len(s) > 1:
            return s[1:]
        return ''.join(r.choice(al) if r.random() < .6 else c for c in s)

    for _ in range(ctx.n(3000, 40000)):
        ws, al = wordlist(r, r.choice((1, 2, 4, 8, 20, 40)))
        real = [w for w in ws if w] or ['a']
        k = r.random()
        if k < .75:
            target = r.choice(real)
            pos = []
            for s in pieces(target):
                p = [s]
                if r.random() < .1:
                    p = []                          # the right one is missing
                for _ in range(r.choice((0, 0, 1, 1, 2, 3))):
                    p.insert(r.randint(0, len(p)), near(s, al))
                if r.random() < .2:
                    p.append(r.choice(p) if p else s)
                pos.append(p)
            q = r.random()
            if q < .1:
                pos.append([r.choice(al)])
            elif q < .2 and pos:
                pos.pop()
        elif k < .97:
            pos = [[word(r, al, 2) for _ in range(r.choice((0, 1, 1, 2, 3)))] for _ in range(r.randint(0, 4))]
        else:
            pos = []
        out.append(dis(ws, r.choice(('', '', 'old', 'é', word(r, al))), pos))
    # every dictionary of small words, candidates which spell the same letters in different cuts
    w2 = exhaustive_words('ab', 2)
    for _ in range(ctx.n(1500, 20000)):
        ws = r.sample(exhaustive_words('ab', 3), r.randint(1, 6))
        pos = [[r.choice(w2) for _ in range(r.choice((1, 2, 2, 3)))] for _ in range(r.randint(1, 3))]
        out.append(dis(ws, '', pos))
    for _ in range(ctx.n(4, 40)):           # long, deep
        n = r.choice((30, 200))
        ws = ['ab' * n, 'ab' * n + 'c', 'é' * n]
        out.append(dis(ws, 'p', [['a', 'x'], ['y', 'b']] * n))
        out.append(dis(ws, 'p', [['aba'], ['bab'], ['ab', 'x']] * (n // 4)))
        out.append(dis(ws, 'p', [['é', 'e']] * n))
    for n in (17, 25, 33, 65, 129, 257, 300):      # many candidates, the right one late
        others = ['x%d' % k for k in range(n)]
        for at in (n, n - 1, n // 2):
            p = others[:at] + ['a'] + others[at:]
            out.append(dis(['ba', 'bac', 'bx%d' % (n - 1)], '', [['b'], p]))
            out.append(dis(['aab', 'ac'], '', [p, ['b', 'a'], ['b']]))
            out.append(dis(['ab', 'x3x4'], '', [others[:at] + ['ab'] + others[at:]]))
    for k in (0, 2, 3):
        ws, al = large(r, k)
        for _ in range(ctx.n(3, 20)):
            w = r.choice(ws)
            out.append(dis(ws, '', [[near(c, al), c] for c in w]))
    ctx.conform('TraceSpell', out, keep=4)


def t04(ctx):
    ctx.model('MCUtf')
    r = ctx.rng
    texts = ['']
    edge = [1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff,
            0x100000, 0x10ffff, 0xbf, 0xc0, 0xff, 0x100, 0x13f, 0x140, 0x3fff, 0x4000]
    texts += [chr(c) for c in edge]
    texts += [chr(a) + chr(b) for a in edge for b in edge]
    def any_cp():
        k = r.randrange(5)
        if k == 0:
            return r.randint(1, 0x7f)
        if k == 1:
            return r.randint(0x80, 0x7ff)
        if k == 2:
            return r.choice((r.randint(0x800, 0xd7ff), r.randint(0xe000, 0xffff)))
        if k == 3:
            return r.randint(0x10000, 0x10ffff)
        return r.choice(edge)
    for _ in range(ctx.n(1500, 10000)):
        texts.append(''.join(chr(any_cp()) for _ in range(r.choice((1, 2, 3, 5, 9, 30)))))
    texts.append(''.join(chr(any_cp()) for _ in range(1500)))
    # every character of one and two bytes; every one of the others in the thorough check
    step = ctx.n(13, 1)
    allcp = list(range(1, 0x800)) + [c for c in list(range(0x800, 0xd800, step)) + list(range(0xe000, 0x110000, step * 7))]
    for k in range(0, len(allcp), 200):
        texts.append(''.join(map(chr, allcp[k:k + 200])))
    ctx.conform('TraceSpell', [drv('drv_dict', 'utf', hexs(t), op='utf', text=bs(t)) for t in texts], keep=3)


def raw(r, n):
    """A word of about n bytes which may be anything but UTF-8."""
    b = b''
    k = r.random()
    while len(b) < n:
        q = r.random()
        if q < .5:
            b += r.choice((b'a', b'b', 'é'.encode(), '€'.encode(), '😀'.encode()))
        elif k < .4:
            b += 'éà'.encode('latin-1')[:r.choice((1, 2))] if q < .6 else b'a'
        elif k < .7:                        # only at the end
            b += r.choice((b'a', b'bc'))
        else:
            b += bytes([r.choice((0, 1, 0x7f, 0x80, 0xa9, 0xbf, 0xc0, 0xc3, 0xdf, 0xe0, 0xe9, 0xef, 0xf0, 0xf7, 0xf8, 0xff, r.randrange(256)))])
    if r.random() < .6:
        b += r.choice((b'\xc3', b'\xe9', b'\xe2\x82', b'\xf0', b'\xf0\x9f', b'\xf0\x9f\x98', b'\xff', b'\x80', b'\xdf', b'\xef\xbf'))
    return b


def t06(ctx):
    ctx.model('MCRaw')
    r = ctx.rng
    out = []
    h = lambda ws: '%d %s' % (len(ws), ' '.join(w.hex() or '-' for w in ws)) if ws else '0'

    def utf(t):
        out.append(drv('drv_dict', 'utf', t.hex() or '-', op='rawutf', text=list(t)))
    some = [bytes([a, b]) for a in (0x41, 0x80, 0xc3, 0xe9, 0xf0, 0xff, 0) for b in range(0, 256, ctx.n(5, 1))]
    for t in [bytes([b]) for b in range(256)] + some:
        utf(t)
    for k in (14, 15, 16, 17, 30, 31, 32, 255, 256):            # where the memory of a string ends
        for end in (b'\xc3', b'\xe2', b'\xe2\x82', b'\xf0', b'\xf0\x9f', b'\xf0\x9f\x98', b'\x80', b'\xff\xff\xff', 'é'.encode()):
            utf(b'a' * (k - len(end)) + end)
            w = [b'a' * (k - len(end)) + end, b'zoo']
            out.append(drv('drv_dict', 'dict', h(w) + ' ' + h(w), op='rawdict', words=[list(x) for x in w], queries=[list(x) for x in w]))
    for _ in range(ctx.n(2500, 25000)):
        utf(raw(r, r.choice((1, 2, 3, 8, 16, 40))))
    for _ in range(ctx.n(1200, 12000)):
        ws = [raw(r, r.choice((1, 2, 4, 16, 20))) for _ in range(r.choice((1, 2, 4, 9)))]
        if r.random() < .4:
            w = r.choice(ws)
            ws += [w[:r.randint(0, len(w))], w + b'a', w[:-1]]
        r.shuffle(ws)
        qs = ws + [w[:-1] for w in ws] + [w[:r.randint(0, len(w))] for w in ws] + [b'', b'a', b'\xe9']
        if r.random() < .25:
            ws2 = [w.replace(b'\n', b'') for w in ws]
            k = r.randint(0, len(ws2))
            out.append({'k': 'mktrie', 'op': 'rawmktrie', 'q': [], 'files': [(b'\n'.join(x) + r.choice((b'', b'\n'))).hex() for x in (ws2[:k], ws2[k:])]})
        else:
            out.append(drv('drv_dict', 'dict', h(ws) + ' ' + h(qs), op='rawdict', words=[list(x) for x in ws], queries=[list(x) for x in qs]))
    for _ in range(ctx.n(1500, 15000)):
        ws = [raw(r, r.choice((1, 2, 4, 16))) for _ in range(r.choice((1, 2, 4)))]
        pos = []
        if r.random() < .8:                 # a word cut in pieces
            w = r.choice(ws)
            while w:
                n = r.choice((1, 1, 2, 3, 4, 16))
                p = [w[:n]]
                w = w[n:]
                for _ in range(r.choice((0, 0, 1, 2))):
                    p.insert(r.randint(0, len(p)), raw(r, r.choice((1, 2, 16))) if r.random() < .8 else b'')
                pos.append(p)
        else:
            pos = [[raw(r, r.choice((1, 2))) for _ in range(r.choice((1, 2)))] for _ in range(r.choice((1, 2, 3)))]
        ws += [b''.join(p[0] for p in pos)]
        pre = r.choice((b'', b'x', b'\xe9'))
        out.append(drv('drv_dict', 'dis', '%s %s %d %s' % (h(ws), pre.hex() or '-', len(pos), ' '.join(h(p) for p in pos)),
                       op='rawdis', words=[list(x) for x in ws], prefix=list(pre), pos=[[list(s) for s in p] for p in pos]))
    ctx.conform('TraceSpell', out, keep=4)


def t05(ctx):
    ctx.model('MCTrie')
    r = ctx.rng
    out = []

    def case(ws, qs):
        h = lambda l: '%d %s' % (len(l), ' '.join(w.hex() or '-' for w in l)) if l else '0'
        out.append(drv('drv_dict', 'trie', h(ws) + ' ' + h(qs), op='trie', words=[list(w) for w in ws], queries=[list(q) for q in qs]))

    def around(ws, al, n):
        q = [b''] + list(ws[:n])
        for _ in range(n):
            w = r.choice(ws) if ws else b'a'
            k = r.randrange(4)
            q.append(w[:r.randint(0, len(w))] if k == 0 else w + bytes([r.choice(al)]) if k == 1
                     else w[:-1] + bytes([r.choice(al)]) if k == 2 else bytes(r.choice(al) for _ in range(r.randint(1, 4))))
        return q

    w2 = [w.encode() for w in exhaustive_words('ab', 2)]
    allq = [b''] + [w.encode() for w in exhaustive_words('ab', 3)]
    for m in range(1 << len(w2)):
        case([w for i, w in enumerate(w2) if m >> i & 1], allq)
    w3 = [w.encode() for w in exhaustive_words('ab', 3)]
    for _ in range(ctx.n(700, 8000)):
        case(r.sample(w3, r.randint(1, 9)), allq)
    for _ in range(ctx.n(900, 10000)):
        al = r.choice((b'ab', b'abc', bytes(range(97, 123)), bytes([1, 127, 128, 255]), bytes(range(1, 256)), b'a'))
        ws = [bytes(r.choice(al) for _ in range(r.randint(1, r.choice((1, 3, 6))))) for _ in range(r.choice((0, 1, 2, 4, 8, 20)))]
        if ws and r.random() < .4:
            w = r.choice(ws)
            ws += [w + bytes([r.choice(al)]), w[:-1] or w, w + w]
        case(ws, around(ws, al, 10))
    al = bytes(range(1, 256))
    for _ in range(ctx.n(2, 12)):
        ws = [bytes([c]) for c in al] + [b'z' + bytes([c]) for c in al] + [b'a' * n for n in range(1, 300, 7)]
        case(ws, around(ws, al, 60))
        ws = [bytes(r.choice(b'abcdef') for _ in range(r.randint(1, 6))) for _ in range(1200)]
        case(ws, around(ws, b'abcdef', 60))
    # more nodes than 16 bits count: every word of some length
    for k in range(ctx.n(3, 15)):
        size, n = r.choice(((41, 3), (17, 4), (10, 5), (255, 2), (2, 15), (4, 8), (256, 2)))
        if k == 0:
            size, n = 41, 3
        al = bytes(sorted(r.sample(range(1, 256), min(size, 255))))
        ws = [bytes(r.choice(al) for _ in range(r.choice((1, n - 1, n, n + 1, n + 2)))) for _ in range(40)]
        qs = [b''] + ws + [bytes(r.choice((al[0], al[-1], r.choice(al))) for _ in range(r.randint(1, n + 1))) for _ in range(80)] \
            + [bytes(r.randint(1, 255) for _ in range(r.randint(1, n))) for _ in range(10)]
        h = lambda l: '%d %s' % (len(l), ' '.join(w.hex() or '-' for w in l))
        out.append(drv('drv_dict', 'trieall', '%s %d %s %s' % (al.hex(), n, h(ws), h(qs)),
                       op='trieall', al=list(al), n=n, words=[list(w) for w in ws], queries=[list(q) for q in qs]))
    ctx.conform('TraceSpell', out, keep=4)


def r01(ctx):
    ctx.model('MCRewrite', 'MCRewriteQuick.cfg')
    if not ctx.quick:
        ctx.model('MCRewrite')
    r = ctx.rng
    out = []

    def repl(t, reps):
        out.append(drv('drv_dict', 'repl', '%s %d %s' % (hexs(t), len(reps), ' '.join(hexs(a) + ' ' + hexs(b) for a, b in reps)),
                       op='repl', text=bs(t), reps=[[bs(a), bs(b)] for a, b in reps]))

    for x in ctx.some(ctx.gen('GenRewrite', Letters='{97, 98}', MaxText=5, MaxReps=1), 2000) + \
            ctx.some(ctx.gen('GenRewrite', Letters='{97, 98}', MaxText=3, MaxReps=2), 1500, 20000):
        repl(bytes(x['text']).decode(), [(bytes(a).decode(), bytes(b).decode()) for a, b in x['reps']])
    tx = [''] + exhaustive_words('ab', 4)
    ps = [''] + exhaustive_words('ab', 2)
    every = [(t, a, b) for t in tx for a in ps for b in ps]
    for t, a, b in every if not ctx.quick else r.sample(every, 1200):
        repl(t, [(a, b)])
    for _ in range(ctx.n(2000, 20000)):
        al = r.choice(('ab', 'a', 'abc', 'é€', 'ab \n', 'xyz'))
        t = ''.join(r.choice(al) for _ in range(r.choice((0, 1, 3, 6, 12, 40))))
        reps = []
        for _ in range(r.choice((0, 1, 1, 2, 3, 5))):
            p = word(r, al, 3) if r.random() < .6 or not t else t[(i := r.randrange(len(t))):i + r.randint(1, 4)]
            k = r.randrange(6)
            q = ('' if k == 0 else p if k == 1 else p + word(r, al, 2) if k == 2 else word(r, al, 2) + p if k == 3 else word(r, al, 4))
            if r.random() < .05:
                p = ''
            reps.append((p, q))
        repl(t, reps)
    for _ in range(ctx.n(3, 20)):
        repl('ab' * 700, [('ab', 'aab'), ('aa', 'b'), ('b', ''), ('a', 'xyz')])
        repl('a' * 1000, [('aa', 'a'), ('aaa', 'aaaa')])
    # long replacements, long tables: each step has something to do
    for _ in range(ctx.n(8, 60)):
        n = r.choice((127, 128, 129, 255, 256, 257, 300, 512))
        p, q = (''.join(r.choice('ab') for _ in range(m)) for m in (n, r.choice((n, n - 1, n + 1, 255, 256, 257, 1))))
        repl(p + word(r, 'ab', 3) + p + q + p[1:] + p, [(p, q), (q, 'c'), (p[1:], '')])
        n = r.choice((127, 128, 255, 256, 257, 300))
        al = [chr(0x100 + k) for k in range(n + 2)]
        r.shuffle(al)
        reps = [(al[k], al[k + 1]) for k in range(n)]
        if r.random() < .5:
            r.shuffle(reps)
        repl(al[0] + ''.join(r.sample(al, 5)), reps)
        out.append(drv('drv_dict', 'replf', hexs(t := ''.join(a + ' ' + b + '\n' for a, b in reps)), op='replf', text=bs(t)))
    # files
    for _ in range(ctx.n(600, 6000)):
        al = r.choice(('ab', 'abc', 'é€', 'a.?'))
        t = ''
        n = r.randint(0, 6)
        for k in range(n):
            p = word(r, al, 3)
            t += p
            if r.random() < .7:
                t += r.choice((' ', ' ', '  ', '\t')) + word(r, al, 3)
            if k + 1 < n or r.random() < .8:
                t += '\n' * r.choice((1, 1, 1, 2))
        out.append(drv('drv_dict', 'replf', hexs(t), op='replf', text=bs(t)))
    for n in (255, 257, 1023, 1025, 4097):       # long lines, long texts
        p, q = ('ab' * n)[:n], ('ba' * n)[:n]
        for t in (p + ' ' + q + '\nc d\n', p + '\n' + q + ' x\n', 'a b\n' + p + ' x\nc ' + q, ' ' * n + 'a' + ' ' * n + 'b\n' + '\n' * n + 'c'):
            out.append(drv('drv_dict', 'replf', hexs(t), op='replf', text=bs(t)))
        repl('c' * n + p, [(p, 'x'), ('c', 'd')])
    ctx.conform('TraceSpell', out, keep=4)


def u01(ctx):
    ctx.model('MCReindex', 'MCReindexQuick.cfg' if ctx.quick else 'MCReindex.cfg')
    r = ctx.rng
    out = []

    def case(idx, items):
        out.append(drv('drv_dict', 'ridx', ' '.join(map(str, [len(idx)] + list(idx) + [len(items)] + [w.hex() or '-' for w in items])),
                       op='ridx', idx=list(idx), items=[list(w) for w in items]))

    for n in range(6 if ctx.quick else 7):
        for p in itertools.permutations(range(n)):
            case(p, [b'%d' % k for k in range(n)])
            case(p, [r.choice((b'', b'a', b'a long word which is not kept in the string itself')) for _ in range(n)])
    for _ in range(ctx.n(1500, 15000)):
        n = r.choice((1, 2, 3, 6, 7, 8, 9, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300))
        p = list(range(n))
        k = r.randrange(6)
        if k == 0:
            p = p[(q := r.randrange(n)):] + p[:q]
        elif k == 1:
            p.reverse()
        elif k == 2:                        # nearly in order
            for _ in range(r.choice((1, 1, 2, 5))):
                i, j = r.randrange(n), r.randrange(n)
                p[i], p[j] = p[j], p[i]
        elif k == 3:                        # a block elsewhere
            i = r.randrange(n)
            b = p[i:i + r.randint(1, 9)]
            p = [x for x in p if x not in b]
            i = r.randint(0, len(p))
            p = p[:i] + b + p[i:]
        else:
            r.shuffle(p)
        case(p, [b'%d' % (k if r.random() < .8 else r.randrange(n)) * r.choice((1, 1, 1, 9)) for k in range(n)])
    for _ in range(ctx.n(60, 600)):
        n = r.choice((1000, 4096, 32768, 40000))
        n = min(40000, max(1, n + r.choice((-1, 0, 1))))
        m = r.choice((1, n - 1, 3, 7, 16, 255, r.randint(1, n)))
        while gcd(m, n) != 1:
            m += 1
        k = r.randrange(n)
        at = sorted({0, n - 1, n // 2, *[r.randrange(n) for _ in range(20)]})
        if n > 46000 or m > 46000:
            continue
        out.append(drv('drv_dict', 'bigridx', ' '.join(map(str, [n, m, k, len(at)] + at)), op='bigridx', n=n, m=m, k=k, at=at))
    for n in (65535, 65536, 65537, 70001, 200003):      # steps small enough for the numbers of the specification
        for m in (1, 2, 3, 5, 7, 101):
            if gcd(m, n) == 1:
                k = r.randrange(n)
                at = sorted({0, n - 1, n // 2, 65535 % n, 65536 % n, *[r.randrange(n) for _ in range(20)]})
                out.append(drv('drv_dict', 'bigridx', ' '.join(map(str, [n, m, k, len(at)] + at)), op='bigridx', n=n, m=m, k=k, at=at))
    ctx.conform('TraceSpell', out, keep=4)


CHECKS = {'U01': u01, 'T06': t06, 'T01': t01, 'T02': t02, 'T03': t03, 'T04': t04, 'T05': t05, 'R01': r01}
