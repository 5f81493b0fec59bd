"""Images for the checks: exhaustive small ones, drawings of many kinds, shipped ones.

An image is (w, h, pixels) with pixels a string of 'x' and '-'."""
import glob, itertools, os, random
from vp import REPO


def img(w, h, p):
    assert len(p) == w * h, (w, h, len(p))
    return (w, h, p)


def js(i):
    return {'w': i[0], 'h': i[1], 'p': [ord(c) for c in i[2]]}


def round_side(r, hi):
    """Next to a multiple of a power of 2 (what is done by blocks ends there)."""
    b = r.choice([x for x in (8, 16, 32, 64, 128, 256, 512, 1024) if x <= hi])
    return max(1, b * r.randint(1, hi // b) + r.choice((-1, 0, 0, 1, 1)))


def around(r, n):
    """A side of about n."""
    k = r.randrange(4)
    if k == 0:
        return n + r.randint(-1, 1)
    if k == 1:
        return max(1, n + r.randint(-n // 8, n // 8))
    b = r.choice([x for x in (8, 16, 32, 64, 128, 256) if x <= n])
    return max(1, n // b * b + r.choice((-1, 0, 1, 1)))


def stretch(r, hi=9, side=1500, cells=None):
    """A large image known by a small drawing: (drawing, widths, heights)."""
    i = cells or any_image(r, r.randint(1, hi), r.randint(1, hi))

    def cut(n, total):
        k = r.randrange(4)
        if k == 0:                          # a wide one, the others of one pixel or so
            ws = [r.choice((1, 1, 2, 3)) for _ in range(n)]
            ws[r.randrange(n)] += max(0, total - sum(ws))
            return ws
        ws = [r.randint(1, 1000) for _ in range(n)]
        s = sum(ws)
        ws = [max(1, x * total // s) for x in ws]
        if k == 1:
            ws = [max(1, total // n)] * n
        ws[-1] = max(1, ws[-1] + total - sum(ws))
        return ws
    w = side if isinstance(side, int) else side[0]
    h = side if isinstance(side, int) else side[1]
    return i, cut(i[0], w), cut(i[1], h)


def stretch_arg(s):
    (w, h, p), cw, rh = s
    return ' '.join([str(w), str(h)] + [str(x) for x in cw] + [str(x) for x in rh] + [p])


def stretch_js(s):
    return {'img': js(s[0]), 'cw': s[1], 'rh': s[2]}


def arg(i):
    return '%d %d %s' % i


def from_rows(rows):
    return img(len(rows[0]), len(rows), ''.join(rows))


def exhaustive(max_area, max_w=None, max_h=None, min_area=1):
    """Every image of an area from min_area to max_area."""
    for a in range(min_area, max_area + 1):
        for w in range(1, a + 1):
            if a % w or (max_w and w > max_w) or (max_h and a // w > max_h):
                continue
            for n in range(1 << a):
                yield (w, a // w, ''.join('x' if n >> i & 1 else '-' for i in range(a)))


def grid(w, h, v='-'):
    return [[v] * w for _ in range(h)]


def pack(g):
    return from_rows([''.join(r) for r in g])


def noise(r, w, h, p):
    return (w, h, ''.join('x' if r.random() < p else '-' for _ in range(w * h)))


def blobs(r, w, h):
    g = grid(w, h)
    for _ in range(r.randint(1, 5)):
        k = r.randrange(5)
        v = 'x' if r.random() < .8 else '-'
        x0, x1 = sorted(r.randrange(w) for _ in range(2))
        y0, y1 = sorted(r.randrange(h) for _ in range(2))
        if k == 0:
            for y in range(y0, y1 + 1):
                for x in range(x0, x1 + 1):
                    g[y][x] = v
        elif k == 1:
            for x in range(x0, x1 + 1):
                g[y0][x] = g[y1][x] = v
            for y in range(y0, y1 + 1):
                g[y][x0] = g[y][x1] = v
        elif k == 2:
            n = max(x1 - x0, y1 - y0, 1)
            for i in range(n + 1):
                g[y0 + (y1 - y0) * i // n][x0 + (x1 - x0) * i // n] = v
        elif k == 3:
            n = max(x1 - x0, y1 - y0, 1)
            for i in range(n + 1):
                g[y1 - (y1 - y0) * i // n][x0 + (x1 - x0) * i // n] = v
        else:
            cx, cy, a, b = (x0 + x1) / 2, (y0 + y1) / 2, (x1 - x0) / 2 + .5, (y1 - y0) / 2 + .5
            for y in range(h):
                for x in range(w):
                    d = ((x - cx) / a) ** 2 + ((y - cy) / b) ** 2
                    if d <= 1 and (d >= .4 or v == '-'):
                        g[y][x] = v
    return pack(g)


def spiral(w, h, bg='-', fg='x'):
    """A one-pixel wide wall which turns around a one-pixel wide corridor."""
    g = grid(w, h, bg)
    x, y, dx, dy = 0, 0, 1, 0
    seen = set()
    for _ in range(w * h * 2):
        g[y][x] = fg
        seen.add((x, y))
        nx, ny = x + dx, y + dy
        nnx, nny = x + 2 * dx, y + 2 * dy
        ok = 0 <= nx < w and 0 <= ny < h and (nx, ny) not in seen and (nnx, nny) not in seen
        if not ok:
            dx, dy = -dy, dx
            nx, ny = x + dx, y + dy
            nnx, nny = x + 2 * dx, y + 2 * dy
            if not (0 <= nx < w and 0 <= ny < h) or (nx, ny) in seen or (nnx, nny) in seen:
                break
        x, y = nx, ny
    return pack(g)


def turn(i):
    w, h, p = i
    return (h, w, ''.join(p[y * w + (w - 1 - x)] for x in range(w) for y in range(h)))


def flip(i):
    w, h, p = i
    return (w, h, ''.join(p[y * w:(y + 1) * w][::-1] for y in range(h)))


def negative(i):
    return (i[0], i[1], ''.join('-' if c == 'x' else 'x' for c in i[2]))


def comb(w, h, n=1):
    g = grid(w, h)
    for x in range(0, w, n + 1):
        for y in range(h):
            g[y][x] = 'x'
    for x in range(w):
        g[h - 1][x] = 'x'
    return pack(g)


def double_comb(w, h):
    """Two combs which interpenetrate: a serpentine corridor."""
    g = grid(w, h)
    for k, x in enumerate(range(0, w, 2)):
        for y in range(h):
            if not (y == 0 and k % 2 and h > 1) and not (y == h - 1 and not k % 2 and h > 1):
                g[y][x] = 'x'
    return pack(g)


def nested(w, h):
    g = grid(w, h)
    for k in range(0, (min(w, h) + 1) // 2, 2):
        for x in range(k, w - k):
            g[k][x] = g[h - 1 - k][x] = 'x'
        for y in range(k, h - k):
            g[y][k] = g[y][w - 1 - k] = 'x'
    return pack(g)


def checker(w, h, n=1, o=0):
    return (w, h, ''.join('x' if (x // n + y // n + o) % 2 else '-' for y in range(h) for x in range(w)))


def holes(w, h):
    """Enclosed areas of one pixel, in all the ink."""
    return (w, h, ''.join('-' if x % 2 and y % 2 and x < w - 1 and y < h - 1 else 'x'
                          for y in range(h) for x in range(w)))


def rowbars(r, w, h):
    full = [r.random() < .5 for _ in range(h)]
    return (w, h, ''.join(('x' * w) if f else ''.join(r.choice('x-') for _ in range(w)) for f in full))


def special(w, h):
    out = [(w, h, 'x' * (w * h)), (w, h, '-' * (w * h)), checker(w, h), checker(w, h, 1, 1), checker(w, h, 2),
           spiral(w, h), comb(w, h), double_comb(w, h), nested(w, h), holes(w, h)]
    out += [negative(spiral(w, h)), flip(spiral(w, h)), negative(nested(w, h)), turn(comb(h, w)),
            turn(double_comb(h, w)), turn(turn(turn(comb(h, w)))), turn(spiral(h, w)), turn(turn(spiral(w, h)))]
    for x, y in {(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (w // 2, h // 2), (w // 2, 0), (0, h // 2)}:
        g = grid(w, h)
        g[y][x] = 'x'
        out.append(pack(g))
        out.append(negative(pack(g)))
    return out


def any_image(r, w=None, h=None, lo=1, hi=24):
    w = w or r.randint(lo, hi)
    h = h or r.randint(lo, hi)
    k = r.randrange(10)
    if k < 3:
        return noise(r, w, h, r.choice((.05, .2, .35, .5, .65, .8, .95)))
    if k < 7:
        return blobs(r, w, h)
    if k == 7:
        return rowbars(r, w, h)
    if k == 8:
        return r.choice(special(w, h))
    i = list(r.choice(special(w, h))[2])
    for _ in range(r.randint(1, 3)):
        n = r.randrange(w * h)
        i[n] = '-' if i[n] == 'x' else 'x'
    return (w, h, ''.join(i))


_glyphs = None


def shipped():
    """Images of the shipped glyph file, with their views."""
    global _glyphs
    if _glyphs is None:
        _glyphs = []
        try:
            t = open(REPO + '/resources/glyphs/normalized-glyphs-latin.txt', errors='surrogateescape').read().split()
        except OSError:
            t = []
        i = 0
        while i < len(t):
            n = int(t[i + 3])
            _glyphs.append(((int(t[i]), int(t[i + 1]), t[i + 2]),
                            [tuple(t[i + 4 + 3 * k:i + 7 + 3 * k]) for k in range(n)]))
            i += 4 + 3 * n
    return _glyphs


def nearby(r, i, n=None):
    """An image which looks like i."""
    w, h, p = i
    p = list(p)
    for _ in range(n if n is not None else r.randint(1, max(1, w * h // 40))):
        k = r.randrange(w * h)
        p[k] = '-' if p[k] == 'x' else 'x'
    if r.random() < .3:
        y = r.randrange(h)
        p = p[:y * w] + p[y * w:(y + 1) * w] + p[y * w:]
        h += 1
    return (w, h, ''.join(p))


def hjoin(items, gaps, h=None, align=None, first=0, last=0):
    """A line: images put side by side, gaps[k] blank columns before item k+1."""
    h = h or max(i[1] for i in items)
    rows = [''] * h
    for k, i in enumerate(items):
        g = first if k == 0 else gaps[k - 1]
        off = (align[k] if align else 0)
        for y in range(h):
            rows[y] += '-' * g
            rows[y] += i[2][(y - off) * i[0]:(y - off + 1) * i[0]] if 0 <= y - off < i[1] else '-' * i[0]
    return from_rows([x + '-' * last for x in rows])
