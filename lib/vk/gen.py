"""Point sets on a lattice: integer coordinates in 1..S-1."""


def dedup(it, n, tries=200000):
    seen, out = set(), []
    if n <= 0:
        return out
    for p in it:
        tries -= 1
        if p not in seen:
            seen.add(p)
            out.append(p)
        if len(out) == n or tries < 0:
            break
    return out


def clamp(x, S):
    return min(max(int(x), 1), S - 1)


def uniform(r, n, S):
    def g():
        while True:
            yield (r.randrange(1, S), r.randrange(1, S), r.randrange(1, S))
    return dedup(g(), n)


def clustered(r, n, S):
    cs = [(r.randrange(1, S), r.randrange(1, S), r.randrange(1, S)) for _ in range(3)]
    w = max(S / 12.0, 2)

    def g():
        while True:
            c = r.choice(cs)
            yield tuple(clamp(r.gauss(x, w), S) for x in c)
    return dedup(g(), n)


def slab(r, n, S):
    """nearly flat: cells reach from wall to wall"""
    ax = r.randrange(3)
    lo = r.randrange(1, S - 4)

    def g():
        while True:
            p = [r.randrange(1, S) for _ in range(3)]
            p[ax] = lo + r.randrange(0, 3)
            yield tuple(p)
    return dedup(g(), n)


def walls(r, n, S):
    """most points hug the walls, edges and corners of the cube"""
    def g():
        while True:
            p = [r.randrange(1, S) for _ in range(3)]
            for a in range(3):
                t = r.random()
                if t < 0.3:
                    p[a] = 1
                elif t < 0.6:
                    p[a] = S - 1
            yield tuple(p)
    return dedup(g(), n)


def shell(r, n, S):
    """a point in the middle of a rough sphere: one cell with many faces"""
    c = S // 2
    rad = S * 0.36

    def g():
        yield (c, c + 1, c - 1)
        while True:
            v = [r.gauss(0, 1) for _ in range(3)]
            l = sum(x * x for x in v) ** 0.5 or 1
            q = rad * (1 + 0.04 * r.random())
            yield tuple(clamp(c + q * x / l, S) for x in v)
    return dedup(g(), n)


def skew(r, n, S):
    """dense at one corner, thin elsewhere"""
    def g():
        while True:
            yield tuple(1 + int((S - 2) * r.random() ** 4) for _ in range(3))
    return dedup(g(), n)


def rod(r, n, S):
    """along a diagonal"""
    def g():
        while True:
            t = r.randrange(1, S)
            yield tuple(clamp(t + r.gauss(0, 2), S) for _ in range(3))
    return dedup(g(), n)


KINDS = [uniform, clustered, slab, walls, shell, skew, rod]


def points(r, n, S, kind=None):
    kind = kind or r.choice(KINDS)
    pts = kind(r, n, S)
    r.shuffle(pts)
    return pts


# regular arrangements: ties and vertices of high degree everywhere
def degenerate(r, n, S):
    t = r.randrange(6)
    if t == 0:     # simple cubic grid
        m = max(2, round(n ** (1 / 3)))
        st = max(1, (S - 2) // m)
        return [(1 + st * x, 1 + st * y, 1 + st * z) for x in range(m) for y in range(m)
                for z in range(m) if max(x, y, z) * st + 1 < S]
    if t == 1:     # line
        return [(1 + i % (S - 1), S // 2, S // 2) for i in range(min(n, S - 1))]
    if t == 2:     # plane grid
        m = max(2, int(n ** 0.5))
        st = max(1, (S - 2) // m)
        return [(1 + st * x, 1 + st * y, S // 3) for x in range(m) for y in range(m)
                if max(x, y) * st + 1 < S]
    if t == 3:     # octahedra around a centre: cospherical
        c = S // 2
        out = {(c, c, c)}
        for d in range(1, max(2, n // 6)):
            for a in range(3):
                for s in (-1, 1):
                    q = [c, c, c]
                    q[a] += s * d
                    if 0 < min(q) and max(q) < S:
                        out.add(tuple(q))
        return sorted(out)
    if t == 4:     # mirror-symmetric set
        base = uniform(r, max(1, n // 2), S)
        return sorted(set(base) | {(S - x, y, z) for x, y, z in base})
    base = uniform(r, max(1, n // 3), S)   # coincident points
    return base + base + base[:n // 3]


# points in general position: arbitrary doubles, no ties in practice
def doubles(r, n, kind=None):
    kind = kind if kind is not None else r.randrange(5)

    def one():
        if kind == 0:
            return (r.random(), r.random(), r.random())
        if kind == 1:
            return tuple(r.random() ** 4 for _ in range(3))
        if kind == 2:
            t = r.random()
            return tuple(t + r.gauss(0, 0.03) for _ in range(3))
        if kind == 3:
            q = [r.random() for _ in range(3)]
            for a in range(3):
                t = r.random()
                if t < 0.2:
                    q[a] = q[a] * 1e-3
                elif t < 0.4:
                    q[a] = 1 - q[a] * 1e-3
            return tuple(q)
        c = centres[r.randrange(3)]
        return tuple(r.gauss(x, 0.05) for x in c)
    centres = [(r.random(), r.random(), r.random()) for _ in range(3)]
    out = []
    while len(out) < n:
        p = one()
        if all(1e-6 < x < 1 - 1e-6 for x in p):
            out.append(p)
    return out
