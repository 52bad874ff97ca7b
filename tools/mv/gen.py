"""Problem generators.  All randomness comes from the seed."""
import math, random, itertools

# ---------------------------------------------------------------- random


def rand_literal(r, dom, neg):
    v = r.randrange(len(dom)) + 1
    return (v, 0 if r.random() < neg else 1, r.randrange(dom[v - 1]))


def tiny(r):
    """Anything goes: units, empty clauses, repeated literals, tautologies, one-valued variables."""
    nv = r.randint(1, 5)
    dom = [r.choice([1, 2, 2, 3, 3, 4]) for _ in range(nv)]
    neg = r.choice([0.1, 0.3, 0.5, 0.7, 0.9])
    m = r.randint(1, 12) if r.random() > 0.01 else 0
    cls = []
    for _ in range(m):
        ln = r.choice([1, 2, 2, 2, 3, 3, 4]) if r.random() > 0.01 else 0
        cls.append([rand_literal(r, dom, neg) for _ in range(ln)])
    return dom, cls


def threshold(r, nv=None, sizes=(2, 3, 4), ratio=None, length=None, neg=None):
    """Random clauses around the satisfiability threshold: many conflicts."""
    nv = nv or r.randint(4, 8)
    dom = [r.choice(sizes) for _ in range(nv)]
    if max(dom) == 1:
        dom[0] = 2
    neg = r.choice([0.0, 0.15, 0.3, 0.5, 0.8]) if neg is None else neg
    length = length or r.choice([2, 3, 3, 4])
    ratio = ratio or r.uniform(0.6, 1.5)
    need = sum(math.log(d) for d in dom) * ratio
    cls, acc = [], 0.0
    while acc < need and len(cls) < 150:
        ln = max(1, length + r.choice([-1, 0, 0, 0, 1]))
        vs = r.sample(range(1, nv + 1), min(ln, nv))
        c = []
        p = 1.0
        for v in vs:
            d = dom[v - 1]
            e = 0 if r.random() < neg else 1
            c.append((v, e, r.randrange(d)))
            p *= (1 - 1.0 / d) if e else (1.0 / d)
        if len(c) == 1 and r.random() < 0.8:
            continue
        cls.append(c)
        acc += -math.log(1 - p) if p < 1 else need
    return dom, cls


def planted(r, nv, sizes, m, length, neg):
    dom = [r.choice(sizes) for _ in range(nv)]
    sol = [r.randrange(d) for d in dom]
    cls = []
    while len(cls) < m:
        vs = r.sample(range(nv), min(length, nv))
        c = []
        for v in vs:
            c.append((v + 1, 0 if r.random() < neg else 1, r.randrange(dom[v])))
        if any((sol[v - 1] == d) == bool(e) for v, e, d in c):
            cls.append(c)
    return dom, cls


# ---------------------------------------------------------------- structured


def php(n, holes=None):
    holes = holes or n - 1
    dom = [holes] * n
    return dom, [[(i, 0, h), (j, 0, h)] for i in range(1, n + 1) for j in range(i + 1, n + 1) for h in range(holes)]


def queens(n):
    dom = [n] * n
    cls = []
    for i in range(n):
        for j in range(i + 1, n):
            for a in range(n):
                for b in range(n):
                    if a == b or abs(a - b) == j - i:
                        cls.append([(i + 1, 0, a), (j + 1, 0, b)])
    return dom, cls


def colouring(r, n, k, edges):
    dom = [k] * n
    pairs = r.sample(list(itertools.combinations(range(1, n + 1), 2)), min(edges, n * (n - 1) // 2))
    return dom, [[(a, 0, c), (b, 0, c)] for a, b in pairs for c in range(k)]


def sums(r, n, d):
    """v[i+1] = v[i] + const mod d along a cycle: long propagation chains."""
    dom = [d] * n
    cls = []
    tot = 0
    for i in range(n):
        s = r.randrange(d)
        if i == n - 1 and r.random() < 0.5:
            s = (-tot) % d
        tot += s
        j = (i + 1) % n
        for a in range(d):
            cls.append([(i + 1, 0, a), (j + 1, 1, (a + s) % d)])
    r.shuffle(cls)
    return dom, cls


def parity(r, n):
    """Random xor constraints over two-valued variables: deep resolution."""
    dom = [2] * n
    cls = []
    for _ in range(n + r.randint(-1, 1)):
        vs = r.sample(range(1, n + 1), 3)
        rhs = r.randrange(2)
        for bitsv in itertools.product((0, 1), repeat=3):
            if sum(bitsv) % 2 != rhs:
                cls.append([(v, 0, b) if r.random() < 0.5 else (v, 1, 1 - b) for v, b in zip(vs, bitsv)])
    return dom, cls


def layered(r, blocks):
    """Independent blocks, each refutable only after trying: decisions of early
    blocks survive backjumps in later ones, so several levels are in play."""
    dom, cls = [], []
    for b in range(blocks):
        off = len(dom)
        sz = r.randint(3, 4)
        d = r.randint(2, 3)
        dom += [d] * sz
        sub = threshold(r, nv=sz, sizes=(d,), ratio=r.uniform(0.5, 0.9), length=2, neg=r.choice([0.3, 0.6]))[1]
        cls += [[(v + off, e, x) for v, e, x in c] for c in sub if len(c) > 1]
    # sparse long links
    for _ in range(r.randint(1, 4)):
        vs = r.sample(range(1, len(dom) + 1), min(4, len(dom)))
        cls.append([(v, r.randrange(2), r.randrange(dom[v - 1])) for v in vs])
    r.shuffle(cls)
    return dom, cls


def units(r):
    nv = r.randint(2, 6)
    dom = [r.randint(1, 5) for _ in range(nv)]
    cls = [[rand_literal(r, dom, 0.7)] for _ in range(r.randint(1, 2 * nv))]
    cls += [[rand_literal(r, dom, 0.5) for _ in range(r.randint(2, 3))] for _ in range(r.randint(0, 6))]
    r.shuffle(cls)
    return dom, cls


def wide(r, d=None):
    """Wide domains, long clauses, values of two digits."""
    nv = r.randint(2, 4)
    d = d or r.choice([11, 12, 16, 20])
    dom = [d] * nv
    cls = []
    for _ in range(r.randint(2, 8)):
        vs = r.sample(range(1, nv + 1), 2)
        c = []
        for v in vs:
            c += [(v, 1, x) for x in r.sample(range(d), r.randint(1, d // 3))]
        r.shuffle(c)
        cls.append(c)
    for _ in range(r.randint(d, 3 * d)):
        vs = r.sample(range(1, nv + 1), min(nv, r.choice([1, 2, 2, 2])))
        cls.append([(v, 0, r.randrange(d)) for v in vs])
    return dom, cls


def long_clauses(r, sizes=(130, 140, 258, 270, 300), limit64=False):
    """Clauses of hundreds of literals of which the search falsifies nearly all; or domains of hundreds of values;
    with a small core that needs decisions and conflicts.  Sizes lie beyond what one byte can count."""
    core_dom, core = threshold(r, nv=r.randint(3, 5), ratio=r.uniform(0.6, 1.1))
    k = len(core_dom)
    if r.random() < 0.25 and not limit64:
        d = r.choice(sizes)
        dom = core_dom + [d, d]
        v, w = k + 1, k + 2
        keep = r.sample(range(d), r.randint(1, 3))
        cls = [[(v, 0, x)] for x in range(d) if x not in keep]
        cls.append([(v, 1, x) for x in range(d)] + [(w, 1, 0)])
        cls += [[(v, 0, x), (w, r.randrange(2), r.randrange(d)), (1, r.randrange(2), 0)] for x in keep]
        cls.append([(w, 1, x) for x in r.sample(range(d), d - r.randint(1, d // 2))])
        return shrink_relabel(r, (dom, core + cls))
    n = r.choice(sizes)
    dom = core_dom + [r.choice([2, 2, 3]) for _ in range(n - k)]
    sol = [r.randrange(d) for d in dom]

    def false_literal(v):
        d = dom[v - 1]
        e = r.randrange(2) if d > 2 else 1
        x = sol[v - 1] if e == 0 else r.choice([y for y in range(d) if y != sol[v - 1]])
        return (v, e, x)

    vs = list(range(k + 1, n + 1))
    r.shuffle(vs)
    cls = list(core)
    for _ in range(r.choice([1, 1, 2])):
        c = [false_literal(v) for v in vs] + [(r.randint(1, k), r.randrange(2), 0) for _ in range(r.randint(0, 2))]
        r.shuffle(c)
        cls.append(c)
    # falsify them: by units, by a chain that starts with one decision, or leave some to decisions
    free = r.choice([0, 1, 2, 5])
    prev = r.choice(vs)
    for x, v in enumerate(vs[free:]):
        if r.random() < 0.7:
            cls.append([(v, 1, sol[v - 1])])
        else:
            cls.append([(prev, 0, sol[prev - 1]), (v, 1, sol[v - 1])])
        prev = v
    r.shuffle(cls)
    return dom, cls


def huge(r, alg, n=33000):
    """(problem, heuristic): numbers beyond what two bytes can count; satisfiable.  Cheap for the real programs only
    with the right heuristic."""
    x = r.randrange(3)
    if x == 0 and alg != "bv" and alg != "wl":      # as many decision levels
        return ([3] * n, [[(v, 1, 0), (v, 1, 1)] for v in range(1, n + 1)]), "lazy"
    if x <= 1:                       # a clause with as many literals, nearly all of them false
        u = n - r.randint(1, 3) if alg != "wl" else 300
        return ([2] * n, [[(v, 1, 1) for v in range(1, n + 1)]] + [[(v, 0, 1)] for v in range(1, u + 1)]), \
            ("lazy" if alg == "ch" else None)
    if r.random() < 0.4:
        n *= 2
    dom = [3] * 12                   # as many clauses
    sol = [r.randrange(3) for _ in dom]
    cls = []
    while len(cls) < n:
        c = [(v, r.randrange(2), r.randrange(3)) for v in r.sample(range(1, 13), 3)]
        if any((sol[v - 1] == d) == bool(e) for v, e, d in c):
            cls.append(c)
    return (dom, cls), None


def late(r, n=66000):
    """The clauses that matter come after more than two bytes can count; satisfiable."""
    dom, core = planted(r, r.randint(6, 14), (2, 3), r.randint(20, 45), r.choice([2, 3]), r.choice([0.2, 0.5, 0.9]))
    k = len(dom)
    fill = [[(k + 1, 1, 0)]] + [[(k + 1, 1, 0), (r.randint(k + 2, k + 30), r.randrange(2), r.randrange(2))]
                                for _ in range(n)]
    return list(dom) + [2] * 30, fill + core


def embed(r, p, limit64=False):
    """The same problem with each domain spread over a wide one, at distances where packed keys and words wrap."""
    dom, cls = p
    nd, at = [], []
    for d in dom:
        size = r.choice([33, 40, 63, 64] if limit64 or r.random() < 0.7 else [65, 70, 100, 130, 200, 257, 300])
        o = r.choice([0, 0, 0, 1, r.randrange(size)])
        cand = [o + s for s in (0, 1, 2, 10, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 256) if o + s < size]
        while len(cand) < d:
            x = r.randrange(size)
            if x not in cand:
                cand.append(x)
        nd.append(size)
        at.append(r.sample(cand, d))
    out = [[(v, e, at[v - 1][x]) for v, e, x in c] for c in cls]
    for v in range(1, len(dom) + 1):
        if r.random() < 0.8:
            out.append([(v, 1, x) for x in at[v - 1]])
        else:
            out += [[(v, 0, x)] for x in range(nd[v - 1]) if x not in at[v - 1]]
    return nd, out


def deep(r, heur, k=None, sat=False):
    """More than 256 decisions come before a core with conflicts."""
    k = k or r.randint(257, 290)
    core = r.choice([lambda: planted(r, r.randint(5, 7), (2, 3), r.randint(12, 24), 2, 1.0)] if sat else
                    [lambda: php(r.randint(3, 4)), lambda: colouring(r, r.randint(4, 6), r.choice([2, 3]), 9),
                     lambda: threshold(r, nv=r.randint(4, 6), neg=1.0, ratio=r.uniform(0.7, 1.1)),
                     lambda: (lambda n: (php(n)[0] * 2, php(n)[1] + [[(v + n, e, x) for v, e, x in c] for c in php(n)[1]]))(3)])()
    dom, cls = core
    n = len(dom)
    occ = {}
    for c in cls:
        for l in c:
            occ[l] = occ.get(l, 0) + 1
    m = 1
    if heur.startswith("vsids"):
        m = min(9, max(occ.values()) * (2 if heur == "vsids_pos" else 1) + 1)
    # a pad is decided, and then its clauses are satisfied
    pads = [[(v, 1, 1), (v, 1, 0)] for v in range(n + 1, n + k + 1) for _ in range(m)]
    return list(dom) + [3] * k, pads + cls


def hard(r):
    """Hundreds to thousands of conflicts."""
    x = r.random()
    if x < 0.5:
        return shrink_relabel(r, php(r.choice([6, 7, 7])))
    if x < 0.75:
        return shrink_relabel(r, parity(r, r.randint(12, 16)))
    return threshold(r, nv=r.randint(14, 18), sizes=(3, 4), ratio=r.uniform(0.95, 1.2), length=3)


def shrink_relabel(r, p):
    """The same problem with variables, values and clause order permuted."""
    dom, cls = p
    n = len(dom)
    vp = list(range(n)); r.shuffle(vp)
    xp = [r.sample(range(d), d) for d in dom]
    nd = [0] * n
    for i, d in enumerate(dom):
        nd[vp[i]] = d
    nc = [[(vp[v - 1] + 1, e, xp[v - 1][d]) for v, e, d in c] for c in cls]
    r.shuffle(nc)
    for c in nc:
        r.shuffle(c)
    return nd, nc


def mixed(r):
    """One problem of a random family, moderate size, conflicts likely."""
    x = r.random()
    if x < 0.20:
        return tiny(r)
    if x < 0.50:
        return threshold(r)
    if x < 0.56:
        return shrink_relabel(r, php(r.randint(3, 4)))
    if x < 0.62:
        return shrink_relabel(r, queens(r.choice([3, 4, 4])))
    if x < 0.70:
        n = r.randint(4, 6)
        return shrink_relabel(r, colouring(r, n, r.choice([2, 3]), r.randint(n, 2 * n)))
    if x < 0.76:
        return sums(r, r.randint(3, 5), r.randint(2, 4))
    if x < 0.82:
        return shrink_relabel(r, parity(r, r.randint(4, 6)))
    if x < 0.92:
        return layered(r, r.randint(2, 3))
    if x < 0.96:
        return units(r)
    return wide(r)


def conflicts(r):
    """Families that make non-chronological search learn and backjump."""
    x = r.random()
    if x < 0.45:
        return threshold(r, nv=r.randint(5, 8), ratio=r.uniform(0.8, 1.3))
    if x < 0.55:
        return shrink_relabel(r, php(r.choice([3, 4, 4, 5])))
    if x < 0.62:
        return shrink_relabel(r, queens(r.choice([4, 5])))
    if x < 0.70:
        n = r.randint(5, 7)
        return shrink_relabel(r, colouring(r, n, 3, r.randint(2 * n - 2, 3 * n)))
    if x < 0.80:
        return shrink_relabel(r, parity(r, r.randint(5, 7)))
    return layered(r, r.randint(2, 4))
