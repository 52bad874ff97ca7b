"""Checks of the search properties: C01-C13 (src) and C22-C25 (bitvec)."""
import random
from . import build, core, design, gen, solver
from .core import Job
from .solver import Config, SRC_CONFIGS, BV_CONFIGS

NC = [c for c in SRC_CONFIGS if c.alg in ("nc", "wl")]
CH = [c for c in SRC_CONFIGS if c.alg == "ch"]
KS = (0, 1, 2, 3, 4, 5, 7, 10)


def pick_cfg(r, algs, restarts=0.5, k=None):
    """A configuration, chosen so that every (algorithm, heuristic) pair is common."""
    alg = r.choice(algs)
    heur = r.choice({"nc": ["bk", "vsids", "vsids_pos", "lazy"], "wl": ["vsids", "vsids_pos", "lazy"],
                     "ch": ["bk", "lazy"], "bv": ["vsids_set", "lazy"]}[alg])
    if alg == "ch":
        return Config(alg, heur)
    if k is None:
        k = r.choice(KS[1:]) if r.random() < restarts else 0
    return Config(alg, heur, k)


def jobs_of(r, n, family, algs, restarts=0.5, **kw):
    out = []
    for _ in range(n):
        p = family(r)
        out.append(Job(p, pick_cfg(r, algs, restarts), **kw))
    return out


SRC = ["nc", "nc", "wl", "wl", "ch"]
NCS = ["nc", "wl"]


def big_sat(r):
    """Large satisfiable problems (built around a solution), run without log."""
    x = r.random()
    if x < 0.3:
        return gen.planted(r, r.randint(30, 60), (2, 3, 4), r.randint(60, 160), 3, r.choice([0.2, 0.5]))
    if x < 0.5:
        return gen.planted(r, r.randint(100, 130), (2, 3), r.randint(100, 200), 3, 0.5)
    if x < 0.65:
        return gen.planted(r, r.randint(8, 15), (12, 20, 30), r.randint(40, 80), 3, 0.6)
    if x < 0.8:
        return gen.planted(r, 12, (25,), 30, 3, 0.5)
    if x < 0.9:
        return gen.shrink_relabel(r, gen.queens(r.choice([5, 6, 7])))
    # long clauses: lines of several thousand characters
    n = r.randint(200, 300)
    p = gen.planted(r, n, (11, 12), 6, n, 0.0)
    return p


def unsat_big(r):
    x = r.random()
    if x < 0.4:
        return gen.shrink_relabel(r, gen.php(r.choice([5, 6])))
    if x < 0.7:
        return gen.threshold(r, nv=r.randint(8, 10), ratio=r.uniform(1.3, 2.0), length=3)
    n = r.randint(6, 8)
    return gen.shrink_relabel(r, gen.colouring(r, n, 3, 3 * n))


def boundary(r, limit64=False):
    """Sizes at which buffers, digits and words change over."""
    x = r.randrange(5)
    if x == 0:      # value and variable numbers of two and three digits
        n = r.choice([9, 10, 11, 99, 100, 101])
        d = 2 if n > 20 else r.choice([2, 10, 11])
        dom = [d] * n
        cls = [[(n, 0, 0)], [(n, 1, d - 1), (n - 1, 1, d - 1)], [(n - 1, 1, 0), (1, 0, d - 1), (n, 1, d - 1)]]
        cls += [[(v, 0, d - 1), (v + 1, 1, d - 1)] for v in range(1, min(n, 12))]
        return dom, cls
    if x == 1:      # domain of one or many values
        d = r.choice([1, 2, 31, 32, 33, 63, 64] if limit64 else [1, 2, 63, 64, 65, 100, 101])
        dom = [d, d, 2]
        cls = [[(1, 0, x) for x in range(d)][:1] + [(2, 1, d - 1)], [(2, 1, d - 1), (3, 1, 1)],
               [(1, 0, d - 1), (2, 0, d - 1), (3, 0, 1)], [(3, 1, 1), (1, 1, 0)]]
        return dom, cls
    if x == 2:      # every value of a wide domain excluded but one (or none)
        d = r.choice([12, 30, 63, 64])
        keep = r.randrange(d)
        cls = [[(1, 0, v)] for v in range(d) if v != keep]
        if r.random() < 0.5:
            cls.append([(1, 0, keep), (2, 1, 1)])
            cls.append([(2, 0, 1), (2, 1, 0)])
        return [d, 2], cls
    if x == 3:      # long clause
        n = r.choice([30, 100, 300])
        dom = [3] * n
        cls = [[(v, 1, 2) for v in range(1, n + 1)]] + [[(v, 0, 2)] for v in range(2, min(n, 40) + 1)]
        return dom, cls
    n = r.choice([20, 40])    # long chain
    dom = [3] * n
    cls = [[(1, 1, 1)]] + [[(v, 0, 1), (v + 1, 1, 1)] for v in range(1, n)]
    if r.random() < 0.5:
        cls.append([(n, 0, 1)])
    r.shuffle(cls)
    return dom, cls


def dup_jobs(jobs, **changes):
    out = []
    for j in jobs:
        k = Job(j.problem, j.cfg, j.log, j.oracle, j.env, j.kind, j.args, j.text, j.tag)
        for a, b in changes.items():
            setattr(k, a, b)
        out.append(k)
    return out


def scale(chk, quick, thorough):
    return thorough if chk.thorough() else quick


# ------------------------------------------------------------------ per property


def verdict_jobs(chk, algs):
    """For C01, C02, C03, C22, C23."""
    r = chk.rng
    bv = algs == ["bv"]
    n = scale(chk, 260, 6000)
    jobs = []
    # every configuration on shared problems
    cfgs = BV_CONFIGS if bv else SRC_CONFIGS
    for _ in range(scale(chk, 12, 200)):
        p = gen.tiny(r) if r.random() < 0.5 else gen.threshold(r, nv=r.randint(3, 6))
        jobs += [Job(p, c, log=False) for c in cfgs]
    jobs += jobs_of(r, n, gen.tiny, algs, log=False)
    jobs += jobs_of(r, n, gen.mixed, algs, log=False)
    jobs += jobs_of(r, n, gen.conflicts, algs, log=False)
    jobs += jobs_of(r, n // 4, gen.mixed, algs, log=True)
    jobs += jobs_of(r, n // 6, lambda q: boundary(q, bv), algs, log=False)
    jobs += jobs_of(r, n // 6, lambda q: gen.long_clauses(q, limit64=bv), algs, log=False)
    jobs += jobs_of(r, n // 3, lambda q: gen.embed(q, gen.conflicts(q), bv), algs, log=False)
    jobs += huge_jobs(r, scale(chk, 3, 24), algs)
    jobs += [Job(gen.late(r), pick_cfg(r, [a], 0.3), log=False, oracle="sat", tag="late")
             for a in algs for _ in range(scale(chk, 4, 12))]
    jobs += jobs_of(r, n // 10, gen.hard, [a for a in algs if a != "ch"], log=False, oracle="none")
    # the specification's own problems: all of the small ones, and of the larger ones some or all
    jobs += corpus_jobs(chk, algs, "small", None, False)
    jobs += corpus_jobs(chk, algs, "large", scale(chk, 2500, None), False, scale(chk, 1, 3))
    # satisfiable by construction, around the threshold: cheap to run, cheap to judge
    jobs += jobs_of(r, scale(chk, 3500, 60000), planted, algs, log=False, oracle="sat")
    return jobs


def corpus_jobs(chk, algs, kind, n, log, times=1):
    r = chk.rng
    ps = design.problems(kind, r, n)
    chk.count("problems_enumerated_by_the_specification", len(ps))
    return [Job(p, pick_cfg(r, [r.choice(algs)], 0.4), log=log, tag="corpus") for _ in range(times) for p in ps]


def planted(r):
    nv = r.randint(3, 14)
    sizes = r.choice([(2, 3, 4), (3,), (2, 3), (4, 5), (1, 2, 3, 4, 5)])
    return gen.planted(r, nv, sizes, int(nv * r.uniform(0.5, 6)), r.choice([2, 3, 3, 4]), r.choice([0.0, 0.2, 0.5, 0.7, 0.9]))


def huge_jobs(r, n, algs):
    out = []
    for _ in range(n):
        cfg = pick_cfg(r, algs, 0.3)
        p, heur = gen.huge(r, cfg.alg)
        if heur:
            cfg.heur = heur
        out.append(Job(p, cfg, log=False, oracle="sat", tag="huge"))
    return out


def c01(chk):
    r = chk.rng
    jobs = verdict_jobs(chk, SRC)
    jobs += jobs_of(r, scale(chk, 60, 900), unsat_big, NCS, log=True, oracle="cert")
    jobs += jobs_of(r, scale(chk, 150, 1200), big_sat, NCS, log=False, oracle="sat")
    core.check_search(chk, jobs, max_events=4000)


def c02(chk):
    r = chk.rng
    jobs = verdict_jobs(chk, SRC)
    jobs += jobs_of(r, scale(chk, 120, 1200), big_sat, NCS, log=False, oracle="sat")
    core.check_search(chk, jobs)


def c03(chk):
    r = chk.rng
    jobs = verdict_jobs(chk, SRC)
    jobs += jobs_of(r, scale(chk, 120, 1500), big_sat, NCS, log=False, oracle="sat")
    jobs += jobs_of(r, scale(chk, 60, 500), unsat_big, NCS, log=False, oracle="none")
    jobs += jobs_of(r, scale(chk, 30, 300), lambda q: boundary(q), SRC, log=True)
    # the same kinds of problem in a build that stops at the first invalid memory access
    for f in (gen.tiny, gen.mixed, gen.conflicts, boundary, big_sat):
        jobs += jobs_of(r, scale(chk, 60, 800), f, NCS if f is big_sat else SRC, log=False, oracle="none", kind="asan",
                        tag="asan")
    core.check_search(chk, jobs)


def search_jobs(chk, algs, quick, thorough, restarts=0.5):
    r = chk.rng
    design.search_model(chk)
    n = scale(chk, quick, thorough)
    jobs = jobs_of(r, n, gen.conflicts, algs, restarts)
    jobs += jobs_of(r, n // 2, gen.mixed, algs, restarts)
    jobs += jobs_of(r, n // 4, gen.tiny, algs, restarts)
    jobs += jobs_of(r, n // 10, lambda q: boundary(q, True), algs, restarts)
    jobs += jobs_of(r, scale(chk, 8, 250), lambda q: gen.long_clauses(q, limit64="bv" in algs), algs, restarts)
    jobs += jobs_of(r, scale(chk, 70, 2000), lambda q: gen.embed(q, gen.conflicts(q), "bv" in algs), algs, restarts)
    jobs += deep_jobs(r, scale(chk, 5, 120), algs)
    jobs += corpus_jobs(chk, algs, "large", scale(chk, 1200, None), True)
    return jobs


def deep_jobs(r, n, algs, **kw):
    out = []
    for _ in range(n):
        cfg = pick_cfg(r, algs, 0.4)
        if cfg.k and cfg.k < 5:
            cfg.k += 5
        out.append(Job(gen.deep(r, cfg.heur, sat=cfg.alg == "ch"), cfg, tag="deep", **kw))
    return out


def generic(algs, quick=1100, thorough=24000, restarts=0.5, max_events=2500, heavy=0.0):
    def f(chk):
        jobs = search_jobs(chk, algs, quick, thorough, restarts)
        if heavy:
            jobs += jobs_of(chk.rng, scale(chk, int(quick * heavy), int(thorough * heavy)), unsat_big, algs, restarts)
        core.check_search(chk, jobs, max_events=max_events)
    return f


def c10(chk):
    r = chk.rng
    design.search_model(chk)
    jobs = []
    for _ in range(scale(chk, 900, 16000)):
        p = gen.conflicts(r)
        cfg = pick_cfg(r, NCS, 0.9)
        jobs.append(Job(p, cfg))
    # the same problem under every threshold: one verdict
    for _ in range(scale(chk, 25, 300)):
        p = gen.conflicts(r)
        base = pick_cfg(r, NCS, 0.0)
        for k in (0, 1, 2, 3, 5, 8, 13):
            jobs.append(Job(p, Config(base.alg, base.heur, k), log=False))
    jobs += jobs_of(r, scale(chk, 40, 400), unsat_big, NCS, 1.0, oracle="cert")
    jobs += jobs_of(r, scale(chk, 60, 600), gen.hard, NCS, 1.0, log=False, oracle="none")
    core.check_search(chk, jobs, max_events=3000)


# ------------------------------------------------------------------ time limit


def clock_program(r, limit):
    """When the fake clock moves, and by how much.  limit in ms, -1 for none."""
    steps = []
    if r.random() < 0.3:      # reading the file takes long: not part of the search
        steps.append((2, r.choice([limit + 1, 10 * max(limit, 1000), 999])))
    x = r.random()
    at = r.randint(6, r.choice([8, 15, 40]))
    if limit < 0:
        steps.append((at, 2_000_000))
    elif x < 0.25:
        steps.append((at, limit))                         # exactly the limit: not more than it
    elif x < 0.5:
        steps.append((at, limit + r.choice([1, 10, 500])))  # a little more
    elif x < 0.75:                                       # in several steps
        part = limit // 3
        for _ in range(4):
            steps.append((at, part + r.choice([0, 1, 500])))
            at += r.randint(1, 5)
    elif x < 0.9:
        steps.append((at, limit - 1))
    return ",".join("%d:%d" % s for s in steps)


def clock_jobs(chk, algs, n):
    r = chk.rng
    so = build.shim("clock")
    out = []
    for _ in range(n):
        p = r.choice([gen.conflicts, gen.conflicts, gen.mixed, lambda q: gen.planted(q, 12, (3, 4), 10, 2, 0.3)])(r)
        cfg = pick_cfg(r, algs, 0.4)
        cfg.limit = r.choice([1000, 2000, 5000, 7000, 60000, -1])
        env = {"LD_PRELOAD": so, "MVCLOCK": clock_program(r, cfg.limit), "MVTIME": str(r.choice([1000000000, 1751111111]))}
        out.append(Job(p, cfg, env=env, log=r.random() < 0.85, tag="clock " + env["MVCLOCK"]))
    return out


def c11(chk):
    jobs = clock_jobs(chk, SRC, scale(chk, 1100, 16000))
    core.check_search(chk, jobs)


# ------------------------------------------------------------------ bitset solver


def c22(chk):
    r = chk.rng
    jobs = verdict_jobs(chk, ["bv"])
    jobs += jobs_of(r, scale(chk, 120, 1200), lambda q: big_sat(q), ["bv"], log=False, oracle="sat")
    jobs += jobs_of(r, scale(chk, 60, 600), unsat_big, ["bv"], log=True, oracle="cert")
    for f in (gen.tiny, gen.mixed, gen.conflicts, lambda q: boundary(q, True), big_sat):
        jobs += jobs_of(r, scale(chk, 50, 600), f, ["bv"], log=False, oracle="none", kind="asan", tag="asan")
    # too large a domain is refused
    for d in (65, 66, 100, 128, 129, 1000):
        for place in range(3):
            dom = [3, 3, 3]
            dom[place] = d
            cls = [[(1, 1, 1), (2, 0, 1)], [(place + 1, 1, d - 1)]] if r.random() < 0.5 else [[(1, 1, 1)]]
            jobs.append(Job((dom, cls), pick_cfg(r, ["bv"]), log=r.random() < 0.3, oracle="refused"))
    core.check_search(chk, jobs, max_events=4000)


def c23(chk):
    r = chk.rng
    jobs = verdict_jobs(chk, ["bv"])
    jobs += jobs_of(r, scale(chk, 100, 1200), big_sat, ["bv"], log=False, oracle="sat")
    core.check_search(chk, jobs)


def c25(chk):
    jobs = search_jobs(chk, ["bv"], 700, 14000, 0.7)
    jobs += clock_jobs(chk, ["bv"], scale(chk, 400, 5000))
    r = chk.rng
    for _ in range(scale(chk, 15, 200)):
        p = gen.conflicts(r)
        h = r.choice(["vsids_set", "lazy"])
        for k in (0, 1, 2, 3, 5, 8):
            jobs.append(Job(p, Config("bv", h, k), log=False))
    jobs += jobs_of(r, scale(chk, 40, 400), gen.hard, ["bv"], 1.0, log=False, oracle="none")
    core.check_search(chk, jobs, max_events=2500)


CHECKS = {
    "C01": c01, "C02": c02, "C03": c03,
    "C04": generic(NCS), "C05": generic(SRC, heavy=0.03), "C06": generic(SRC),
    "C07": generic(NCS, heavy=0.03), "C08": generic(SRC, heavy=0.03), "C09": generic(["ch"], quick=900, thorough=16000),
    "C10": c10, "C11": c11, "C12": generic(SRC), "C13": generic(SRC),
    "C22": c22, "C23": c23, "C24": generic(["bv"], heavy=0.03), "C25": c25,
}
