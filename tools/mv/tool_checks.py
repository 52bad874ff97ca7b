"""Checks of the converters (C16-C19): sessions of the real tools, judged by module MVConvert."""
import json, multiprocessing, os, random, re, itertools
from . import build, core, design, gen, solver, tlc, files
from .solver import Config


def scale(chk, quick, thorough):
    return thorough if chk.thorough() else quick


class Session:
    """One session: a scratch directory, the events, and the commands for the replay."""

    def __init__(self, n, tag=""):
        self.dir = os.path.join(build.scratch(), "s%d" % n)
        os.makedirs(self.dir, exist_ok=True)
        self.events = [{"e": "new"}]
        self.commands, self.texts, self.tag = [], {}, tag
        self.skip = False
        self.hangs = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def write_plain(self, name, text):
        with open(self.path(name), "w") as f:
            f.write(text)
        self.texts[name] = text

    def write(self, name, text):
        self.write_plain(name, text)
        self.events.append({"e": "write", "out": name, "lines": files.lex(text)})

    def read(self, name):
        try:
            with open(self.path(name), "rb") as f:
                t = f.read(8 << 20).decode("latin-1")
        except OSError:
            t = ""
        self.texts[name] = t
        return t

    def run(self, argv, which="src", kind="plain", timeout=20):
        r = solver.execute([build.program(which, kind)] + argv, timeout=timeout, cwd=self.dir)
        self.commands.append("%s %s   # exit %d" % (which, " ".join(argv), r.rc))
        self.hangs += r.timeout
        return r

    def convert(self, tool, src, out, kind="plain", probes=()):
        r = self.run(["-" + {"b2f": "b2f", "lin": "linenc", "quad": "quadenc"}[tool], "-file", src, "-model", out],
                     kind=kind)
        e = {"e": tool, "in": src, "out": out, "rc": r.rc, "lines": files.lex(self.read(out))}
        if tool == "lin":
            e["probes"] = [list(p) for p in probes]
        self.events.append(e)
        return e

    def solve(self, name, cfg, source="", decide=True, timeout=10):
        argv = cfg.args(name, False)
        r = self.run(argv, "bitvec" if cfg.alg == "bv" else "src", timeout=timeout)
        nv = sum(1 for l in self.texts[name].split("\n") if l.startswith("d"))
        p = solver.parse(r.out, ([10 ** 9] * nv, []), cfg.alg)
        v = p.verdicts[0] if len(p.verdicts) == 1 else "NONE"
        m = []
        if v == "SAT" and p.model is not None:
            d = {}
            for var, vals in p.model:
                if var >= 1 and len(vals) >= 1:
                    d[var] = vals[0]
            if sorted(d) == list(range(1, len(d) + 1)):
                m = [d[x] for x in sorted(d)]
        self.events.append({"e": "solve", "in": name, "rc": r.rc, "verdict": v, "model": m, "source": source,
                            "decide": decide})
        if r.timeout:
            self.skip = True       # too hard for the solver: nothing to say about the converter
        return v

    def close(self):
        import shutil
        shutil.rmtree(self.dir, True)

    def replay(self, at=None):
        f = {n.replace("/", "_"): t for n, t in self.texts.items()}
        f["commands.txt"] = "# in a directory with the files beside this one; src and bitvec are the solvers built from %s\n%s\n" % (
            build.REPO, "\n".join(self.commands))
        f["trace.ndjson"] = "".join(json.dumps(e) + "\n" for e in self.events)
        if at is not None:
            f["rejected.txt"] = "the specification rejects event %d of trace.ndjson:\n%s\n" % (
                at + 1, json.dumps(self.events[at])[:2000])
        return f


_makers, _hangs = [], None      # set just before the workers are forked


def _one(x):
    if _hangs.value >= 8:         # programs that do not stop: the sessions there are will do
        return x, None
    s = Session(x)
    _makers[x](s)
    s.close()
    if s.hangs:
        with _hangs.get_lock():
            _hangs.value += s.hangs
    return x, s


def run_sessions(makers, kinds=("plain",)):
    """makers: functions Session -> None."""
    global _makers, _hangs
    for k in kinds:
        build.program("src", k)
    build.program("bitvec")
    ctx = multiprocessing.get_context("fork")
    _makers, _hangs = makers, ctx.Value("i", 0)
    out = [None] * len(makers)
    with ctx.Pool(8) as pool:
        for x, s in pool.imap_unordered(_one, range(len(makers)), 4):
            out[x] = s
        pool.close()
        pool.join()
    _makers = []
    return [s for s in out if s is not None]


def judge(chk, module, sessions, timeout=500):
    keep = [s for s in sessions if not s.skip]
    chk.count("sessions_skipped", len(sessions) - len(keep))
    for s in keep:
        for e in s.events:
            chk.count("ev_" + e["e"])
    outs = []
    chk.begin_models()
    checked, rejected, undecided = tlc.check_batches(module, [s.events for s in keep], chk.prop, outs=outs,
                                                     timeout=timeout)
    for o in outs:
        chk.tlc_stats(o)
    chk.events += checked
    chk.traces += len(keep) - len(undecided)
    chk.undecided += len(undecided)
    for r, why in undecided[:2]:
        chk.notes.append("undecided session %s: %s" % (keep[r].commands, why[-300:]))
    for s in keep[:1] + keep[len(keep) // 2:len(keep) // 2 + 2]:
        chk.sample({"commands": s.commands, "files": {n: t[:300] for n, t in s.texts.items()}})
    for r, x in rejected[:3]:
        s = keep[r]
        try:
            ok, total = tlc.check_trace(module, s.events, chk.prop)
            okn, totaln = tlc.check_trace(module, s.events, "NONE")
        except tlc.TLCError:
            chk.undecided += 1
            continue
        if ok >= total or okn < totaln:
            chk.undecided += 1
            continue
        e = s.events[ok]
        chk.violation("%s: %s" % (s.commands[-1] if s.commands else s.tag, json.dumps(e)[:400]), s.replay(ok))


# ------------------------------------------------------------------ problems


def boolean(r, nv=None, m=None):
    nv = nv or r.choice([1, 2, 3, 4, 5, 6, 9, 10, 11])
    m = (r.randint(1, 3 * nv + 2) if r.random() > 0.02 else 0) if m is None else m
    cls = []
    for _ in range(m):
        ln = r.choice([1, 2, 2, 3, 3, 3, 4, 5]) if r.random() > 0.02 else 0
        cls.append([r.choice([-1, 1]) * r.randint(1, nv) for _ in range(ln)])
    return nv, cls


def boolean_case(r, chk):
    x = r.random()
    comments = []
    if r.random() < 0.4:
        comments = r.sample(["hello", "p cnf 3 3", "d 1 7", "1 -2 0", "", "x" * 3000, "c", "%d=1 0" % r.randint(1, 5)],
                            r.randint(1, 3))
    if x < 0.6:
        nv, cls = boolean(r)
    elif x < 0.7:      # variables of the header that no clause uses
        nv, cls = boolean(r)
        nv += r.randint(1, 4)
    elif x < 0.8:      # variables in descending and sparse order
        nv = r.randint(5, 30)
        vs = sorted(r.sample(range(1, nv + 1), 4), reverse=True)
        cls = [[v if r.random() < .5 else -v for v in vs[k:k + 2]] for k in range(4)]
    elif x < 0.9:      # many variables, long clause
        nv = r.choice([99, 100, 101, 150, 300])
        cls = [[r.choice([-1, 1]) * v for v in range(1, nv + 1)]] + boolean(r, nv, 12)[1]
        if r.random() < 0.5:
            r.shuffle(cls[0])
    else:              # hard enough to be unsatisfiable
        nv = r.randint(3, 5)
        cls = [[r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), min(3, nv))] for _ in range(8 * nv)]
    text = files.boolean_text(nv, cls, comments)
    return nv, cls, text


def c16(chk):
    r = chk.rng
    mk = []
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 1500, 30000))]

    def maker(seed):
        def f(s):
            q = random.Random(seed)
            nv, cls, text = boolean_case(q, chk)
            if q.random() < 0.2:
                text = layout(q, text, clause_lines_whole=True)
            s.write("b.cnf", text)
            s.convert("b2f", "b.cnf", "f.cnf", kind="asan" if q.random() < 0.1 else "plain")
            small = nv <= 12 and len(cls) <= 40
            from .search_checks import pick_cfg
            for algs in (["nc", "wl", "ch"], ["bv"]):
                if nv <= 12 or q.random() < 0.5:
                    s.solve("f.cnf", pick_cfg(q, algs if nv <= 12 else [a for a in algs if a != "ch"]), "b.cnf", small)
        return f

    def boolean_maker(g):
        def f(s):
            s.write("b.cnf", files.boolean_text(g["nv"], g["cls"], []))
            s.convert("b2f", "b.cnf", "f.cnf")
            from .search_checks import pick_cfg
            s.solve("f.cnf", pick_cfg(random.Random(str(g)), ["nc", "wl", "ch", "bv"]), "b.cnf", True)
        return f

    every = design.corpus(scale(chk, "boolean", "boolean-large"))
    chk.count("problems_enumerated_by_the_specification", len(every))
    judge(chk, "MVConvert", run_sessions([maker(x) for x in seeds] + [boolean_maker(g) for g in every], ("plain", "asan")))


def enumerated(chk, tools, quick=1200, thorough=30000):
    """Sessions on problems of the specification's corpus."""
    design.encode_model(chk)
    ps = design.problems("large", chk.rng, scale(chk, quick, thorough))
    chk.count("problems_enumerated_by_the_specification", len(ps))

    def maker(p):
        def f(s):
            from .search_checks import pick_cfg
            q = random.Random(str(p))
            s.write("f.cnf", solver.text(p))
            if tools == ["lin", "b2f"]:
                s.solve("f.cnf", pick_cfg(q, ["nc", "wl", "bv"]), "", True)
            for x, t in enumerate(tools):
                s.convert(t, "f.cnf" if x == 0 else tools[x - 1] + ".cnf", t + ".cnf")
            if tools == ["lin", "b2f"]:
                s.solve("b2f.cnf", pick_cfg(q, ["nc", "wl", "bv"]), "f.cnf", True)
        return f

    return [maker(p) for p in ps]


def layout(r, text, clause_lines_whole=True):
    """The same file, laid out differently (see also session_checks)."""
    out = []
    for s in text.split("\n")[:-1]:
        while r.random() < 0.15:
            out.append(r.choice(["", " ", "\t", "   \t "]))
        if not s.startswith("p") and r.random() < 0.15:
            out.append(r.choice(["c", "c p cnf 9 9", "c d 1 3", "cnf", "c 1=1 0", "c " + "y" * r.randint(1, 300)]))
        if not s[:1] in "cpd":
            s = "".join((r.choice([" ", "  ", "\t", " \t "]) if c == " " else c) for c in s)
            if r.random() < 0.3:
                s = r.choice([" ", "\t", "    "]) + s
            if r.random() < 0.3:
                s += r.choice([" ", "\t", "   "])
        elif s[:1] in "pd" and r.random() < 0.15:
            s = r.choice(["  ", "\t", " \t "]).join(s.split()) + r.choice(["", " ", "\t "])
        out.append(s)
    t = "\n".join(out)
    return t if r.random() < 0.3 else t + "\n"


# ------------------------------------------------------------------ encodings


def finite_case(r):
    """(problem, size class)"""
    x = r.random()
    if x < 0.45:
        nv = r.randint(1, 4)
        dom = [r.choice([1, 2, 2, 3, 3, 4]) for _ in range(nv)]
    elif x < 0.6:
        nv = r.randint(1, 3)
        dom = [r.randint(1, 7) for _ in range(nv)]
    elif x < 0.75:
        dom = [r.choice([8, 9, 10, 11, 12, 13, 14, 20])] + [r.choice([1, 2, 3]) for _ in range(r.randint(0, 2))]
        r.shuffle(dom)
    elif x < 0.85:
        dom = [r.choice([1, 2])] * r.randint(1, 12)
    elif x < 0.95:
        dom = [r.choice([2, 3]) for _ in range(r.randint(8, 14))]
    else:
        dom = [r.choice([30, 40, 63, 64, 100, 101])] + [r.choice([2, 3])]
        r.shuffle(dom)
    m = r.randint(1, 3 * len(dom) + 2) if r.random() > 0.02 else 0
    neg = r.choice([0.0, 0.2, 0.5, 0.8, 1.0])
    cls = []
    for _ in range(m):
        ln = r.choice([1, 2, 2, 3, 3, 4]) if r.random() > 0.01 else 0
        cls.append([gen.rand_literal(r, dom, neg) for _ in range(ln)])
    if r.random() < 0.05:      # a long clause
        cls.append([gen.rand_literal(r, dom, neg) for _ in range(r.randint(200, 400))])
    return dom, cls


def finite_text(r, p):
    t = solver.text(p)
    if r.random() < 0.3:
        t = t.replace("p cnf", "p mvcnf")
    if r.random() < 0.25:
        t = layout(r, t)
    return t


def c17(chk):
    r = chk.rng
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 1500, 30000))]

    def maker(seed):
        def f(s):
            q = random.Random(seed)
            p = finite_case(q)
            s.write("f.cnf", finite_text(q, p))
            probes = [[q.randrange(d) for d in p[0]] for _ in range(30)]
            s.convert("lin", "f.cnf", "b.cnf", kind="asan" if q.random() < 0.1 else "plain", probes=probes)
        return f

    judge(chk, "MVConvert", run_sessions([maker(x) for x in seeds] + enumerated(chk, ["lin"]), ("plain", "asan")))


def c18(chk):
    r = chk.rng
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 1500, 30000))]

    def maker(seed):
        def f(s):
            q = random.Random(seed)
            p = finite_case(q)
            s.write("f.cnf", finite_text(q, p))
            s.convert("quad", "f.cnf", "q.cnf", kind="asan" if q.random() < 0.1 else "plain")
        return f

    judge(chk, "MVConvert", run_sessions([maker(x) for x in seeds] + enumerated(chk, ["quad"]), ("plain", "asan")))


def c19(chk):
    r = chk.rng
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 1100, 20000))]

    def maker(seed):
        def f(s):
            from .search_checks import pick_cfg
            q = random.Random(seed)
            x = q.random()
            p = finite_case(q) if x < 0.5 else gen.threshold(q, nv=q.randint(3, 5)) if x < 0.8 else gen.mixed(q)
            small = len(p[0]) <= 8 and len(p[1]) <= 60
            s.write("f.cnf", finite_text(q, p))
            algs = ["nc", "wl", "bv"] if max(p[0]) <= 64 else ["nc", "wl"]
            s.solve("f.cnf", pick_cfg(q, algs), "", small)
            s.convert("lin", "f.cnf", "b.cnf")
            s.convert("b2f", "b.cnf", "g.cnf")
            s.solve("g.cnf", pick_cfg(q, ["nc", "wl", "bv"]), "f.cnf", small)
        return f

    judge(chk, "MVConvert", run_sessions([maker(x) for x in seeds] + enumerated(chk, ["lin", "b2f"], 500, 15000), ("plain", "asan")))


CHECKS = {"C16": c16, "C17": c17, "C18": c18, "C19": c19}
