"""Checks of whole runs seen from outside: C14, C15 (MVSession), C20, C21 (MVGen), C26 (MVFiles), C27 (MVMenu)."""
import hashlib, json, os, random, re
from . import build, core, gen, solver, files
from .tool_checks import Session, judge, run_sessions, layout, scale, boolean_case, finite_case, finite_text
from .search_checks import pick_cfg, big_sat, boundary


def words_of(cfg, verbose):
    w = [["-solvech" if cfg.alg == "ch" else "-solvenc"]]
    if cfg.alg == "wl":
        w.append(["-wl"])
    if cfg.heur in ("vsids", "vsids_pos"):
        w.append(["-" + cfg.heur])
    elif cfg.heur == "vsids_set":
        w.append(["-vsids"])
    elif cfg.heur == "lazy" and cfg.alg != "bv":
        w.append(["-lazy"])
    if cfg.k:
        w.append(["-restart", str(cfg.k)])
    if verbose:
        w.append(["-verbose"])
    return w


def run(s, name, cfg, words, again, decide, env=None, place=0, which=None, timeout=20):
    """One run of a solver as an event of MVSession.  place: where -file goes among the words."""
    ws = words[:place + 1] + [["-file", name]] + words[place + 1:]
    argv = [x for w in ws for x in w]
    which = which or ("bitvec" if cfg.alg == "bv" else "src")
    r = solver.execute([build.program(which)] + argv, env=env, timeout=3 * timeout if again else timeout, cwd=s.dir)
    s.commands.append("%s %s %s   # exit %d" % (
        " ".join("%s=%s" % (a, b[:40]) for a, b in (env or {}).items()), which, " ".join(argv), r.rc))
    s.hangs += r.timeout
    if r.timeout:
        s.skip = not again      # the first run of a group may be too hard; a repetition may not
    text = s.texts[name]
    lines = files.lex(text)
    dom = [l["n"] for l in lines if l["k"] == "d"]
    p = solver.parse(r.out, (dom, []), cfg.alg)
    verbose = ["-verbose"] in words
    digest = ""
    if verbose:
        digest = hashlib.sha1(json.dumps([e for e in p.events if e["e"] != "clk"]).encode()).hexdigest()
    s.events.append({"e": "run", "prog": which, "words": ws, "lines": lines, "again": again, "decide": decide,
                     "obs": {"rc": r.rc, "verdicts": p.verdicts, "verified": p.verified, "model": p.model or [],
                             "stats": p.stats or {k: -1 for k in solver.STATKEY.values()}, "search": digest}})
    s.texts["out%d.txt" % len(s.commands)] = r.out[:20000]
    return r


def problem_of(q, bv):
    x = q.random()
    if x < 0.45:
        return gen.mixed(q)
    if x < 0.8:
        return gen.conflicts(q)
    if x < 0.9:
        return gen.tiny(q)
    return boundary(q, bv)


def shuffled_words(q, words):
    """The same command line written differently."""
    w = [list(x) for x in words[1:]]
    for x in w:
        if x[0] == "-restart" and q.random() < 0.5:
            x[0] = "-restarts"
    if q.random() < 0.3 and words[0][0] == "-solvenc":
        w.append(["-model"])
    for o in ("-var", "-clause", "-clausesize"):
        if q.random() < 0.12:
            w.append([o, str(q.randint(1, 50))])
    if q.random() < 0.2:
        w.append(["-time", "3000"])
    if ["-verbose"] in w:
        if q.random() < 0.5:
            w.remove(["-verbose"])
    elif q.random() < 0.5:
        w.append(["-verbose"])
    if words[0][0] == "-solvenc" and not any(x[0].startswith("-restart") for x in w) and q.random() < 0.15:
        w.append([q.choice(["-restart", "-restarts"]), "0"])
    q.shuffle(w)
    return [words[0]] + w


def c14(chk):
    r = chk.rng
    so = build.shim("clock")
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 900, 15000))]

    def maker(seed):
        def f(s):
            q = random.Random(seed)
            bv = q.random() < 0.3
            p = problem_of(q, bv)
            cfg = pick_cfg(q, ["bv"] if bv else ["nc", "nc", "wl", "wl", "ch"], 0.5)
            s.write_plain("p.cnf", solver.text(p))
            base = words_of(cfg, True)
            run(s, "p.cnf", cfg, base, False, False)
            # again, in other surroundings
            env = {"MALLOC_PERTURB_": str(q.randint(1, 255)), "MVPAD": "x" * q.randint(0, 4000)}
            if q.random() < 0.4:
                env.update({"LD_PRELOAD": so, "MVCLOCK_QUIET": "1", "MVTIME": str(q.choice([1, 999999999, 2000000000])),
                            "MVCLOCK": "9:1000,12:777,30:90000"})
            run(s, "p.cnf", cfg, base, True, False, env)
            for _ in range(2):
                ws = shuffled_words(q, base)
                run(s, "p.cnf", cfg, ws, True, False, q.choice([None, env]), q.randrange(len(ws)))
        return f

    judge(chk, "MVSession", run_sessions([maker(x) for x in seeds]))


def long_layout(q, text):
    """Very long lines: spaces, comments, repeated literals."""
    out = []
    for s in text.split("\n")[:-1]:
        if not s[:1] in "cpd" and s.strip():
            x = q.random()
            ws = s.split()
            if x < 0.25:
                s = (" " * q.choice([130, 1100, 9000, 70000])).join(ws)
            elif x < 0.45 and len(ws) > 1:
                n = q.choice([40, 120, 300])
                s = " ".join([q.choice(ws[:-1]) for _ in range(n)] + ws[:-1] + ["0"])
                # the first occurrences decide the order
                firsts = ws[:-1]
                s = " ".join(firsts + [q.choice(firsts) for _ in range(n)] + ["0"])
            elif x < 0.55:
                s = " " * q.choice([500, 5000, 70000]) + s + "\t" * q.choice([10, 5000])
        elif s[:1] in "pd" and q.random() < 0.2:
            s = (" " * q.choice([2, 300])).join(s.split())
        out.append(s)
        if q.random() < 0.15:
            out.append("c " + "1=1 " * q.choice([100, 300, 2500, 20000]))
    return "\n".join(out) + "\n"


def c15(chk):
    r = chk.rng
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 750, 13000))]

    def maker(seed):
        def f(s):
            q = random.Random(seed)
            bv = q.random() < 0.35
            p = problem_of(q, bv)
            if q.random() < 0.1:
                p = (p[0], p[1][:q.randrange(len(p[1]) + 1)] + [[]] + p[1][q.randrange(len(p[1]) + 1):])
            if q.random() < 0.1:    # variables no clause mentions
                p = (p[0] + [q.randint(1, 4) for _ in range(q.randint(1, 3))], p[1])
            if not p[1]:
                p = (p[0], [[(1, 1, 0)]])
            cfg = pick_cfg(q, ["bv"] if bv else ["nc", "nc", "wl", "wl", "ch"], 0.4)
            small = len(p[0]) <= 9 and len(p[1]) <= 80
            plain = solver.text(p)
            s.write_plain("p.cnf", plain)
            base = words_of(cfg, True)
            run(s, "p.cnf", cfg, base, False, small)
            for n in range(q.choice([1, 2, 2, 3])):
                t = plain
                x = q.random()
                if x < 0.3:
                    t = t.replace("p cnf", "p mvcnf")
                if q.random() < 0.35:
                    t = "\n".join(repeated(q, l) if l[:1].isdigit() else l for l in t.split("\n"))
                if q.random() < 0.7:
                    t = layout(q, t)
                    if not t.endswith("\n") and q.random() < 0.5:
                        t += "\n"
                if q.random() < 0.3:
                    t = long_layout(q, t if t.endswith("\n") else t + "\n")
                if q.random() < 0.25:      # what the last line is
                    t = t.rstrip("\n") + q.choice(["", "\nc end", "\n ", "\n\n\n", "\nc", "\n\t\n"])
                name = "v%d.cnf" % n
                s.write_plain(name, t)
                run(s, name, cfg, base, True, small)
        return f

    judge(chk, "MVSession", run_sessions([maker(x) for x in seeds]))


def repeated(q, line):
    """Repeat some literals of a clause line, after their first occurrence."""
    ws = line.split()
    if len(ws) < 2 or q.random() < 0.5:
        return line
    lits, out = ws[:-1], []
    for x, l in enumerate(lits):
        out.append(l)
        while q.random() < 0.35:
            out.append(q.choice(lits[:x + 1]))
    return " ".join(out + ["0"])


# ------------------------------------------------------------------ generator


def c20_21(chk):
    r = chk.rng
    so = build.shim("clock")
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 1600, 30000))]
    must = chk.prop == "C21"

    def maker(seed):
        def f(s):
            q = random.Random(seed)
            finite = q.random() < 0.6
            small = must or q.random() < 0.7
            var = q.randint(1, 8) if small else q.choice([10, 20, 60, 99, 100, 130])
            dflt = q.random() < 0.15
            size = 3 if dflt else (q.randint(1, var) if q.random() < 0.9 else var)
            if dflt and var < 3:
                var = 3
            size = min(size, 9)
            if finite and not dflt and q.random() < 0.05:
                size = var + q.randint(1, 2)
            if not finite and not dflt and q.random() < 0.15:
                size = q.randint(var, 2 * var) if q.random() < 0.7 else 2 * var + q.randint(1, 2)
            if must and not dflt and q.random() < 0.5:
                size = min(var, q.randint(1, 2))
            clause = q.randint(1, 40 if small else 120)
            if must and q.random() < 0.7:
                clause = q.randint(2 * var, 14 * var)     # dense: by chance alone these are unsatisfiable
            domain = q.choice([1, 2, 2, 3, 3, 4, 5, 7, 10, 12]) if q.random() < 0.9 else q.choice([33, 64, 100])
            sat = True if must and q.random() < 0.9 else q.random() < 0.5
            drand = q.random() < (0.6 if must else 0.4)
            words = [["-var", str(var)], ["-clause", str(clause)], ["-file", "out.cnf"]]
            if not dflt:
                words.append(["-clausesize", str(size)])
            if finite or q.random() < 0.3:
                words.append(["-bool", "1" if finite else "0"])
            if not sat or q.random() < 0.5:
                words.append(["-sat", "1" if sat else "0"])
            if finite:
                if q.random() < 0.1:
                    domain = 10
                else:
                    words.append(["-domain", str(domain)])
                if drand or q.random() < 0.3:
                    words.append(["-drand", "1" if drand else "0"])
            q.shuffle(words)
            argv = ["-genben"] + [x for w in words for x in w]
            t = q.randrange(1 << 31)
            for _ in range(2 if small else 1):
                t = (t + q.choice([1, 60, 3600])) & 0x7fffffff
                env = {"LD_PRELOAD": so, "MVCLOCK_QUIET": "1", "MVTIME": str(t)}
                out = s.path("out.cnf")
                if os.path.exists(out):
                    os.unlink(out)
                res = solver.execute([build.program("src")] + argv, env=env, timeout=20, cwd=s.dir)
                s.hangs += res.timeout
                s.commands.append("src %s   # as if at second %d, exit %d" % (" ".join(argv), t, res.rc))
                text = s.read("out.cnf")
                lines = files.lex(text)
                w = witness(s, finite, text, lines) if sat else []
                s.events.append({"e": "gen", "rc": res.rc, "lines": lines, "witness": w,
                                 "q": {"bool": finite, "var": var, "clause": clause, "size": size, "sat": sat,
                                       "domain": domain, "drand": drand}})
        return f

    judge(chk, "MVGen", run_sessions([maker(x) for x in seeds]))


def witness(s, finite, text, lines):
    """A model found by the solver under test; the specification checks it."""
    if finite:
        with open(s.path("w.cnf"), "w") as f:
            f.write(text)
        nv = sum(1 for l in lines if l["k"] == "d")
    else:
        h = [l for l in lines if l["k"] == "p"]
        cls = [[x[0] for x in l["t"] if len(x) == 1] for l in lines if l["k"] == "x"]
        nv = h[0]["a"] if h else 0
        with open(s.path("w.cnf"), "w") as f:
            f.write("p cnf %d %d\n" % (nv, len(cls)))
            f.write("".join("d %d 2\n" % v for v in range(1, nv + 1)))
            for c in cls:
                f.write(" ".join(["%d=%d" % (abs(x), x > 0) for x in c if x] + ["0"]) + "\n")
    res = solver.execute([build.program("src"), "-solvenc", "-wl", "-file", s.path("w.cnf")], timeout=10)
    p = solver.parse(res.out, ([10 ** 9] * nv, []), "wl")
    d = {v: vals[0] for v, vals in (p.model or []) if vals}
    return [d[x] for x in range(1, nv + 1)] if sorted(d) == list(range(1, nv + 1)) else []


# ------------------------------------------------------------------ files


def snapshot(root):
    out = []
    for d, subs, names in os.walk(root):
        rel = os.path.relpath(d, root)
        for n in subs:
            out.append([os.path.normpath(os.path.join(rel, n)), "directory"])
        for n in names:
            p = os.path.join(d, n)
            k = os.path.normpath(os.path.join(rel, n))
            if os.path.islink(p):
                out.append([k, "link " + os.readlink(p)])
            else:
                with open(p, "rb") as f:
                    out.append([k, hashlib.sha1(f.read()).hexdigest()])
    return sorted(out)


def c26(chk):
    r = chk.rng
    clock, rec = build.shim("clock"), build.shim("files")
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 700, 12000))]

    def maker(seed):
        def f(s):
            q = random.Random(seed)
            root = s.path("root")
            os.makedirs(os.path.join(root, "work"))
            os.makedirs(os.path.join(root, "data"))
            bystanders = ["work/notes.txt", "data/other.cnf", "work/model", "work/out", "data/p.cnf.bak"]
            for b in bystanders:
                with open(os.path.join(root, b), "w") as fh:
                    fh.write("keep %s\n" % b)
            p = gen.tiny(q) if q.random() < 0.5 else finite_case(q)
            if max(p[0]) > 40 and q.random() < 0.8:
                p = gen.tiny(q)
            ftext = finite_text(q, p)
            btext = boolean_case(q, chk)[2]
            inputs = {"data/f.cnf": ftext, "data/b.cnf": btext, "work/in.cnf": ftext}
            for n, t in inputs.items():
                with open(os.path.join(root, n), "w") as fh:
                    fh.write(t)
                s.texts[n] = t
            log = s.path("ops.log")
            s.events.append({"e": "arrange", "fs": snapshot(root)})

            def go(which, argv, env=None):
                if os.path.exists(log):
                    os.unlink(log)
                e = {"LD_PRELOAD": rec, "MVFILES": log}
                if env:
                    e.update(env)
                    e["LD_PRELOAD"] = rec + " " + clock
                res = solver.execute([build.program(which)] + argv, env=e, timeout=15, cwd=os.path.join(root, "work"))
                s.commands.append("cd work; %s %s   # exit %d" % (which, " ".join(argv), res.rc))
                ops = []
                if os.path.exists(log):
                    with open(log) as fh:
                        for line in fh:
                            op, name = line.rstrip("\n").split(" ", 1)
                            ops.append([op, os.path.relpath(os.path.normpath(os.path.join(root, "work", name)), root)])
                said = "could not open" in res.out.lower()
                if res.timeout:
                    s.skip |= argv[0].startswith("-solve")
                    s.hangs += 1
                return res, ops, said

            def missing():
                return q.choice(["data/absent.cnf", "nowhere/f.cnf", "data/f.cnf/x", "work/" + "n" * 300, "data/F.cnf",
                                 "work/in", "work/in.cnf2"])

            for _ in range(q.randint(2, 5)):
                x = q.random()
                if x < 0.3:
                    name = q.choice(["data/f.cnf", "work/in.cnf"]) if q.random() < 0.6 else missing()
                    cfg = pick_cfg(q, ["nc", "wl", "ch"] + (["bv"] if max(p[0]) <= 64 else []), 0.4)
                    path = q.choice([os.path.relpath(name, "work"), os.path.join(root, name)])
                    which = "bitvec" if cfg.alg == "bv" else "src"
                    res, ops, said = go(which, cfg.args(path, q.random() < 0.3))
                    pr = solver.parse(res.out, (p[0], []), cfg.alg)
                    s.events.append({"e": "solve", "in": os.path.normpath(name), "rc": res.rc, "said": said,
                                     "verdicts": pr.verdicts, "ops": ops, "after": snapshot(root)})
                    continue
                tool = q.choice(["b2f", "lin", "quad", "genben"])
                out = q.choice(["work/out", "work/new.cnf", "data/new.cnf", "work/long.cnf", "data/g"])
                if q.random() < 0.4:      # something longer, or something that looks like a result, stands there
                    with open(os.path.join(root, out), "w") as fh:
                        fh.write(q.choice(["old " * 5000, "p cnf 1 1\n1=0 0\n" * 300, "x", ""]))
                    s.events.append({"e": "arrange", "fs": snapshot(root)})
                writable = True
                if q.random() < 0.08:
                    out, writable = "nowhere/new.cnf", False
                opath = q.choice([os.path.relpath(out, "work"), os.path.join(root, out)])
                if tool == "genben":
                    req = ["-var", str(q.randint(3, 6)), "-clause", str(q.randint(1, 9)), "-bool", q.choice("01")]
                    t = q.choice(["1000", "2000"])
                    res, ops, said = go("src", ["-genben"] + req + ["-file", opath],
                                        {"MVTIME": t, "MVCLOCK_QUIET": "1"})
                    e = {"in": "", "args": " ".join(req) + "@" + t}
                else:
                    name = (q.choice(["data/b.cnf"] if tool == "b2f" else ["data/f.cnf", "work/in.cnf"])
                            if q.random() < 0.6 else missing())
                    path = q.choice([os.path.relpath(name, "work"), os.path.join(root, name)])
                    opts = ["-file", path, "-model", opath]
                    if q.random() < 0.3:
                        opts = opts[2:] + opts[:2]
                    res, ops, said = go("src", ["-" + {"b2f": "b2f", "lin": "linenc", "quad": "quadenc"}[tool]] + opts)
                    e = {"in": os.path.normpath(name), "args": ""}
                e.update({"e": "produce", "tool": tool, "out": out, "writable": writable, "rc": res.rc, "said": said,
                          "ops": ops, "after": snapshot(root)})
                s.events.append(e)
        return f

    judge(chk, "MVFiles", run_sessions([maker(x) for x in seeds]))


# ------------------------------------------------------------------ from a benchmark to an answer


def c28(chk):
    r = chk.rng
    so = build.shim("clock")
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 700, 12000))]

    def maker(seed):
        def f(s):
            q = random.Random(seed)
            finite = q.random() < 0.6
            var = q.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 12, 20])
            size = min(var, q.choice([1, 2, 2, 3, 3, 4]))
            domain = q.choice([1, 2, 2, 3, 3, 4, 5, 8, 20, 64, 100]) if finite else 2
            must = q.random() < 0.6
            ratio = {1: 0.7, 2: 1.5, 3: 4.3, 4: 9.0}[size] * (1 if domain <= 2 else 1.5 if domain < 5 else 2)
            clause = max(1, int(var * ratio * q.uniform(0.3, 1.4)))
            argv = ["-genben", "-var", str(var), "-clause", str(clause), "-clausesize", str(size), "-file", "g.cnf",
                    "-bool", "1" if finite else "0", "-sat", "1" if must else "0"]
            if finite:
                argv += ["-domain", str(domain), "-drand", q.choice(["0", "1"])]
            env = {"LD_PRELOAD": so, "MVCLOCK_QUIET": "1", "MVTIME": str(q.randrange(1 << 31))}
            res = solver.execute([build.program("src")] + argv, env=env, timeout=20, cwd=s.dir)
            s.hangs += res.timeout
            s.commands.append("src %s   # as if at second %s, exit %d" % (" ".join(argv), env["MVTIME"], res.rc))
            s.events.append({"e": "gen", "out": "g.cnf", "bool": not finite, "must": must, "rc": res.rc,
                             "lines": files.lex(s.read("g.cnf"))})
            small = var <= 9 and clause <= 60
            wide = domain > 64
            algs = ["nc", "wl", "ch"] if small else ["nc", "wl"]
            name = "g.cnf"
            if not finite:
                s.convert("b2f", "g.cnf", "f.cnf")
                name = "f.cnf"
            for a in ([algs, ["nc", "wl"]] if wide else [algs, ["bv"], ["nc", "wl"]]):
                s.solve(name, pick_cfg(q, a, 0.4), "", small)
            if finite and domain <= 20:
                s.convert("lin", "g.cnf", "b.cnf", probes=[[0] * var])
                s.convert("b2f", "b.cnf", "h.cnf")
                s.solve("h.cnf", pick_cfg(q, ["nc", "wl", "bv"], 0.3), "g.cnf", small)
            if finite and q.random() < 0.5 and domain <= 20:
                s.convert("quad", "g.cnf", "q.cnf")
        return f

    judge(chk, "MVConvert", run_sessions([maker(x) for x in seeds]))


# ------------------------------------------------------------------ help

TASKS = ["-genben", "-solvech", "-solvenc", "-b2f", "-linenc", "-quadenc"]
NUMBERS = ["-var", "-clause", "-clausesize", "-sat", "-domain", "-drand", "-bool", "-time", "-restart", "-restarts"]
BANNER = re.compile(r"Menu Options")


def help_events(out):
    """What a run showed, in order: menus, and the pages between them."""
    ev = []
    for part in BANNER.split(out)[1:]:
        menu, _, rest = part.partition("Enter Choice now")
        ev.append({"e": "menu", "items": [int(x) for x in re.findall(r"^ *\((\d+)\)", menu, re.M)]})
        uses = re.findall(r"% *exe +(-\w+)", rest)
        fields = re.findall(r"^ +(-\w+) +:", rest, re.M)
        if uses or fields:
            ev.append({"e": "page", "task": uses[0] if len(set(uses)) == 1 else "?", "fields": fields})
    return ev


def some_input(q):
    """What somebody, or something, may type at the menu."""
    out = ""
    for _ in range(q.choice([0, 1, 1, 2, 3, 5, 9])):
        x = q.random()
        if x < 0.6:
            w = str(q.randint(1, 7))
        elif x < 0.75:
            w = str(q.choice([8, 10, 12, 99, -1, -5, 100000, 999999999]))
        else:
            w = q.choice(["+2", "01", "007", "3x", "2 ", " 4", "\t5", "\n\n6", "1 2", "13", "0x1", "-0", "q", "-", "2.5", "9" * 30]
                         if x > 0.9 else ["+2", "01", "3x", " 4", "\n6", "1 2", "5\t"])
        out += w + q.choice(["\n\n", "\n\n", "\n\n", "\n", "\n \n", "\n\n\n", "", " "])
    out += q.choice(["", "", "0\n", "0", "\n0\n", "x\n", "quit"])
    return some_input(q) if re.search(r"(?<!\d)\d{10}(?!\d)", out) else out


def c27(chk):
    r = chk.rng
    seeds = [r.randrange(1 << 60) for _ in range(scale(chk, 1500, 20000))]

    def maker(seed):
        def f(s):
            q = random.Random(seed)
            which = q.choice(["src", "src", "bitvec"])
            kind = q.choice(["plain", "plain", "asan"]) if which == "src" else "plain"
            s.write_plain("p.cnf", solver.text(gen.tiny(q)))
            if q.random() < 0.3:
                task = q.choice(TASKS if which == "src" else ["-solvenc"])
                words = [task]
                for _ in range(q.randint(0, 3)):
                    words += q.choice([["-file", "p.cnf"], ["-verbose"], ["-wl"], ["-vsids"], ["-time", "5"], ["-var", "4"],
                                       ["-clause", "9"], ["-lazy"], ["-model", "out"]])
                words.append(q.choice(NUMBERS))
                res = solver.execute([build.program(which, kind)] + words, timeout=20, cwd=s.dir)
                s.commands.append("%s %s   # exit %d" % (which, " ".join(words), res.rc))
                body = res.out.split("*" * 72)[-1]
                pr = solver.parse(res.out, ([10 ** 9] * 99, []), "bv" if which == "bitvec" else "nc")
                s.texts["out.txt"] = res.out[:20000]
                s.events += [{"e": "start", "prog": which, "words": words, "input": []},
                             {"e": "lack", "words": words, "rc": res.rc, "said": bool(body.strip()),
                              "started": bool(pr.verdicts) or os.path.exists(s.path("out"))}]
                return
            words = q.choice([[], ["-help"], ["-help"], ["-h"], ["help"], ["p.cnf"], ["-file", "p.cnf"], ["-solve"],
                              ["-help", "-solvenc"], ["-wl", "-solvenc", "-file", "p.cnf"], ["--help"], ["-Solvenc"]]
                             + ([["-genben"], ["-solvech", "-file", "p.cnf"], ["-b2f"]] if which == "bitvec" else []))
            text = some_input(q)
            res = solver.execute([build.program(which, kind)] + words, timeout=20, cwd=s.dir, stdin=text.encode())
            s.hangs += res.timeout
            s.commands.append("printf %r | %s %s   # exit %d" % (text, which, " ".join(words), res.rc))
            s.texts["out.txt"] = res.out[:20000]
            s.events += [{"e": "start", "prog": which, "words": words, "input": [ord(x) for x in text]}]
            s.events += help_events(res.out)[:60] + [{"e": "stop", "rc": res.rc}]
        return f

    judge(chk, "MVMenu", run_sessions([maker(x) for x in seeds], ("plain", "asan")))


CHECKS = {"C28": c28, "C27": c27, "C14": c14, "C15": c15, "C20": c20_21, "C21": c20_21, "C26": c26}
