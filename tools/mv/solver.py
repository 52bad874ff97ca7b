"""Run the solvers and turn their output into events of the specification."""
import os, re, resource, subprocess, tempfile
from . import build

# ---------------------------------------------------------------- problems
# A problem is (dom, clauses): dom[i] is the size of variable i+1's domain; a
# clause is a list of (variable, eq, value), eq 1 for "=" and 0 for "!=".


def text(problem):
    dom, cls = problem
    out = ["p cnf %d %d" % (len(dom), len(cls))]
    out += ["d %d %d" % (i + 1, d) for i, d in enumerate(dom)]
    out += [" ".join(["%d%s%d" % (v, "=" if e else "!=", d) for v, e, d in c] + ["0"]) for c in cls]
    return "\n".join(out) + "\n"


class Config:
    """alg: nc | wl | ch | bv; heur: bk | vsids | vsids_pos | lazy | vsids_set."""

    def __init__(self, alg, heur, k=0, limit=-1):
        self.alg, self.heur, self.k, self.limit = alg, heur, k, limit

    def args(self, path, log):
        a = ["-solvech" if self.alg == "ch" else "-solvenc", "-file", path]
        if self.alg == "wl":
            a.append("-wl")
        if self.heur in ("vsids", "vsids_pos"):
            a.append("-" + self.heur)
        elif self.heur == "vsids_set":
            a.append("-vsids")
        elif self.heur == "lazy" and self.alg != "bv":
            a.append("-lazy")
        if self.k:
            a += ["-restart", str(self.k)]
        if self.limit >= 0:
            a += ["-time", str(self.limit // 1000)]
        if log:
            a.append("-verbose")
        return a

    def name(self):
        return "%s/%s/k%d%s" % (self.alg, self.heur, self.k, "" if self.limit < 0 else "/t%d" % self.limit)

    def mode(self, log, oracle):
        return {"alg": self.alg, "heur": self.heur, "k": self.k, "limit": self.limit, "log": log, "oracle": oracle}


SRC_CONFIGS = [Config("nc", h, k) for h in ("bk", "vsids", "vsids_pos", "lazy") for k in (0, 1, 2, 3, 5)] + \
              [Config("wl", h, k) for h in ("vsids", "vsids_pos", "lazy") for k in (0, 1, 2, 3, 5)] + \
              [Config("ch", h) for h in ("bk", "lazy")]
BV_CONFIGS = [Config("bv", h, k) for h in ("vsids_set", "lazy") for k in (0, 1, 2, 3, 5)]


class Result:
    __slots__ = ("rc", "out", "timeout")

    def __init__(self, rc, out, timeout=False):
        self.rc, self.out, self.timeout = rc, out, timeout


def _limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# Of a longer output only the beginning and the end are kept.
HEAD, TAIL = 3 << 19, 1 << 19
ALL = 1 << 25
CUT = "\n@cut\n"


def execute(argv, env=None, timeout=60, cwd=None, keep_err=False, head=HEAD, stdin=None):
    """Run a program; its output goes through a file of bounded size."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0"
    if env:
        e.update(env)
    with tempfile.TemporaryFile(dir=build.scratch()) as f, tempfile.TemporaryFile(dir=build.scratch()) as g:
        g.write(stdin or b"")
        g.seek(0)
        p = subprocess.Popen(argv, stdin=g, stdout=f,
                             stderr=subprocess.STDOUT if keep_err else subprocess.DEVNULL,
                             env=e, cwd=cwd, preexec_fn=_limits)
        hang = False
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc, hang = -99, True
        f.seek(0, 2)
        size = f.tell()
        f.seek(0)
        out = f.read(head if size > head + TAIL else size)
        if size > head + TAIL:
            f.seek(size - TAIL)
            out += CUT.encode() + f.read(TAIL)
        return Result(rc, out.decode("latin-1"), hang)


# ---------------------------------------------------------------- parsing
RE_DEC = re.compile(r"Decision: (\d+)(=|!=|!)(\d+)\s*$")
RE_FLIP = re.compile(r"Conflict: Propagating (\d+)(=|!=|!)(\d+)\s*$")
RE_RED = re.compile(r"Reducing literal: (\d+)(=|!=|!)(\d+) at level (-?\d+)")
RE_LIT = re.compile(r"^\s*(-?\d+)(=|!=)(\d+)\s*$")
RE_ENT = re.compile(r"Entailment\.\.\. (\d+)=(\d+)")
RE_CONF = re.compile(r"There is a conflict at level: (-?\d+)")
RE_BACK = re.compile(r"We are backtracking to the level: (-?\d+)")
RE_NBACK = re.compile(r"# of backtracks so far: (-?\d+)")
RE_BVRED = re.compile(r"(\d+)=([01]{64}) at level (-?\d+)\s*$")
RE_CLOCK = re.compile(r"^@clock (\d+) (-?\d+)$")
RE_STAT = re.compile(r"^(Decisions|Units|Backtracks|Entails|Variables|Clauses|Restarts)\s*:\s*(-?\d+)\s*$")
STATKEY = {"Decisions": "dec", "Units": "unit", "Backtracks": "back", "Entails": "ent", "Variables": "vars",
           "Clauses": "cls", "Restarts": "rest"}


def bits(s):
    return [i for i, c in enumerate(reversed(s)) if c == "1"]


class Parsed:
    def __init__(self):
        self.events = []
        self.verdicts = []
        self.model = None
        self.verified = ""
        self.stats = None
        self.garbled = False      # the log could not be followed
        self.readings = []
        self.cut = False          # the middle of the output is missing


def parse(out, problem, alg, path=None):
    """Output of one run -> Parsed.  Events carry literals as [v, form, value(s)]."""
    dom, _ = problem
    bv = alg == "bv"
    p = Parsed()
    ev = p.events
    lines = out.replace("\a", "").split("\n")
    n = len(lines)

    def lit(v, rel, val):
        if bv and len(val) == 64:
            return [int(v), 2, bits(val)]
        return [int(v), 1 if rel == "=" else 0, int(val)]

    def lit_ok(l):
        if not 1 <= l[0] <= len(dom):
            return False
        if l[1] == 2:
            return all(x < dom[l[0] - 1] for x in l[2])
        return l[2] < dom[l[0] - 1]

    def clause(i):
        c = []
        while i < n:
            m = RE_LIT.match(lines[i])
            if m:
                c.append(lit(*m.groups()))
            elif RE_CLOCK.match(lines[i]):
                clock(lines[i])
            else:
                break
            i += 1
        return c, i

    def clock(line):
        m = RE_CLOCK.match(line)
        p.readings.append(int(m.group(2)))
        ev.append({"e": "clk", "t": int(m.group(2)), "n": int(m.group(1))})

    def bad(why, props):
        ev.append({"e": "bad", "why": why, "props": props})

    chosen = None    # a decision or flip whose assignment comes next
    stats = {}
    i = 0
    unit = None
    while i < n:
        s = lines[i]
        i += 1
        if not s:
            continue
        if s == "@cut":
            p.cut = True
            ev.append({"e": "cut"})
            continue
        if s.startswith("@clock"):
            if RE_CLOCK.match(s):
                clock(s)
            continue
        m = RE_DEC.search(s)
        if m:
            l = lit(*m.groups())
            if not lit_ok(l):
                bad("decision " + s, ["C13", "C09", "C24"])
                p.garbled = True
            ev.append({"e": "dec", "l": l})
            chosen = "chosen"
            continue
        m = RE_FLIP.search(s)
        if m:
            l = lit(*m.groups())
            if not lit_ok(l):
                bad("flip " + s, ["C09"])
                p.garbled = True
            ev.append({"e": "flip", "l": l})
            chosen = "chosen"
            continue
        m = RE_RED.search(s)
        if m:
            l = lit(*m.groups()[:3])
            L = int(m.group(4))
            while i < n and RE_CLOCK.match(lines[i]):
                clock(lines[i]); i += 1
            if not (i < n and lines[i].startswith("The reason for the literal")):
                p.garbled = True
                continue
            i += 1
            r, c = None, []
            t = lines[i].strip() if i < n else ""
            if t in ("-1", "-2"):
                i += 1
                r = t
            else:
                c, i = clause(i)
                r = "clause"
            if not lit_ok(l) or not all(lit_ok(x) for x in c):
                bad("assignment " + s, ["C05"])
                p.garbled = True
            if chosen:
                ev.append({"e": "red", "l": l, "L": L, "r": "chosen"})
            elif r == "-2":
                ev.append({"e": "red", "l": l, "L": L, "r": "only"})
            else:
                ev.append({"e": "red", "l": l, "L": L, "r": "unit", "c": c, "rid": 0})
            chosen = None
            continue
        m = RE_BVRED.search(s) if bv else None
        if m:
            l = [int(m.group(1)), 2, bits(m.group(2))]
            L = int(m.group(3))
            nd = None
            for _ in range(3):
                if i < n and lines[i].startswith("Effect:"):
                    i += 1
                elif i < n and lines[i].startswith("New domain:"):
                    nd = bits(lines[i].split(":")[1].strip())
                    i += 1
                elif i < n and RE_CLOCK.match(lines[i]):
                    clock(lines[i]); i += 1
            if not lit_ok(l):
                bad("assignment " + s, ["C24"])
                p.garbled = True
            e = {"e": "red", "l": l, "L": L}
            if nd is not None:
                e["nd"] = nd
            if chosen:
                e["r"] = "chosen"
            else:
                e.update(r="unit", c=unit or [], rid=0)
            ev.append(e)
            chosen = None
            continue
        if bv and s.startswith("unit c : "):
            unit, i = clause(i)
            continue
        m = RE_ENT.search(s)
        if m:
            l = [int(m.group(1)), 1, int(m.group(2))]
            if not lit_ok(l):
                bad("entailment " + s, ["C05"])
                p.garbled = True
            ev.append({"e": "ent", "l": l})
            continue
        m = RE_CONF.search(s)
        if m:
            L = int(m.group(1))
            while i < n and not lines[i].startswith("Conflicting clause"):
                if RE_CLOCK.match(lines[i]):
                    clock(lines[i])
                    i += 1
                else:
                    break
            if i < n and lines[i].startswith("Conflicting clause"):
                c, i = clause(i + 1)
                if bv:      # blank line, then the two watched literals
                    for _ in range(3):
                        if i < n and (lines[i] == "" or RE_LIT.match(lines[i])):
                            i += 1
                if not all(lit_ok(x) for x in c):
                    bad("conflict", ["C05", "C24"])
                    p.garbled = True
                ev.append({"e": "conf", "c": c, "L": L, "rid": 0})
            else:
                p.garbled = True
            continue
        if s.startswith("Learned a clause"):
            c, i = clause(i)
            if not all(lit_ok(x) for x in c):
                bad("learned", ["C04", "C24"])
                p.garbled = True
            ev.append({"e": "learn", "c": c})
            continue
        m = RE_BACK.search(s)
        if m:
            ev.append({"e": "back", "b": int(m.group(1)), "n": -1, "post": -1})
            continue
        m = RE_NBACK.search(s)
        if m:
            for e in reversed(ev):
                if e["e"] == "back":
                    e["n"] = int(m.group(1))
                    break
            continue
        if s.strip() in ("SAT", "UNSAT", "TIMEOUT"):
            p.verdicts.append(s.strip())
            continue
        m = RE_STAT.match(s)
        if m:
            stats[STATKEY[m.group(1)]] = int(m.group(2))
            continue
        if s.startswith("The model"):
            p.model = []
            while i < n:
                m = RE_LIT.match(lines[i])
                if not m:
                    break
                l = lit(*m.groups())
                p.model.append([l[0], l[2] if l[1] == 2 else ([l[2]] if l[1] == 1 else [])])
                i += 1
            continue
        if "Verifying model" in s:
            p.verified = s.split("model is")[-1].strip() if "model is" in s else ""
            continue
    if p.cut:      # nothing after the gap is part of a connected log
        ev[:] = ev[:next((x for x, e in enumerate(ev) if e["e"] == "cut"), len(ev))]
    if p.readings:
        # the search begins after the line that names the file and the time to read it
        mark = out.find(path + " \t") if path else -1
        before = out.count("@clock ", 0, mark) if mark >= 0 else 2
        p.events = [e for e in ev if e["e"] != "clk" or e["n"] > before]
    if len(stats) == 7:
        p.stats = stats
    # several equal verdict lines are one verdict
    p.verdicts = sorted(set(p.verdicts))
    return p


def _canon(dom, c, bv):
    """Clauses as statements, for looking up which clause the log printed."""
    out = set()
    for v, form, val in c:
        if not 1 <= v <= len(dom):
            out.add((v, form, str(val)))
            continue
        if form == 2:
            s = frozenset(val)
        elif form == 1:
            s = frozenset([val])
        elif dom[v - 1] <= 2:
            s = frozenset(x for x in range(dom[v - 1]) if x != val)
        else:
            out.add((v, "!", val))
            continue
        out.add((v, s))
    return frozenset(out)


def _merge(dom, c):
    """The bitset solver's reading of a clause."""
    acc, order = {}, []
    for v, e, d in c:
        s = {d} if e else set(range(dom[v - 1])) - {d}
        if not s:
            continue
        if v not in acc:
            acc[v] = set()
            order.append(v)
        acc[v] |= s
    return [[v, 2, sorted(acc[v])] for v in order]


def finish(parsed, problem, alg):
    """Add the witnesses the specification asks for: which clause was meant,
    and at which level the search went on after a backtrack.  A wrong witness
    cannot make a wrong step acceptable; the specification checks them."""
    dom, cls = problem
    bv = alg == "bv"
    ids = {}
    count = 0
    for c in cls:
        count += 1
        jc = _merge(dom, c) if bv else [[v, e, d] for v, e, d in c]
        ids[_canon(dom, jc, bv)] = count
    ev = parsed.events
    for x, e in enumerate(ev):
        if e["e"] == "learn":
            count += 1
            ids[_canon(dom, e["c"], bv)] = count
        elif e["e"] == "conf" or (e["e"] == "red" and e["r"] == "unit"):
            e["rid"] = ids.get(_canon(dom, e["c"], bv), 0)
        elif e["e"] == "back":
            seen_dec = False
            for f in ev[x + 1:]:
                if f["e"] == "dec":
                    seen_dec = True
                elif f["e"] == "red":
                    e["post"] = f["L"] - (1 if seen_dec else 0)
                    break
                elif f["e"] == "conf":
                    e["post"] = f["L"]
                    break
                elif f["e"] in ("learn", "back"):
                    break
    return parsed


def events(problem, cfg, result, log, oracle, runid, path=None):
    """All events of one run, ready for the trace file."""
    dom, cls = problem
    p = finish(parse(result.out, problem, cfg.alg, path), problem, cfg.alg)
    ev = [{"e": "run", "id": runid, "mode": cfg.mode(log, oracle), "dom": dom,
           "cls": [[[v, e, d] for v, e, d in c] for c in cls]}]
    body = p.events
    logok = log
    if p.garbled:
        logok = False
        cut = next((k for k, e in enumerate(body) if e["e"] == "bad"), None)
        body = body[:cut + 1] if cut is not None else []
    if log:
        ev += body
    else:
        ev += [e for e in body if e["e"] == "clk"]
    verdict = p.verdicts[0] if len(p.verdicts) == 1 else ("NONE" if not p.verdicts else "BOTH")
    ev.append({"e": "end", "rc": result.rc, "verdicts": p.verdicts, "verdict": verdict, "model": sorted(p.model or [], key=lambda x: x[0]),
               "verified": p.verified, "hasstats": p.stats is not None, "log": logok and result.rc == 0,
               "stats": p.stats or {k: 0 for k in STATKEY.values()}})
    if p.cut:
        ev = shorten(ev, len(ev))
    return ev, p


def shorten(ev, most):
    """A long run: its beginning, followed by its end as of a run without log."""
    head = [e for e in ev[:-1] if e["e"] != "cut"][:most]
    run = dict(ev[0], mode=dict(ev[0]["mode"], log=False))
    if run["mode"]["oracle"] == "cert":
        run["mode"]["oracle"] = "none"
    clk = [e for e in ev if e["e"] == "clk"]
    return head + [run] + clk[:1] + clk[1:][-1:] + [dict(ev[-1], log=False)]
