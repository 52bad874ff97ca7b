"""Shared machinery of the checks: bookkeeping, evidence, violations, search traces."""
import json, multiprocessing, os, random, shutil, sys, time
from . import build, solver, tlc

EVIDENCE = os.environ.get("MV_EVIDENCE") or os.path.join(build.VERIF, "evidence")


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.undecided = 0
        self.samples, self.violations, self.notes = [], [], []
        self.counters = {}
        self.models, self.broken, self.running = [], [], []
        self.assumptions = []
        self.known = load_known(prop)
        shutil.rmtree(self.replay_dir(), True)

    def begin_models(self):
        for m in self.running:
            m.begin()

    def thorough(self):
        return self.tier == "thorough"

    def replay_dir(self):
        return os.path.join(EVIDENCE, "replay", self.prop)

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, what, files, ident=None):
        """files: name -> text.  ident: what a known-findings line would name."""
        if ident and ident in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, ident))
            return
        d = os.path.join(self.replay_dir(), str(len(self.violations) + 1))
        os.makedirs(d, exist_ok=True)
        for name, body in files.items():
            with open(os.path.join(d, name), "w") as f:
                f.write(body)
        with open(os.path.join(d, "what.txt"), "w") as f:
            f.write(what + "\n")
        self.violations.append((what, d))
        print("%s: %s" % (self.prop, what))
        print("VIOLATION property=%s replay=%s" % (self.prop, d))
        sys.stdout.flush()

    def tlc_stats(self, out):
        s = tlc.stats(out)
        if s:
            self.transitions += s[0]
            self.states += s[1]

    def finish(self):
        self.begin_models()
        for m in self.running:
            m.done()
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.counters)
        cov["trace_events"] = self.events
        if self.models:
            cov["specification_models"] = self.models
        if self.undecided:
            cov["undecided"] = self.undecided
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d runs of the real programs validated, %d trace events, %d states, %.1fs%s" % (
            self.prop, "VIOLATED" if self.violations else "held", self.traces, self.events, self.states,
            ev["wall_s"], ", %d undecided" % self.undecided if self.undecided else ""))
        if self.violations:
            return 1
        if self.broken:
            print("%s: the specification's own model checking failed: %s" % (self.prop, self.broken[0]))
            return 2
        if self.undecided > 0.2 * (self.traces + self.undecided):
            print("%s: too many runs could not be decided: %s" % (self.prop, self.notes[:1]))
            return 2
        return 0


def load_known(prop):
    """Lines "known: property=<id> <identifier>"; "fixed:" lines suppress nothing."""
    out = set()
    try:
        with open(os.path.join(build.VERIF, "known-findings.txt")) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    out.add(line.split(" ", 2)[2].strip())
    except OSError:
        pass
    return out


# ------------------------------------------------------------------ running


class Job:
    """One run of a solver on a problem."""
    __slots__ = ("problem", "cfg", "log", "oracle", "env", "kind", "args", "events", "result", "text", "tag")

    def __init__(self, problem, cfg, log=True, oracle="full", env=None, kind="plain", args=None, text=None, tag=""):
        self.problem, self.cfg, self.log, self.oracle, self.env = problem, cfg, log, oracle, env
        self.kind, self.args, self.text, self.tag = kind, args, text, tag
        self.events = self.result = None

    def program(self):
        return build.program("bitvec" if self.cfg.alg == "bv" else "src", self.kind)

    def describe(self):
        return "%s%s" % (self.cfg.name(), " " + self.tag if self.tag else "")


_jobs, _shared = [], None      # set just before the workers are forked


class Waste:
    """What all workers together have spent on runs that hang or get killed."""
    def __init__(self, ctx, max_timeouts, max_wasted):
        self.hangs, self.seconds = ctx.Value("i", 0), ctx.Value("d", 0.0)
        self.max_timeouts, self.max_wasted = max_timeouts, max_wasted

    def too_much(self):
        return self.hangs.value >= self.max_timeouts or self.seconds.value >= self.max_wasted


def _one(x):
    j, waste, timeout, patience = _jobs[x], *_shared
    if waste.too_much():
        return x, None
    d = os.path.join(build.scratch(), "runs")
    path = os.path.join(d, "p%d" % x)
    with open(path, "w") as f:
        f.write(j.text if j.text is not None else solver.text(j.problem))
    args = j.args(path) if j.args else j.cfg.args(path, j.log)
    t = time.time()
    head = solver.HEAD if j.log else solver.ALL
    res = solver.execute([j.program()] + args, env=j.env, timeout=timeout, head=head)
    if res.timeout and not waste.too_much():
        res = solver.execute([j.program()] + args, env=j.env, timeout=patience, head=head)
    if res.timeout:
        with waste.hangs.get_lock():
            waste.hangs.value += 1
    elif res.rc < 0:      # killed: by a crash or by the limits set on every run
        with waste.seconds.get_lock():
            waste.seconds.value += time.time() - t + 0.1
    events, _ = solver.events(j.problem, j.cfg, res, j.log, j.oracle, x, path)
    os.unlink(path)
    return x, (events, res.rc, res.out[:200000], res.timeout)


def run_jobs(jobs, timeout=20, max_timeouts=3, patience=90, max_wasted=60):
    """Run all jobs (in parallel), fill in events.  A run that does not end in time gets one more chance with
    more time, in case the machine is busy.  Stops early when runs hang or flood."""
    global _jobs, _shared
    os.makedirs(os.path.join(build.scratch(), "runs"), exist_ok=True)
    for kind in {(j.cfg.alg == "bv", j.kind) for j in jobs}:
        build.program("bitvec" if kind[0] else "src", kind[1])
    ctx = multiprocessing.get_context("fork")
    _jobs, _shared = jobs, (Waste(ctx, max_timeouts, max_wasted), timeout, patience)
    with ctx.Pool(8) as pool:
        for x, got in pool.imap_unordered(_one, range(len(jobs)), 8):
            if got:
                jobs[x].events = got[0]
                jobs[x].result = solver.Result(*got[1:])
        pool.close()
        pool.join()
    _jobs, _shared = [], None
    return [j for j in jobs if j.result is not None]


def replay_files(job, at=None):
    path = "problem.cnf"
    args = job.args(path) if job.args else job.cfg.args(path, job.log)
    files = {"problem.cnf": job.text if job.text is not None else solver.text(job.problem),
             "command.txt": "# program built from %s/%s\n%s Solver %s\n" % (
                 build.REPO, "bitvec" if job.cfg.alg == "bv" else "src",
                 " ".join("%s=%s" % kv for kv in (job.env or {}).items() if kv[0] != "LD_PRELOAD"), " ".join(args)),
             "output.txt": job.result.out[:200000],
             "trace.ndjson": "".join(json.dumps(e) + "\n" for e in job.events)}
    if at is not None:
        files["rejected.txt"] = "the specification (module MVTrace) rejects event %d of trace.ndjson:\n%s\n" % (
            at + 1, json.dumps(job.events[at]))
    return files


def check_search(chk, jobs, max_events=1500, module="MVTrace", timeout=600):
    """Run jobs and check every trace against the specification, enforcing chk.prop."""
    kept = run_jobs(jobs)
    for j in kept:
        if len(j.events) > max_events:
            j.events = solver.shorten(j.events, max_events)
            chk.count("runs_checked_up_to_a_point")
    for j in kept:
        for e in j.events:
            chk.count("ev_" + e["e"])
        v = j.events[-1]["verdict"]
        chk.count("verdict_" + v)
    chk.count("configurations", 0)
    chk.counters["configurations"] = len({j.cfg.name() for j in kept})
    outs = []
    chk.begin_models()
    checked, rejected, undecided = tlc.check_batches(module, [j.events for j in kept], chk.prop, outs=outs,
                                                     timeout=timeout)
    for o in outs:
        chk.tlc_stats(o)
    chk.events += checked
    chk.traces += len(kept) - len(undecided)
    chk.undecided += len(undecided)
    for r, why in undecided[:2]:
        chk.notes.append("undecided run (%s): %s" % (kept[r].describe(), why[-300:]))
    for j in sorted(kept, key=lambda j: -len(j.events))[:1] + kept[:1]:
        chk.sample({"configuration": j.describe(), "problem": solver.text(j.problem)[:600],
                    "events": len(j.events), "verdict": j.events[-1]["verdict"]})
    for r, x in rejected[:3]:
        j = kept[r]
        # confirm on the run alone: rejected under this property, followed to the end without any
        try:
            ok, total = tlc.check_trace(module, j.events, chk.prop)
            okn, totaln = tlc.check_trace(module, j.events, "NONE")
        except tlc.TLCError as err:
            chk.undecided += 1
            continue
        if ok >= total or okn < totaln:
            chk.undecided += 1
            continue
        e = j.events[ok]
        chk.violation("%s, event %d of %d: %s" % (j.describe(), ok + 1, total, json.dumps(e)[:300]),
                      replay_files(j, ok))
    return kept
