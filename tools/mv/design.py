"""What the specification says by itself: the problems it enumerates, and its own model checking."""
import json, os, re, threading, time
from . import build, tlc

_n = [0]


def corpus(kind):
    """Every problem up to a size, written by TLC from module MVCorpus."""
    _n[0] += 1
    path = os.path.join(build.scratch(), "corpus%d.ndjson" % _n[0])
    out = tlc.tlc("MVCorpus", env={"CORPUS": kind, "OUT": path}, heap="4g")
    if "Error:" in out or not os.path.exists(path):
        raise tlc.TLCError(out[-2000:])
    with open(path) as f:
        got = [json.loads(l) for l in f]
    os.unlink(path)
    return got


def problems(kind, r, n=None):
    """(domains, clauses) of the corpus, all of them or n of them, written in some order."""
    got = corpus(kind)
    if n is not None and n < len(got):
        got = r.sample(got, n)
    out = []
    for g in got:
        cls = [[tuple(l) for l in c] for c in g["cls"]]
        if r.random() < 0.7:
            r.shuffle(cls)
            for c in cls:
                r.shuffle(c)
        out.append((g["dom"], cls))
    return out


class Model(threading.Thread):
    """A run of TLC on the specification itself, beside the check's other work."""

    def __init__(self, chk, module, cfg=None, env=None, workers=2, heap="4g", timeout=None, extra=(), what=""):
        super().__init__(daemon=True)
        self.chk, self.module, self.what = chk, module, what or module
        timeout = timeout or (1500 if chk.thorough() else 90)
        self.args = dict(cfg=cfg, env=env, workers=workers, heap=heap, timeout=timeout, extra=extra)
        self.out, self.error = "", None

    def run(self):
        t = time.time()
        try:
            self.out = tlc.tlc(self.module, **self.args)
        except tlc.TLCError as e:
            self.error = str(e)
        self.wall = time.time() - t

    def begin(self):
        """Not before the workers that run the programs were forked."""
        if not self.ident:
            self.start()

    def done(self):
        """Account for the run.  The specification contradicting itself says nothing about the code: no violation,
        but no answer either."""
        self.begin()
        self.join()
        s = tlc.stats(self.out)
        if self.error and self.error.startswith("timeout"):
            self.chk.models.append({"model": self.what, "stopped_after_s": round(self.wall, 1)})
            return
        bad = self.error or (None if "No error has been found" in self.out else self.out[-1500:])
        if bad:
            self.chk.broken.append("%s: %s" % (self.what, bad))
            return
        self.chk.models.append({"model": self.what, "states": s[1], "transitions": s[0], "wall_s": round(self.wall, 1)})
        self.chk.states += s[1]
        self.chk.transitions += s[0]


MODES = {"C04": ["free"], "C05": ["free"], "C06": ["free"], "C07": ["free"], "C08": ["free", "restart"], "C09": ["free"],
         "C10": ["restart"], "C12": ["free", "heur"], "C13": ["heur"], "C24": ["free", "restart"], "C25": ["restart"]}


def search_model(chk):
    """Every obligation of MVSearch on every run of the search as specified: all problems of two clauses, and some
    of the enumerated ones with more."""
    large = corpus("large")
    for m in MODES.get(chk.prop, ["free"]):
        chk.running.append(Model(chk, "MVSearchMC", env={"MODES": m}, what="MVSearchMC, all problems of two clauses, %s" % m))
        n, most = (500, 9) if chk.thorough() else (40, 6)
        many = [g for g in large if 3 <= len(g["cls"]) <= most and not (m == "restart" and g["dom"] == [3, 3])]
        picked = chk.rng.sample([g for g in many if len(g["cls"]) > 3], n // 2 if m == "restart" else n) + \
            chk.rng.sample(many, n // 2)
        path = os.path.join(build.scratch(), "dense%d.ndjson" % len(chk.running))
        with open(path, "w") as f:
            for g in picked:
                f.write(json.dumps({"dom": g["dom"], "cls": g["cls"]}) + "\n")
        chk.running.append(Model(chk, "MVSearchMC", "MVSearchMCDense.cfg", {"MODES": m, "PROBLEMS": path},
                                 what="MVSearchMC, %d enumerated problems of up to %d clauses, %s" % (len(picked), most, m)))


def encode_model(chk):
    """MVEncodeMC: the encodings of the specification do what they are for."""
    some = chk.rng.sample(corpus("large"), 20000 if chk.thorough() else 300)
    path = os.path.join(build.scratch(), "encode.ndjson")
    with open(path, "w") as f:
        for g in some:
            f.write(json.dumps({"dom": g["dom"], "cls": g["cls"]}) + "\n")
    chk.running.append(Model(chk, "MVEncodeMC", env={"PROBLEMS": path, "PROPERTY": "NONE", "TRACE": path},
                             what="MVEncodeMC, %d enumerated problems and variables of 1 to 7 values" % len(some)))
