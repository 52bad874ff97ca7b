"""Run TLC on trace batches and on the design models."""
import json, os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build

SPEC = os.path.join(build.VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


_n = [0]


def tlc(module, cfg=None, env=None, workers=1, timeout=800, heap="2g", extra=(), cwd=None):
    """Run TLC, return its output.  Metadata goes to the scratch directory."""
    _n[0] += 1
    meta = os.path.join(build.scratch(), "tlc%d" % _n[0])
    e = dict(os.environ)
    if env:
        e.update(env)
    cmd = ["java", "-Xmx" + heap, "-Xss64m",
           "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-cp", CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TLCError("timeout in %s" % module)
    finally:
        subprocess.run(["rm", "-rf", meta])
    return p.stdout.decode("utf-8", "replace")


REACHED = re.compile(r'<<"REACHED", (\d+), (\d+)>>')
STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATS.search(out)
    return (int(m.group(1)), int(m.group(2))) if m else None


def check_trace(module, events, prop, timeout=800, outs=None):
    """(number of accepted events, total).  Raises TLCError when TLC could not decide."""
    _n[0] += 1
    path = os.path.join(build.scratch(), "trace%d.ndjson" % _n[0])
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    out = tlc(module, env={"TRACE": path, "PROPERTY": prop}, timeout=timeout)
    os.unlink(path)
    m = REACHED.search(out)
    if not m or "Error:" in out:
        raise TLCError(out[-3000:])
    if outs is not None:
        outs.append(out)
    reached, total = int(m.group(1)), int(m.group(2))
    return reached - 1, total


def check_batches(module, runs, prop, batches=8, timeout=800, outs=None):
    """runs: list of event lists, each starting from scratch.  Returns (events
    checked, rejected [(run, index)], undecided [(run, why)])."""
    groups = [[] for _ in range(min(batches, max(1, len(runs))))]
    weight = [0] * len(groups)
    for r in sorted(range(len(runs)), key=lambda x: -len(runs[x])):
        k = weight.index(min(weight))
        groups[k].append(r)
        weight[k] += len(runs[r]) + 3
    rejected, undecided = [], []
    checked = [0]

    def one(group):
        stack = [sorted(group)]
        while stack:
            group = stack.pop()
            if not group or len(rejected) >= 3 or len(undecided) >= 20:
                continue
            flat, owner = [], []
            for r in group:
                for x, e in enumerate(runs[r]):
                    flat.append(e)
                    owner.append((r, x))
            try:
                ok, total = check_trace(module, flat, prop, timeout, outs)
            except TLCError as err:
                if len(group) == 1:
                    undecided.append((group[0], str(err)))
                else:
                    h = len(group) // 2
                    stack += [group[h:], group[:h]]
                continue
            checked[0] += ok
            if ok < total:
                rejected.append(owner[ok])
                pos = group.index(owner[ok][0])
                stack.append(group[pos + 1:])

    with ThreadPoolExecutor(batches) as ex:
        list(ex.map(one, groups))
    return checked[0], rejected, undecided
