"""Build the programs under test from /repo's working tree into a scratch directory."""
import glob, os, shutil, subprocess, tempfile, atexit, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="mvcheck.")
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_scratch, True))
    return _scratch


class BuildError(Exception):
    pass


def _compile(sources, out, flags):
    objdir = out + ".o.d"
    os.makedirs(objdir)

    def one(src):
        obj = os.path.join(objdir, os.path.basename(src) + ".o")
        r = subprocess.run(["g++", "-w"] + flags + ["-c", src, "-o", obj], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        return obj

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources))
    r = subprocess.run(["g++"] + flags + objs + ["-o", out], capture_output=True, text=True)
    shutil.rmtree(objdir, True)
    if r.returncode:
        raise BuildError(r.stderr)
    return out


FLAGS = {
    "plain": ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
}

_built = {}
_lock = threading.RLock()


def program(which, kind="plain"):
    """which: 'src' (the main program) or 'bitvec'."""
    key = (which, kind)
    with _lock:
        if key not in _built:
            srcs = sorted(glob.glob(os.path.join(REPO, which, "*.cc")))
            out = os.path.join(scratch(), which + "." + kind)
            _built[key] = _compile(srcs, out, FLAGS[kind])
        return _built[key]


def shim(name):
    key = ("shim", name)
    if key not in _built:
        out = os.path.join(scratch(), name + ".so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", os.path.join(VERIF, "tools", "shim", name + ".c"),
                            "-o", out, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        _built[key] = out
    return _built[key]
