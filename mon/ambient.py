"""The state of a process that a call must leave alone, and the files it opens."""
import gc, locale, logging, os, random, signal, sys, tempfile, threading, time, warnings
import numpy as np
import matplotlib, matplotlib.pyplot as plt

def snapshot():
    """{name: comparable value} of what no function of the package is asked to change."""
    m = os.umask(0); os.umask(m)
    rs = np.random.get_state()
    lg = logging.getLogger()
    return {
        "working directory": os.getcwd(), "environment": dict(os.environ), "umask": m,
        "numpy random state": (rs[0], rs[1].tolist(), rs[2], rs[3], rs[4]), "Python random state": random.getstate(),
        "numpy error handling": dict(np.geterr()), "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "matplotlib settings": {k: repr(v) for k, v in dict.items(matplotlib.rcParams)}, "matplotlib backend": matplotlib.get_backend(), "matplotlib interactive mode": matplotlib.is_interactive(),
        "warning filters": [repr(f) for f in warnings.filters], "module search path": list(sys.path), "program arguments": list(sys.argv),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "warning display": (id(warnings.showwarning), id(sys.excepthook)),
        "signal handlers": {s: str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP)},
        "logging": (lg.level, logging.root.manager.disable, [id(h) for h in lg.handlers]), "locale": locale.setlocale(locale.LC_ALL), "time zone": time.tzname,
        "recursion limit": sys.getrecursionlimit(), "garbage collection": gc.isenabled(), "threads": sorted(t.name for t in threading.enumerate()),
        "temporary folder": tempfile.tempdir,
        "built-in functions": (id(open), id(print), id(os.getcwd), id(plt.show), id(plt.close), id(np.random.rand)),
    }

def restore(s):
    os.chdir(s["working directory"]); os.umask(s["umask"])
    if dict(os.environ) != s["environment"]:
        os.environ.clear(); os.environ.update(s["environment"])
    rs = s["numpy random state"]
    np.random.set_state((rs[0], np.array(rs[1], dtype="uint32"), rs[2], rs[3], rs[4])); random.setstate(s["Python random state"])
    np.seterr(**s["numpy error handling"])
    sys.setrecursionlimit(s["recursion limit"]); sys.path[:] = s["module search path"]; sys.argv[:] = s["program arguments"]

def changes(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                out.append("%s (%s)" % (k, ", ".join("%s: %s -> %s" % (x, str(a[k].get(x))[:60], str(b[k].get(x))[:60]) for x in sorted(set(a[k]) | set(b[k]), key=str) if a[k].get(x) != b[k].get(x))[:300]))
            elif "random" in k:
                out.append(k)
            else:
                out.append("%s (%s -> %s)" % (k, str(a[k])[:150], str(b[k])[:150]))
    return out

def descriptors(collect=1):
    for _ in range(collect):
        gc.collect()
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return out

class Files:
    """Records every file opened (and folder made) by this process and its forked children, by an audit hook."""
    def __init__(self, log):
        self.on = False
        self.fd = os.open(log, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        me, busy = self, threading.local()
        def hook(name, args):
            if not me.on or name not in ("open", "tempfile.mkdtemp", "tempfile.mkstemp"):
                return
            if getattr(busy, "x", False):
                return
            busy.x = True
            try:
                p, mode, flags = (tuple(args) + (None, None))[:3]
                if not isinstance(p, (str, bytes, os.PathLike)):
                    return
                p = os.fsdecode(os.fspath(p))
                w = bool(set(str(mode)) & set("wax+")) if isinstance(mode, str) else bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))
                if name != "open":
                    w = True
                os.write(me.fd, ("%s\t%s\n" % ("w" if w else "r", os.path.abspath(p))).encode())
            except Exception:
                pass
            finally:
                busy.x = False
        sys.addaudithook(hook)
    def __enter__(self):
        os.ftruncate(self.fd, 0); self.on = True
        return self
    def __exit__(self, *a):
        self.on = False
        b = os.pread(self.fd, os.fstat(self.fd).st_size, 0).decode(errors="replace")
        self.read, self.written = set(), set()
        for l in b.splitlines():
            if "\t" in l:
                k, p = l.split("\t", 1)
                (self.written if k == "w" else self.read).add(p)

class Tempting:
    """Whatever the package looks for in the given folders comes into being as it looks, and whatever environment variable it
    asks for is set: surroundings that decide something are then seen to."""
    def __init__(self, folders, source, value):
        self.folders, self.source, self.value = [os.path.realpath(f) + os.sep for f in folders], source, value
        self.files, self.names, self.known = [], [], set(os.environ)
    def mine(self):
        f, k = sys._getframe(2), 0
        while f is not None and k < 7:
            if f.f_code.co_filename.startswith(self.source):
                return True
            f, k = f.f_back, k + 1
        return False
    def __enter__(self):
        me = self; self.real_stat, self.real_get = os.stat, os._Environ.__getitem__
        def stat(path, *a, **k):
            try:
                return me.real_stat(path, *a, **k)
            except FileNotFoundError:
                try:
                    p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(path))), os.path.basename(path))
                    if any(p.startswith(f) for f in me.folders) and os.path.splitext(p)[1] and me.mine():
                        with open(p, "w") as g:
                            g.write('{"itmax": 1, "order": 1, "format": "svg"}\n')
                        me.files.append(p)
                        return me.real_stat(path, *a, **k)
                except (OSError, TypeError, ValueError):
                    pass
                raise
        def getitem(env, key):
            try:
                return me.real_get(env, key)
            except KeyError:
                if isinstance(key, str) and key not in me.known and me.mine():
                    me.names.append(key)
                    return me.value
                raise
        os.stat, os._Environ.__getitem__ = stat, getitem
        return self
    def __exit__(self, *a):
        os.stat, os._Environ.__getitem__ = self.real_stat, self.real_get
