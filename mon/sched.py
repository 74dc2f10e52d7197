"""Schedule control for the worker pools: delays, faults and an event log shared through fork."""
import multiprocessing, os, time

class Sched:
    """Patches a function process-wide; forked workers inherit the patch.

    delay(*args) gives the seconds to sleep before a call, fault(*args) raises to inject a failure.
    Every call is logged (pid, key) to an append-only file, so that the parent can tell what ran where."""
    def __init__(self, log, owner, name, delay=None, fault=None, key=None):
        self.log, self.owner, self.name = log, owner, name
        self.delay, self.fault, self.key = delay, fault, key
    def __enter__(self):
        self.orig = self.owner.__dict__[self.name] if isinstance(self.owner, type) else getattr(self.owner, self.name)
        orig, me = self.orig, self
        def patched(*a, **k):
            key = me.key(*a, **k) if me.key else ""
            if me.delay:
                time.sleep(me.delay(*a, **k))
            if me.fault:
                me.fault(*a, **k)
            r = orig(*a, **k)
            fd = os.open(me.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, ("%d\t%s\n" % (os.getpid(), key)).encode())
            os.close(fd)
            return r
        setattr(self.owner, self.name, patched)
        return self
    def __exit__(self, *a):
        setattr(self.owner, self.name, self.orig)
    def events(self, clear=True):
        try:
            ev = [l.split("\t", 1) for l in open(self.log).read().splitlines()]
        except OSError:
            return []
        if clear:
            os.remove(self.log)
        return [(int(p), k) for p, k in ev]

def inversions(order):
    return sum(1 for i in range(len(order)) for j in range(i) if order[j] > order[i])

def children():
    """Live child processes of this process, multiprocessing's helpers excluded."""
    me, out = os.getpid(), []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                f = open("/proc/%s/stat" % p).read()
                rest = f[f.rindex(")") + 2:].split()
                if int(rest[1]) == me and rest[0] != "Z":
                    cmd = open("/proc/%s/cmdline" % p).read()
                    if "resource_tracker" not in cmd and "semaphore_tracker" not in cmd:
                        out.append(int(p))
            except (OSError, ValueError):
                pass
    return out

def settled(before=(), wait=5.0):
    """Children left after giving them a moment to end."""
    t0 = time.time()
    while True:
        left = [p for p in children() if p not in before]
        multiprocessing.active_children()           # reaps what has ended
        if not left or time.time() - t0 > wait:
            return left
        time.sleep(0.05)
