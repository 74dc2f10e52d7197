"""One shard of a property's cases, run under the repository's interpreter."""
import importlib, json, os, random, sys, time, traceback, zlib

def judge_exception(mon, i, e):
    """An exception no monitor expected: on the cases of this workload the code never raises,
    and what it returns can always be read; only a lack of resources is the harness's own trouble."""
    import common, errno
    text = traceback.format_exc()
    if isinstance(e, MemoryError) or isinstance(e, OSError) and e.errno in (errno.ENOMEM, errno.ENOSPC, errno.EAGAIN, errno.EMFILE, errno.ENFILE):
        mon.errors.append("case %d: %s" % (i, text))
        return
    where = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(os.path.realpath(os.path.join(common.SRC, "rfsed")) + os.sep)]
    if where:
        mon.violation("raises:" + where[-1].name, "%s raised %s: %s" % (where[-1].name, type(e).__name__, e), traceback=text[-1500:])
    else:
        mon.violation("unreadable-result", "%s while judging: %s: %s" % (traceback.extract_tb(e.__traceback__)[-1].line, type(e).__name__, e), traceback=text[-1500:])

def main():
    prop, tier, seed, shard, nshards, ncases, budget, out, only = sys.argv[1:10]
    seed, shard, nshards, ncases, only = int(seed), int(shard), int(nshards), int(ncases), int(only)
    budget = float(budget)
    import numpy
    import common
    common.import_rfsed()
    mod = importlib.import_module("props." + prop.lower())
    mon = common.Monitor(prop, tier, seed, os.getcwd())
    mon.out = out
    import plans
    minimum = plans.PLANS[prop][tier].get("min_cases", 0)
    t0 = time.time()
    cases = [only] if only >= 0 else range(shard, ncases, nshards)
    done = 0
    for i in cases:
        if time.time() - t0 > budget and done * nshards >= minimum:
            break
        mon.begin(i)
        s = "%d:%s:%s:%d" % (seed, prop, tier, i)
        mon.rng = random.Random(s)
        mon.np = numpy.random.RandomState(zlib.crc32(s.encode()))
        numpy.random.seed(zlib.crc32(s.encode()) ^ 0x5a5a); random.seed(s)
        try:
            mod.run_case(i, mon)
        except common.Abandon:
            pass
        except (Exception, RecursionError) as e:
            judge_exception(mon, i, e)
            if len(mon.errors) > 3:
                break
        mon.end()
        done += 1
        if len(mon.violations) >= 12 or mon.stop:
            break
        if done % 20 == 1:
            mon.dump(out, False)
    if hasattr(mod, "finish"):
        mod.finish(mon)
    mon.dump(out, True)
    sys.stdout.flush()
    os._exit(0)

main()
