"""Installers, example loaders and output folders, over a copy of the package."""
import contextlib, hashlib, io, os, shutil
import numpy as np
import common

ORIG = os.path.join(os.environ.get("RFSED_ORIGINAL", common.REPO), "src", "rfsed")
PKG = os.path.join(common.SRC, "rfsed")
_digest = {}

def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()

def files(d, sub=""):
    """{relative path: digest}, {relative folder} below d, compiled files aside."""
    out, dirs = {}, set()
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x != "__pycache__"]
        for x in ds:
            dirs.add(os.path.normpath(os.path.join(sub, os.path.relpath(os.path.join(r, x), d))))
        for f in fs:
            if not f.endswith(".pyc"):
                p = os.path.join(r, f)
                out[os.path.normpath(os.path.join(sub, os.path.relpath(p, d)))] = sha(p)
    return out, dirs

def shipped(what):
    if what not in _digest:
        if what == "tests":
            _digest[what] = files(os.path.join(ORIG, "examples", "rfsed_tests"))
        else:
            a, da = files(os.path.join(ORIG, "examples"), "examples"); b, db = files(os.path.join(ORIG, "data"), "data")
            _digest[what] = (dict(a, **b), da | db | {"examples", "data"})
    return _digest[what]

def size(what, f):
    """Of a shipped file: stale copies of the same length are the hardest to tell."""
    try:
        return os.path.getsize(os.path.join(ORIG, "examples", "rfsed_tests", f) if what == "tests" else os.path.join(ORIG, f))
    except OSError:
        return 7

def write(p, data):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)

def installers(mon, rng):
    from rfsed import util
    root = mon.newdir()
    cwd = os.getcwd()
    os.chdir(root)
    try:
        targets = {}                                 # absolute folder -> (what, given path)
        ops = []
        source0 = files(PKG)
        for step in range(rng.choice([3, 4, 6])):
            what = rng.choice(["examples", "tests"])
            fn = util.install_examples if what == "examples" else util.install_rfsed_tests
            old = [t for t, w in targets.items() if w[0] == what]
            default = False
            if old and rng.random() < .6:
                t = rng.choice(old); given = targets[t][1]; default = targets[t][2]
            else:
                given = rng.choice(["inst%d" % step, "a/b/c%d" % step, "./x %d" % step, "deep/../e%d" % step, "tail%d/" % step, os.path.join(root, "abs%d" % step), None])
                default = given is None
                if default:
                    given = "./rfsed_examples" if what == "examples" else "./rfsed_tests"
                t = os.path.realpath(given)
                targets[t] = (what, given, default)
            names, dirs = shipped(what)
            # disturb what is there
            kind = rng.choice(["none", "none", "remove all", "stale", "stale", "delete some", "foreign", "mixed"])
            if kind == "remove all" and os.path.isdir(t):
                shutil.rmtree(t)
                mon.count("reinstallations after removal")
            if kind in ("stale", "mixed"):
                for f in rng.sample(sorted(names), min(len(names), 6)):
                    write(os.path.join(t, f), rng.choice([b"", b"stale", b"x" * 400000, b"y" * size(what, f), b"y" * size(what, f)]))
                    if rng.random() < .5:            # newer than the shipped file
                        os.utime(os.path.join(t, f), (4e9, 4e9))
                mon.count("installations over stale files")
            if kind in ("delete some", "mixed") and os.path.isdir(t):
                for f in rng.sample(sorted(names), min(len(names), 5)):
                    p = os.path.join(t, f)
                    if os.path.exists(p) and rng.random() < .7:
                        os.remove(p)
                    d = os.path.dirname(p)
                    if rng.random() < .3 and os.path.isdir(d) and d != t:
                        shutil.rmtree(d)
            foreign = {}
            if kind in ("foreign", "mixed"):
                for f in ["mine.txt", "examples/notes.txt", "data/rfstreams_Moho/mine.h5", "test_mine.py", "plots/own.jpg", "examples/plots/OPLO_other.jpg"]:
                    if rng.random() < .6:
                        write(os.path.join(t, f), b"mine " + f.encode())
                mon.count("installations beside foreign files")
            b4 = files(t)[0] if os.path.isdir(t) else {}
            all4 = files(root)[0]
            ops.append((what, given, kind))
            mon.describe(ops=ops)
            mon.call("install_" + what, fn, *([] if default else [given]))
            af, ad = files(t)
            key = "install-" + what
            bad = [f for f in names if af.get(f) != names[f]]
            mon.count("installed files compared", len(names))
            mon.check(not bad, key + ":content", "%d of %d shipped files missing or different, e.g. %s (%s)" % (len(bad), len(names), bad[:2], kind))
            mon.check(dirs <= ad, key + ":folders", "folders missing: %s" % sorted(dirs - ad)[:3])
            lost = [f for f in b4 if f not in names and af.get(f) != b4[f]]
            mon.check(not lost, key + ":foreign", "unrelated files changed or gone: %s" % lost[:3])
            new = [f for f in af if f not in names and f not in b4]
            mon.check(not new, key + ":extra", "files that are not shipped: %s" % new[:3])
            rel = os.path.relpath(t, root)
            out = [f for f in set(files(root)[0]) ^ set(all4) if not f.startswith(rel + os.sep)]
            mon.check(not out, key + ":elsewhere", "files outside the target: %s" % out[:3])
            mon.count("installations judged")
        mon.check(files(PKG) == source0, "install:source", "the shipped files were changed")
    finally:
        os.chdir(cwd)
    shutil.rmtree(root)

def same_stream(mon, key, st, path):
    from rf.rfstream import read_rf
    want = read_rf(path)
    if not mon.check(len(st) == len(want), key + ":traces", "%d traces, shipped %d" % (len(st), len(want))):
        return
    for a, b in zip(st, want):
        mon.check(a.id == b.id and np.array_equal(a.data, b.data) and a.stats.starttime == b.stats.starttime and a.stats.delta == b.stats.delta
                  and a.stats.get("onset") == b.stats.get("onset") and a.stats.get("slowness") == b.stats.get("slowness")
                  and a.stats.get("back_azimuth") == b.stats.get("back_azimuth") and a.stats.get("distance") == b.stats.get("distance"),
                  key + ":content", "trace %s differs from the shipped one" % a.id)
        mon.count("loaded traces compared")

LOADERS = [("rfMoho_example", "data/rfstreams_Moho/rfstreams.h5"), ("rfSed_example", "data/rfstreams_Sed/rfstreams.h5"),
           ("read_raw_waveform_data", "examples/IRIS_Downloaded_Waveform/00_eq_data.h5")]
SAVERS = dict(save_Eq_data="earthquake_data", save_IRIS_waveform="IRIS_Downloaded_Waveform", save_calculated_RF="Calculated_Receiver_Functions",
              save_catalog="catalog", save_plot="plots", save_tests="test_output")

def loaders(mon, rng):
    from rfsed import util
    cwd = os.getcwd(); d = mon.newdir(); os.chdir(d)
    ops = []
    try:
        for _ in range(rng.choice([2, 3])):
            name, f = rng.choice(LOADERS)
            ops.append(name); mon.describe(ops=ops)
            st = mon.call(name, getattr(util, name))
            same_stream(mon, name, st, os.path.join(ORIG, f))
            if rng.random() < .5:                    # what the caller does to it stays with the caller
                for tr in st:
                    tr.data *= 0; tr.stats.slowness = 1; tr.stats.station = "ZZ"
                del st[0]
            mon.check(sha(os.path.join(PKG, f)) == sha(os.path.join(ORIG, f)), name + ":source", "the shipped file was changed")
        p = mon.call("catalog_example", util.catalog_example)
        ops.append("catalog_example")
        mon.check(os.path.isfile(p) and sha(p) == sha(os.path.join(ORIG, "data/Earthquake_Catalog/eq_events.quakeml")), "catalog_example:path", "%s is not the shipped catalog" % p)
        p = mon.call("raw_data_example", util.raw_data_example)
        mon.check(os.path.realpath(p) == os.path.realpath(os.path.join(PKG, "data/Raw_Data")), "raw_data_example:path", "%s" % p)
        mon.check(not os.listdir(d), "loaders:cwd", "files written to the working folder: %s" % os.listdir(d)[:3])
        mon.count("paths judged", 2)
    finally:
        os.chdir(cwd)

def savers(mon, rng):
    from rfsed import util
    cwd = os.getcwd(); d = mon.newdir(); os.chdir(d)
    ops = []
    try:
        for _ in range(rng.choice([3, 5, 8])):
            name = rng.choice(sorted(SAVERS)); folder = os.path.join(PKG, "examples", SAVERS[name])
            act = rng.choice(["none", "remove", "own file"])
            if act == "remove" and os.path.isdir(folder):
                shutil.rmtree(folder)
            if act == "own file":
                write(os.path.join(folder, "sub", "own.txt"), b"own")
            ops.append((name, act)); mon.describe(ops=ops)
            b4 = files(folder)[0] if os.path.isdir(folder) else {}
            p = mon.call(name, getattr(util, name))
            mon.check(isinstance(p, str) and os.path.isdir(p), name + ":exists", "%r is no existing folder (%s)" % (p, act))
            mon.check(os.path.realpath(p) == os.path.realpath(folder), name + ":which", "%s returned" % p)
            mon.check(files(p)[0] == b4, name + ":content", "the content of the folder changed")
            mon.check(not os.listdir(d), name + ":cwd", "written to the working folder: %s" % os.listdir(d)[:3])
            mon.count("output folders judged"); mon.count("output folders created", act == "remove")
    finally:
        os.chdir(cwd)
        for name in SAVERS.values():                 # the package copy as it was
            shutil.rmtree(os.path.join(PKG, "examples", name), ignore_errors=True)
            shutil.copytree(os.path.join(ORIG, "examples", name), os.path.join(PKG, "examples", name), ignore=shutil.ignore_patterns("__pycache__"))

def run_case(i, mon):
    if "RFSED_ORIGINAL" not in os.environ or os.path.realpath(PKG) == os.path.realpath(ORIG):
        raise RuntimeError("must run on a copy of the package")
    rng = mon.rng
    # not i % 3: with eight shards every shard must meet all three
    which = rng.choice(["install", "install", "load", "save"])
    mon.describe(which=which)
    {"install": installers, "load": loaders, "save": savers}[which](mon, rng)
    mon.nontriv()
