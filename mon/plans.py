"""Budgets and coverage floors per property and tier."""
def plan(qcases, qbudget, tcases, tbudget, require=None, min_cases=8, **kw):
    q = dict(cases=qcases, budget=qbudget, require=require or {}, min_cases=min_cases, **kw)
    t = dict(q, cases=tcases, budget=tbudget, min_cases=min_cases)
    return {"quick": q, "thorough": t}

PLANS, RULES = {}, {}
# PyPy processes that fork workers: a small nursery keeps each at a third of the memory
FORKS = {"PYPY_GC_NURSERY": "6MB"}

PLANS["C01"] = plan(400, 25, 20000, 900, {"checks": 500, "stack on": 10, "stack off": 20,
                    "streams with several location codes": 8, "grid points checked": 1000}, min_cases=64)
RULES["C01"] = ("case = random RF stream (1..31 traces, 8 sampling rates, even/odd length, several location codes, "
                "float32/64, scales; or the shipped example streams) x random H/K grid (ascending, descending, shuffled, "
                "integer) x Vp x weights x layer x stack flag; non-trivial when the reference surface is not constant "
                "over at least 4 grid points; distinct by description")

PLANS["C02"] = plan(300, 28, 15000, 900, {"checks": 500, "stack on": 8, "stack off": 20, "streams of different size": 20,
                    "negative stack values seen": 50}, min_cases=64)
RULES["C02"] = ("case = pair of random RF streams on a common time axis (different sizes, slownesses, location codes) x sediment and "
                "Moho grids, velocities, weights x stack None/False/True; non-trivial when both reference surfaces vary and a stream has several traces")
PLANS["C03"] = plan(2400, 25, 40000, 900, {"checks": 800, "inputs with a trough": 100, "odd length": 20,
                    "even length": 20, "several location codes": 10, "scaling checks": 10}, min_cases=200)
RULES["C03"] = ("case = RF stream made of an echo train of known lag and strength, noise, pulses, a hump, a cosine, a ramp or a very short record, "
                "over lengths, samplings, trace counts, location codes and amplitudes; non-trivial when the reference autocorrelation has a definite first trough")
PLANS["C04"] = plan(500, 25, 30000, 900, {"checks": 800, "zero lag": 5, "positive lag": 50}, min_cases=64)
RULES["C04"] = ("case = filtered RF (made, or the output of ResonanceFilt) x lag (zero, on-sample, off-sample) x ray parameter x velocities x weights x grid; "
                "non-trivial when the lag is positive and the reference surface varies")
PLANS["C05"] = plan(450, 28, 30000, 900, {"checks": 800, "case hk": 20, "case seq": 20, "case flt": 20, "rmneg on": 4, "rmneg off": 8,
                    "negative Moho values expected": 20}, min_cases=90)
RULES["C05"] = ("case = one RF array x (hkSynth | hkSeqSynth | synthetic ResonanceFilt) x grids, velocities, weights, ray parameter, rmneg, compared with the "
                "reference and with the real-data function on a one-trace stream; non-trivial when the reference surface varies or the trough is definite")
PLANS["C06"] = plan(600, 25, 30000, 900, {"recovery judged hk": 8, "recovery judged hkSeqMoho": 6, "recovery judged hkYu": 6, "recovery judged hkSynth": 4,
                    "recovery judged hkSeqSynthMoho": 4, "forward-modelled recovery judged": 8, "orderings compared": 8}, min_cases=80)
RULES["C06"] = ("case = known one-layer or sediment-over-crust structure turned into RFs by planting pulses (hk, hkSeq, hkYu after ResonanceFilt, hkSynth, "
                "hkSeqSynth) or by the package's own forward modelling and deconvolution, searched on a grid containing it in random order; "
                "non-trivial when the planted structure beats every other grid point by a margin sampling cannot undo and the recovery was judged")
PLANS["C07"] = plan(800, 25, 40000, 900, {"frequencies compared with the reference": 1500, "layer splits compared": 8, "half-space depths compared": 8,
                    "ray parameter lists compared": 8, "lengths compared": 8, "P incidence": 20, "SV incidence": 10, "source spectra judged flat": 8}, min_cases=60)
RULES["C07"] = ("case = random model of 0..6 layers over a half-space, 1..4 pre-critical ray parameters (float, list or array), sampling, length, P or SV incidence, and one of: "
                "spectra against the boundary-value solution, split layer, moved half-space bottom, other ray parameters, other length; non-trivial as the relation allows")
PLANS["C08"] = plan(1200, 25, 60000, 900, {"self-deconvolutions": 8, "spike trains recovered": 16, "scalings compared": 8, "misfits recomputed": 8,
                    "delays compared": 8, "length mismatches rejected": 8, "stopped by convergence": 8, "stopped by the iteration limit": 4, "acausal recoveries": 2}, min_cases=96)
RULES["C08"] = ("case = random wavelet, sampling, length, preonset (off-sample included), Gaussian, limits, phase, amplitude with one of: self-deconvolution, spike train, noise pair through "
                "all entry points, scaling, misfit recomputation, delay, mismatched lengths; non-trivial as the relation allows")
PLANS["C09"] = plan(3000, 20, 200000, 900, {"quotients compared": 40, "water level active": 10, "water level inactive": 3, "self-deconvolutions": 40, "linear combinations compared": 40,
                    "wrappers compared": 40, "bad inputs rejected": 40, "normalised peaks judged": 2}, min_cases=300)
RULES["C09"] = ("case = random input pair, sampling, length, water level, Gaussian, preonset, normalize, amplitude with one of: reference quotient, self-deconvolution, linearity, wrappers, bad inputs; "
                "non-trivial when the water level is active or the relation was exercised")
PLANS["C10"] = plan(600, 28, 30000, 900, {"phases located": 30, "RFs by iter": 6, "RFs by water": 4, "requests repeated": 4, "requests compared with a fresh object": 20,
                    "forward runs repeated": 4}, min_cases=48)
RULES["C10"] = ("case = one-layer crust with its RFs searched for P, Ps, PpPs, PsPs+PpSs, or a history of run_fwd / filter / run_deconvolution requests over one or two synrf objects "
                "compared with fresh objects; non-trivial for phase searches and histories of more than four steps")
PLANS["C11"] = plan(120, 28, 20000, 900, {"models scored independently": 40, "best models compared": 60, "data made from a grid model": 5}, min_cases=24)
RULES["C11"] = ("case = stream of 1..4 radial RFs (with other components and location codes, noise, pulses, near a model or made from a grid model) x parameters, preonset (off-sample included), "
                "sampling, grids in any order, weights; up to three models per case scored independently; non-trivial when the correlations vary over the grid")
PLANS["C12"] = plan(60, 40, 6000, 900, {"schedules run": 8, "solutions compared with serial": 60, "reports compared with serial": 4}, min_cases=12, workers=6, env=FORKS)
RULES["C12"] = ("case = stream, grids, weights fitted serially and by run_waveformfitting with two or three worker counts (1..more than depths) under inverted, random or no injected delays, "
                "then plotbestmodel; non-trivial when some run finished its depths out of order")
PLANS["C15"] = plan(300, 35, 20000, 900, {"schedules run": 20, "extracted traces judged": 100, "file-window-trace triples judged": 100}, min_cases=24, workers=6, env=FORKS)
RULES["C15"] = ("case = 1..4 record files (gaps, channels, formats, contiguous or overlapping, given in any order) x window list (inside, across edges, off the records, overlapping) extracted with two or three "
                "worker counts under inverted or random delays of the readers; every written sample traced back to its record; non-trivial with several windows over recorded data")
PLANS["C13"] = plan(200, 35, 20000, 900, {"windows judged": 40, "schedules run": 8}, min_cases=16, workers=6, env=FORKS)
RULES["C13"] = ("case = random station, request window and catalog (0..690 km deep, near, far, antipodal, duplicate and unsorted events) annotated, windowed serially and by 1..more than events workers under "
                "inverted or random delays of the travel-time calls; non-trivial with several events")
PLANS["C14"] = plan(500, 30, 30000, 900, {"extracted traces judged": 60, "covered file-event pairs": 40, "uncovered file-event pairs": 40}, min_cases=40)
RULES["C14"] = ("case = 1..4 record files (gaps, channels, formats, contiguous or overlapping, files outside the prefix) x catalog with event windows inside, 0.3..3 samples around edges, across and off the records; "
                "every written sample traced back; non-trivial when some file-event pair is not covered")
PLANS["C17"] = plan(400, 40, 20000, 900, {"figures judged": 60, "surfaces judged": 30, "time markers judged": 200, "curves judged": 60, "real files judged": 8,
                    "plots with a figure open": 8, "plots judged wf": 2}, min_cases=32)
RULES["C17"] = ("case = 2..5 results of randomly chosen analyses plotted one after the other (the first sometimes again) with random gains, rmneg, format, positional, by name or left out, "
                "into absolute, relative or nested folders holding older and foreign files, sometimes with a figure of the user's open; every saved figure's artists are recorded and judged, "
                "the folder trees compared, a quarter really written and their content identified; non-trivial with several plots")
PLANS["C16"] = plan(400, 45, 20000, 900, {"objects compared with their snapshot": 1500, "calls repeated": 30, "calls compared with equal arguments": 60, "plots made": 20}, min_cases=24)
RULES["C16"] = ("case = history of 6..11 analysis, plot (random rmneg, gains, formats), deconvolution, forward-modelling and travel-time calls over two shared streams, shared results and own arrays; "
                "every live object is compared with its snapshot after every call, repeated calls and the same calls on equal arguments with the first result; non-trivial with more than four steps")
PLANS["C19"] = plan(600, 30, 20000, 900, {"None combinations compared": 60, "omitted parameters compared": 30, "plots with None compared": 20, "plots with omitted options compared": 10,
                    "explicit zero weights": 20, "plots keeping negative values": 5, "explicit plot options judged": 20, "fitting weights judged": 4}, min_cases=48)
RULES["C19"] = ("case = random call of hk, hkSeq, hkYu, hkSynth, hkSeqSynth with a random subset of parameters None against the documented defaults, trailing parameters left out, zero weights and False flags judged "
                "by the formulas; the same for the options of its plot; plotbestmodel weights; non-trivial when several parameters are None")
PLANS["C18"] = plan(600, 20, 20000, 400, {"installations judged": 40, "installed files compared": 1000, "reinstallations after removal": 3, "installations over stale files": 8,
                    "installations beside foreign files": 8, "loaded traces compared": 40, "output folders judged": 20, "output folders created": 5}, min_cases=32, copy=True)
RULES["C18"] = ("case = history of installations into random targets (new, nested, relative, default, with stale, newer, deleted and foreign files, removed), or of loader calls whose results the caller "
                "spoils, or of save_* calls with their folder removed or in use, over a copy of the package; non-trivial always")
PLANS["C20"] = plan(300, 35, 20000, 900, {"faults reported": 40, "calls checked for workers left behind": 100, "reader faults fired": 5, "unreadable files met": 5, "unwritable targets met": 5,
                    "travel time faults fired": 5, "fitting faults fired": 5, "retries after faults": 20}, min_cases=36, workers=6, env=FORKS)
RULES["C20"] = ("case = serial or parallel extraction, parallel event windows or parallel fitting run once without fault, then with one to three injected faults (exception of 12 kinds at a chosen file, event, depth "
                "and call, permanent or once; unreadable, missing, empty files; malformed windows and parameters; unusable catalogs; unwritable or full targets), then again without; outcome, completeness, "
                "output file and child processes judged after every call; non-trivial always")
PLANS["C21"] = plan(600, 30, 20000, 900, {"reports judged": 60, "screen figures judged": 40, "legends judged": 80, "titles judged": 20, "panel names judged": 20, "reverberation absent": 1}, min_cases=48)
RULES["C21"] = ("case = random analysis (hk, hkSeq, hkYu, their synthetic forms, resonance filters, waveform fitting) and its plot, half of them with a figure of the user's open; numbers printed, shown in "
                "legends, markers, titles and axis names compared with the result; non-trivial always")
PLANS["C23"] = plan(600, 25, 20000, 900, {"filtered seismograms compared": 40, "RFs compared with the chain": 60, "headers compared": 40, "default options used": 10,
                    "zero phase": 10, "causal": 5}, min_cases=40)
RULES["C23"] = ("case = random layered model, ray parameters (float, list, array, repeated, unsorted), sampling, P or SV incidence, and band passes (order, phase, corners, defaults, positional or by name) and "
                "deconvolution requests (both methods, options given, left out or None); seismograms compared with the recursion written out, RFs with the deconvolution of them; non-trivial always")
PLANS["C22"] = plan(400, 45, 20000, 900, {"calls watched": 60, "failed calls watched": 5, "results compared across surroundings": 15, "figures compared across surroundings": 8,
                    "calls repeated for descriptors": 8, "files seen written": 10}, min_cases=40, copy=True)
RULES["C22"] = ("case = random analysis, plot, deconvolution, modelling, travel-time, extraction, loader or installer call, succeeding or failing, made twice in different surroundings (working folder with foreign "
                "files, random states, plot style, error and print settings, warning filters, time zone); process state compared before and after, every file opened recorded by an audit hook; non-trivial always")
PLANS["C24"] = plan(300, 25, 20000, 900, {"pairs of outputs compared": 20, "serial traces looked for in the parallel output": 60, "outputs equal in full": 3, "partial windows set aside": 5}, min_cases=40, workers=6, env=FORKS)
RULES["C24"] = ("case = record files (gaps, channels, formats, contiguous or overlapping) x catalog with windows inside, around edges, across and off the records, extracted once by ExtractEq and once by "
                "Add_sta_time_2cat, Get_Eqtimes_multiproc and ExtractEq_Multiproc; every serial trace matched with one parallel trace; non-trivial with several traces")
PLANS["C25"] = plan(400, 30, 20000, 900, {"results stored": 24, "results plotted in another process": 20, "sets of figures compared": 60, "later stages compared": 1}, min_cases=32)
RULES["C25"] = ("case = result of a random analysis, stored with pickle, copied and read back; plotted live, copied, and in a process in which the package was never used, "
                "and fed to the next stage of the analysis there; non-trivial always")
PLANS["C26"] = plan(400, 30, 20000, 900, {"runs in threads": 16, "runs in processes": 6, "results compared in threads": 60, "results compared in processes": 10}, min_cases=36, workers=6, env=FORKS)
RULES["C26"] = ("case = 2..8 tasks (deconvolution, modelling, filtering, extraction; in processes also H-K analyses, plots, pool extraction and parallel fitting), often of one kind with different data, run alone and "
                "then at the same time in threads (10 us switch interval) or forked processes; results compared; non-trivial with several tasks")
PLANS["C27"] = plan(400, 42, 20000, 900, {"figures judged": 40, "panels judged": 60, "shaded points judged": 2000, "unshaded points judged": 2000, "highlighted windows judged": 60, "surface limits judged": 80,
                    "colour scales judged": 30, "uncertainty bands judged": 4}, min_cases=40)
RULES["C27"] = ("case = result of a random H-K analysis, its synthetic form or waveform fitting, plotted with random gains, rmneg and format; areas, windows, limits and colour scale recorded from the artists "
                "and compared with samples, baselines, predicted arrivals and grids; non-trivial always")
PLANS["C28"] = plan(600, 28, 20000, 900, {"results compared": 50, "requests compared": 30, "figures compared": 20, "stored as read-only": 3, "stored as big-endian": 3, "stored as integers": 3,
                    "stored as other arrays": 3, "stored as pickled": 3}, min_cases=40)
RULES["C28"] = ("case = random analysis, deconvolution or modelling request repeated with its streams, arrays and numbers stored otherwise (read-only, strided, reversed, unaligned, big-endian, integer, NumPy scalars, "
                "pickled, cut from longer records, further headers, equal strings); results and figures compared by value; non-trivial always")
