"""C19-C21: training with worker threads. Training (all interleavings, small constants) refines
TrainObs; real runs are checked against Network (parameters, success counts) and TrainObs (events)."""
import concurrent.futures as cf
import json
import os
import re
import time
import props_train
import vlib

FLAGS = ["DataMutex", "OneLock", "OwnLabel", "OwnMemory", "ClearGradients", "CountStored", "OwnSlots", "JoinFirst", "InitLock", "AtomicHits"]
FAILING = ["Caught", "Released", "NoneApplied", "Forgotten"]


def cfg(c, name, T, B, N, E, off=None, spec="Spec", inv="NothingBad SourceExclusive SlotExclusive InitOnce FailsIff FailsClean", props="ObsSpec Terminates FailsSeen", poison="{}"):
    path = os.path.join(c.work, name + ".cfg")
    with open(path, "w") as f:
        f.write("SPECIFICATION %s\nCONSTANTS\n T = %d\n B = %d\n NPts = %d\n Epochs = %d\n" % (spec, T, B, N, E))
        f.write(" Poison = %s\n" % poison)
        for fl in FLAGS + FAILING:
            f.write(" %s = %s\n" % (fl, "FALSE" if fl == off else "TRUE"))
        f.write("INVARIANTS %s\n" % inv)
        if props:
            f.write("PROPERTIES %s\n" % props)
        f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if props else "FALSE"))
    return path


def failing(c, pool):
    """The same with points that cannot be processed."""
    jobs = []
    for i, (t, poison) in enumerate([((2, 2, 3, 1), "{2}"), ((2, 2, 3, 1), "{3}"), ((2, 2, 2, 1), "{1, 2}"), ((3, 3, 3, 1), "{2}"), ((1, 2, 3, 1), "{2}")] +
                                    ([((2, 3, 5, 1), "{4}"), ((3, 3, 4, 1), "{1, 4}"), ((2, 4, 4, 1), "{2, 3}"), ((3, 4, 5, 1), "{5}")] if c.thorough else [])):
        jobs.append(lambda t=t, poison=poison, i=i: c.design("Training.tla", cfg(c, "TrainingFail-%d" % i, *t, poison=poison), workers="1" if not c.thorough else "2", timeout=850))
    want = {"Caught": "Terminates was violated", "Released": "Deadlock reached", "NoneApplied": "NothingBad is violated", "Forgotten": "FailsClean is violated"}
    for fl in FAILING:
        jobs.append(lambda fl=fl: c.design("Training.tla", cfg(c, "TrainingFail-no" + fl, 2, 2, 3, 1, off=fl, poison="{1}"), workers="1", expect=want[fl]))
    return [pool.submit(j) for j in jobs]


def design(c, pool):
    """The step-level specification and its negative controls; one TLC process each."""
    good = [(2, 2, 3, 2), (1, 2, 3, 2), (3, 2, 2, 1), (2, 3, 2, 1), (3, 3, 3, 1)]
    if c.thorough:
        good += [(2, 4, 6, 2), (3, 3, 4, 2), (3, 4, 5, 1), (2, 3, 7, 2), (4, 4, 4, 1)]
    if c.id == "C21":
        good = good[:3]
    jobs = [(lambda t=t: c.design("Training.tla", cfg(c, "Training-%d-%d-%d-%d" % t, *t), workers="1" if not c.thorough else "2", timeout=850)) for t in good]
    want = {"DataMutex": "SourceExclusive", "OneLock": "is violated", "OwnLabel": "NothingBad", "OwnMemory": "NothingBad", "ClearGradients": "NothingBad",
            "CountStored": "NothingBad", "OwnSlots": "is violated", "JoinFirst": "is violated|Deadlock reached", "InitLock": "is violated", "AtomicHits": "NothingBad"}
    mine = {"C19": FLAGS, "C20": ["DataMutex", "OneLock", "JoinFirst", "OwnSlots"], "C21": ["AtomicHits"]}[c.id]
    for fl in mine:
        t = (2, 2, 3, 1) if fl != "ClearGradients" else (2, 2, 3, 2)
        jobs.append(lambda fl=fl, t=t: c.design("Training.tla", cfg(c, "Training-no" + fl, *t, off=fl), workers="1", expect=want[fl]))
    return [pool.submit(j) for j in jobs]


def plans(c, pool):
    """Orders in which the points pass the model, from Training: all of them for two points, a sample beyond."""
    def all_of(T, B, N):
        code, out = c.tlc("TrainGen.tla", cfg(c, "TrainGen-%d-%d-%d" % (T, B, N), T, B, N, 1, spec="GenSpec", inv="Emit", props=""), tag="gen%d%d%d" % (T, B, N))
        if "No error has been found" not in out:
            raise vlib.CheckError("generation failed: " + out[-2000:])
        return T, B, N, out

    def some_of(T, B, N, num):
        code, out = c.tlc("TrainGen.tla", cfg(c, "TrainSim-%d-%d-%d" % (T, B, N), T, B, N, 1, spec="GenSpec", inv="Emit", props=""),
                          args=("-simulate", "num=%d" % num, "-depth", "2000", "-seed", str(c.seed)), tag="sim%d%d%d" % (T, B, N))
        return T, B, N, out
    jobs = [pool.submit(all_of, 2, 2, 2)]
    n = 200 if c.thorough else 24
    for t in [(3, 3, 3), (2, 4, 4), (2, 2, 3), (3, 4, 5), (4, 4, 8), (2, 3, 5)]:
        jobs.append(pool.submit(some_of, *t, n))
    return jobs


def collect(jobs):
    out, seen = [], set()
    for j in jobs:
        T, B, N, text = j.result()
        for m in re.findall(r'"PLAN (\[.*?\])"', text):
            h = json.loads(m.replace('\\"', '"'))
            key = (T, B, N, tuple(h))
            if h and key not in seen:
                seen.add(key)
                out.append({"T": T, "B": B, "N": N, "hist": h})
    if not out:
        raise vlib.CheckError("no schedules generated")
    return out


def run(c):
    src = [os.path.join(vlib.HARNESS, "net_main.cpp")] + vlib.layer_sources()
    with cf.ThreadPoolExecutor(6) as pool:
        des = failing(c, pool) if c.id == "C31" else design(c, pool)
        gen = plans(c, pool) if c.id in ("C19", "C20") else []
        exe = c.build("netdrv", src, opt="-O0")
        tsan = c.build("nettsan", src, san="tsan", opt="-O1")
        for d in des:
            d.result()
        pl = collect(gen) if gen else []
        if c.id == "C20":
            fast = c.build("netfast", src, san="none", opt="-O2")
    t = time.time()
    slow = {"timeout": 850}
    if pl:
        c.notes["generated_schedules"] = len(pl)
    if c.id == "C20":
        c.conform(exe, props_train.xl(c.id, c.seed, c.thorough) + props_train.c20(c.seed, c.thorough, pl), "TraceTraining", unpack=props_train.unpack, drive_kw=slow)
        if not c.rejected:
            c.conform(fast, props_train.bulk(c.thorough), "TraceNetwork", tag="bulk", drive_kw=slow)
        if not c.rejected:
            c.conform(tsan, props_train.c19(c.seed, c.thorough, "C20", count=120 if c.thorough else 32, gates=False), "TraceNetwork", tag="ts", drive_kw=slow)
    elif c.id == "C19":
        c.conform(exe, props_train.xl(c.id, c.seed, c.thorough) + props_train.c19(c.seed, c.thorough) + props_train.c19_plans(c.seed, pl, c.thorough), "TraceNetwork", drive_kw=slow)
        if not c.rejected:
            raw = props_train.c19_raw(c.seed, c.thorough)
            for k in range(4 if c.thorough else 1):
                c.conform(tsan, props_train.c19(c.seed + k, False, "ts", count=40, gates=False) + raw, "TraceNetwork", tag="ts%d" % k, drive_kw=slow)
    elif c.id == "C31":
        c.conform(exe, props_train.c31(c.seed, c.thorough), "TraceNetwork", drive_kw=slow)
        if not c.rejected:
            c.conform(exe, props_train.c31_watched(c.seed, c.thorough), "TraceTraining", tag="w", unpack=props_train.unpack, drive_kw=slow)
        if not c.rejected:
            c.conform(tsan, props_train.c31(c.seed, c.thorough, "ts", count=120 if c.thorough else 32, gates=False), "TraceNetwork", tag="ts", drive_kw=slow)
    else:
        cases = props_train.xl(c.id, c.seed, c.thorough) + props_train.c21(c.seed, c.thorough)
        c.conform(exe, cases, "TraceNetwork", drive_kw=slow)
        if not c.rejected:
            # lost increments show as a race
            for op in [o for t in cases for o in t]:
                op.pop("gate", None)
            c.conform(tsan, cases[::2], "TraceNetwork", tag="ts", drive_kw=slow)
    c.notes["conformance_s"] = round(time.time() - t, 1)
    return c.finish("each case is a training run with its own model, data, thread count, batch size and schedule; parameters, success counts, reports, and the order of source calls, passes and updates are compared with the specification")
