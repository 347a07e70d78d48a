"""Programs that train models (C19-C21), run by harness/net_main.cpp and judged by
spec/TraceNetwork.tla (what training computes) and spec/TraceTraining.tla (how it gets there)."""
from math import gcd
from props_net import Prog, kout, matrix, pout, rng_for, types, vol

LABELS = ["zero", "one", "two", "three", "four", "five"]


def lcm(a, b):
    return a * b // gcd(a, b)


def net_of(kind, r, nl):
    """(layer configs without output, input shape, shapes)"""
    if kind == "fc":
        d = (r.randint(1, 3), r.randint(1, 2), 1)
        cs = [{"k": "fc", "n": nl}]
    elif kind == "fcfc":
        d = (r.randint(1, 3), 1, 1)
        cs = [{"k": "fc", "n": r.randint(2, 3)}, {"k": "act", "f": "LINEAR"}, {"k": "fc", "n": nl}]
    elif kind == "relu":
        d = (r.randint(2, 3), 1, 1)
        cs = [{"k": "fc", "n": r.randint(2, 3)}, {"k": "act", "f": "RELU"}, {"k": "fc", "n": nl}]
    elif kind == "pool":
        d = (r.randint(2, 3), r.randint(2, 4), 1)
        cs = [{"k": "pool", "f": r.choice(["max", "min"]), "pd": [2, 2], "ps": [r.randint(1, 2), r.randint(1, 2)]}, {"k": "fc", "n": nl}]
    elif kind == "kernel":
        d = (3, 3, r.randint(1, 2))
        cs = [{"k": "kernel", "fd": [2, 2, d[2]], "n": r.randint(1, 2), "s": r.choice([1, 1, 2])}, {"k": "fc", "n": nl}]
    else:   # deep
        d = (4, 4, 1)
        cs = [{"k": "kernel", "fd": [2, 2, 1], "n": 2, "s": 1}, {"k": "act", "f": "RELU"},
              {"k": "pool", "f": r.choice(["max", "min"]), "pd": [2, 2], "ps": [1, 1]}, {"k": "fc", "n": nl}]
    cs = [{"k": "act", "f": "LINEAR", "probe": 1}] + cs
    shapes, cur = [d], d
    for c in cs:
        if c["k"] == "kernel":
            cur = kout(c["fd"], c["n"], c["s"], cur)
        elif c["k"] == "pool":
            cur = pout(c["pd"], c["ps"], cur)
        elif c["k"] == "fc":
            cur = (c["n"], 1, 1)
        shapes.append(cur)
    return cs, d, shapes


def bound(cs, shapes, X, W, steps, r):
    """Largest magnitude that can come up in the given number of update steps."""
    w = [W if c["k"] in ("fc", "kernel") else 0 for c in cs]
    top = 0
    for _ in range(steps):
        a, ins = X, []
        for i, c in enumerate(cs):
            ins.append(a)
            if c["k"] == "fc":
                a = a * w[i] * vol(shapes[i]) + w[i]
            elif c["k"] == "kernel":
                a = a * w[i] * vol(c["fd"]) + w[i]
        top = max(top, a)
        g = 1
        for i in range(len(cs) - 1, -1, -1):
            c = cs[i]
            if c["k"] in ("fc", "kernel"):
                old = w[i]
                dw = g * ins[i] * (1 if c["k"] == "fc" else shapes[i + 1][0] * shapes[i + 1][1])
                w[i] = w[i] + r * dw
                g = g * old * (c["n"] if c["k"] == "fc" else vol(c["fd"]) * c["n"])
            elif c["k"] == "pool":
                g = g * 4
            top = max(top, g, w[i])
    return top


def points(r, n, d, nl, X, distinct=False, S=1):
    seen, out = set(), []
    while len(out) < n:
        x = matrix(r, d, X * S, S)
        key = tuple(x["v"])
        if distinct and key in seen:
            continue
        seen.add(key)
        out.append({"x": x, "lab": LABELS[r.randrange(nl)]})
    return out


def sizes(N, B):
    return {min(B, N)} | ({N % B} if N % B else set())


FINE = 2 ** 24


def exact_case(r, kind, T, B, N, E=0, gate=None, plan=None, how=("set", "dset"), fine=False):
    """One training run whose numbers are all exact, or None. Fine: on a grid of 1/2^24, with a
    learning rate that has more digits than a float."""
    S = FINE if fine else 1
    for _ in range(40):
        nl = r.randint(2, 4)
        cs, d, shapes = net_of(kind, r, nl)
        X, W = r.choice([(1, 1), (2, 1), (2, 2), (1, 2)])
        if plan and (2 * X + 1) ** vol(d) < 2 * N:
            continue
        cnts = sizes(N, B)
        rate = 1
        for c in cnts:
            rate = lcm(rate, c)
        steps = ((N + B - 1) // B) * max(1, E)
        # a mean that is not exact must not decide what happens at a corner
        sharp = kind in ("relu", "pool", "deep")
        if sharp and steps > 1 and any(c & (c - 1) for c in cnts):
            return None
        if bound(cs, shapes, X, W, steps, rate) * rate * max(cnts) > 2 ** 23:
            continue
        if fine and (bound(cs, shapes, X, W, steps, rate) > 50 or rate * max(cnts) * X > 100):
            continue
        p = Prog(r, S)
        p.add(op="net", cs=cs + [{"k": "snap", "n": nl}], labels=LABELS[:nl])
        for i, c in enumerate(cs):
            if c["k"] == "kernel":
                p.add(op=r.choice(how), o=i, w=matrix(r, (c["fd"][0], c["fd"][1], c["fd"][2] * c["n"]), W * S, S), b=matrix(r, (c["n"], 1, 1), W * S, S))
            elif c["k"] == "fc":
                p.add(op=r.choice(how), o=i, w=matrix(r, (c["n"], vol(shapes[i]), 1), W * S, S), b=matrix(r, (c["n"], 1, 1), W * S, S))
        op = {"op": "train" if E else "epoch", "m": 0, "data": points(r, N, d, nl, X, distinct=bool(plan), S=S), "B": B, "T": T, "E": max(1, E), "r_": rate * r.choice([1, 1, -1]) * (S + 1 if fine else 1)}
        if gate:
            op["gate"] = gate
        if plan:
            op["plan"] = plan
        p.ops.append(op)
        return p.ops
    return None


def bulk(thorough):
    """Epochs over more points than a float can count."""
    cases = [(16785409, 8192, 1), (50001, 50000, 7), (99991, 64, 4)]
    if thorough:
        cases += [(16777217, 16777216, 2), (33554435, 2, 1), (20000003, 4096, 8)]
    return [[{"op": "reset", "S": 1, "rn": 0}, {"op": "bulk", "N": n, "B": b, "T": t}] for n, b, t in cases]


def order(r):
    k = r.randrange(4)
    if k == 0:
        return [0]
    if k == 1:
        return [99991]          # mostly the latest arrival
    return [r.randrange(8) for _ in range(r.randint(3, 40))]


KINDS = ["fc", "fcfc", "relu", "pool", "kernel", "deep"]


def c19(seed, thorough, tag="", count=None, gates=True):
    cases, i = [], 0
    want = count or (420 if thorough else 96)
    while len(cases) < want:
        i += 1
        r = rng_for(seed, "C19", tag, i)
        kind = KINDS[i % len(KINDS)]
        T = r.choice([1, 2, 2, 3, 3, 4, 5, 8])
        B = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 10])
        deep = kind in ("fcfc", "relu", "kernel", "deep")
        N = r.randint(1, 2 * B + 2) if deep else r.randint(1, 3 * B + 3)
        E = r.choice([0, 0, 1, 2]) if not deep else r.choice([0, 0, 1])
        c = exact_case(r, kind, T, B, N, E, gate=order(r) if gates and i % 3 else None)
        if c:
            if i % 5 == 0:
                for p in c[-1]["data"]:
                    p["x"]["v"] = [abs(k) for k in p["x"]["v"]]
            cases.append(c)
    cases = types(cases, seed, "C19" + tag)
    i, want = 0, len(cases) + (40 if thorough else 10)
    while len(cases) < want:
        i += 1
        r = rng_for(seed, "C19fine", tag, i)
        B = r.choice([1, 2, 3, 4, 5])
        c = exact_case(r, r.choice(["fc", "fc", "kernel"]), r.randint(1, 3), B, r.randint(1, 2 * B), r.choice([0, 0, 1]), fine=True)
        if c:
            cases.append(c)
    return cases


def c19_raw(seed, thorough):
    """Models that initialise themselves in the middle of training, with curved activations."""
    cases = []
    for i in range(60 if thorough else 16):
        r = rng_for(seed, "C19raw", i)
        nl = r.randint(2, 4)
        d = (r.randint(3, 5), r.randint(3, 5), 1)
        cs = [{"k": "act", "f": "LINEAR", "probe": 1}, {"k": "kernel", "fd": [2, 2, 1], "n": 2, "s": 1},
              {"k": "act", "f": r.choice(["RELU", "SIGMOID", "TANGENT", "LEAKY_RELU"])},
              {"k": "pool", "f": r.choice(["max", "min", "avg"]), "pd": [2, 2], "ps": [1, 1]},
              {"k": "fc", "n": r.randint(2, 4)}, {"k": "act", "f": r.choice(["SIGMOID", "TANGENT"])}, {"k": "fc", "n": nl}, {"k": "soft", "n": nl}]
        p = Prog(r, 64)
        p.add(op="net", cs=cs, labels=LABELS[:nl])
        T, B = r.choice([2, 3, 4, 8]), r.choice([2, 3, 5, 8, 12])
        for _ in range(2):
            N = r.randint(2, 3 * B)
            p.add(op="epoch", raw=1, m=0, data=points(r, N, d, nl, 64), B=B, T=T, E=1, r_=r.choice([1, 6]))
        cases.append(p.ops)
    return cases


def c19_plans(seed, plans, thorough):
    """The orders that TLC has found for Training, on models with layers that remember things."""
    cases = []
    for i, pl in enumerate(plans):
        for j in range(2 if thorough else 1):
            r = rng_for(seed, "C19plan", i, j)
            for _ in range(20):
                kind = r.choice(KINDS if pl["N"] <= pl["B"] else ["fc", "fc", "pool", "relu", "fcfc", "kernel"])
                c = exact_case(r, kind, pl["T"], pl["B"], pl["N"], 0, plan=pl["hist"])
                if c:
                    cases.append(c)
                    break
    return cases

def xl(pid, seed, thorough):
    """More threads, points, epochs and larger batches."""
    cases, i = [], 0
    sizes_ = [(16, 64, 64), (32, 64, 128), (5, 32, 70), (3, 128, 128), (8, 100, 100), (64, 16, 40), (16, 16, 64), (7, 64, 20), (24, 48, 96), (2, 256, 256), (12, 1, 12)]
    for T, B, N in sizes_ * (3 if thorough else 1):
        i += 1
        r = rng_for(seed, pid, "xl", i)
        if pid == "C20":
            N *= r.choice([1, 2])
            cases.append(watched(r, T, B, min(N, 200), r.choice([0, 0, 1, 2]), gate=order(r) if i % 3 == 0 else None))
        elif pid == "C21":
            ops = watched(r, T, B, N, r.choice([0, 1, 3]))
            for p in ops[-1]["data"]:
                if r.random() < .8:
                    p["lab"] = LABELS[p["x"]["v"].index(max(p["x"]["v"]))]
            ops[-1].pop("ev")
            cases.append(ops)
        else:
            c = exact_case(r, r.choice(["fc", "fc", "pool", "kernel"]), T, B, N, r.choice([0, 0, 1]))
            if c:
                cases.append(c)
    if pid == "C20":
        for j in range(6 if thorough else 2):
            r = rng_for(seed, pid, "xle", j)
            cases.append(watched(r, r.choice([2, 3, 5]), r.choice([2, 3]), r.randint(1, 7), r.choice([12, 25, 40])))
    return cases



# ------------------------------------------------------------------------------------------------
def watched(r, T, B, N, E, gate=None, plan=None):
    """A run on a model that only hands on, so that every pass shows which point it belongs to."""
    nl = r.randint(2, 5)
    cs = [{"k": "act", "f": "LINEAR", "probe": 1}] + [{"k": "act", "f": "LINEAR"}] * r.randint(0, 2) + [{"k": "snap", "n": nl}]
    p = Prog(r, 1)
    p.add(op="net", cs=cs, labels=LABELS[:nl])
    op = {"op": "train" if E else "epoch", "m": 0, "data": points(r, N, (nl, 1, 1), nl, 60, distinct=True), "B": B, "T": T, "E": max(1, E), "r_": 1, "ev": 1}
    if gate:
        op["gate"] = gate
    if plan:
        op["plan"] = plan
    p.ops.append(op)
    return p.ops


def c20(seed, thorough, plans=()):
    cases, i = [], 0
    for pl in plans:
        i += 1
        cases.append(watched(rng_for(seed, "C20plan", i), pl["T"], pl["B"], pl["N"], 0, plan=pl["hist"]))
    for i in range(700 if thorough else 170):
        r = rng_for(seed, "C20", i)
        T = r.choice([1, 2, 2, 3, 4, 5, 8, 16])
        B = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16])
        N = r.choice([1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B - 1, r.randint(1, 40)])
        N = max(1, min(40, N))
        E = r.choice([0, 0, 0, 1, 2, 3])
        cases.append(watched(r, T, B, N, E, gate=order(r) if i % 4 else None))
    return cases


def spoil(r, pts, d, kind):
    """Makes some of the points unusable: wrong shape, unknown label, or not delivered by the source."""
    n = r.choice([1, 1, 1, 2, 3])
    for i in r.sample(range(len(pts)), min(n, len(pts))):
        p = pts[i] = dict(pts[i])
        k = r.choice(["shape", "shape", "label", "label", "source"])
        if k == "label":
            p["lab"] = r.choice(["nope", "", "Zero", p["lab"] + " ", "0"])
        elif k == "source":
            p["throws"] = 1
        else:
            bads = [(d[0] + 1, d[1], d[2]), (d[0], d[1] + 2, d[2])]
            if kind in ("fc", "fcfc", "relu", "watched"):
                bads += [(d[0] + 1, d[1] + 1, d[2]), (d[0], d[1], d[2] + 1)]
            elif kind == "pool":
                bads += [(1, d[1], 1), (d[0], 1, 1)]
            else:
                bads += [(d[0], d[1], d[2] + 1), (1, d[1], d[2]), (d[0] + 1, d[1] + 1, d[2])]
            p["x"] = matrix(r, r.choice(bads), 1)


def c31(seed, thorough, tag="", count=None, gates=True):
    """Training runs that meet points that cannot be used, and what comes after them."""
    cases, i = [], 0
    want = count or (500 if thorough else 110)
    while len(cases) < want:
        i += 1
        r = rng_for(seed, "C31", tag, i)
        kind = KINDS[i % len(KINDS)]
        T = r.choice([1, 2, 2, 3, 3, 4, 5, 8])
        B = r.choice([1, 2, 3, 4, 4, 5, 8, 8, 10])
        N = r.randint(1, 2 * B + 2)
        ops = exact_case(r, kind, T, B, N, 2)
        if not ops:
            continue
        run = ops.pop()
        d = tuple(run["data"][0]["x"]["d"])
        good = run["data"]
        for _ in range(r.choice([1, 1, 2])):
            pts = list(good)
            spoil(r, pts, d, kind)
            op = dict(run, op=r.choice(["epoch", "epoch", "train"]), data=pts, spoilt=1, E=r.choice([1, 2]), T=r.choice([T, T, 1, 2, 4]))
            if op["op"] == "epoch":
                op["E"] = 1
            if gates and r.random() < .5:
                op["gate"] = order(r)
            ops.append(op)
            if r.random() < .5:
                ops.append({"op": "napply", "m": 0, "r_": run["r_"]})
        # and then, without the unusable points, with and without setting the batch size again
        after = dict(run, op=r.choice(["epoch", "epoch", "train"]), E=1)
        if after["op"] == "epoch" and r.random() < .6:
            after["keep"] = 1
        ops.append(after)
        cases.append(ops)
    return types(cases, seed, "C31" + tag)


def c31_watched(seed, thorough):
    cases = []
    for i in range(300 if thorough else 80):
        r = rng_for(seed, "C31w", i)
        T = r.choice([1, 2, 3, 4, 8])
        B = r.choice([1, 2, 3, 4, 5, 8, 12])
        N = r.randint(1, min(30, 3 * B + 2))
        E = r.choice([0, 0, 1, 2])
        ops = watched(r, T, B, N, E, gate=order(r) if i % 4 else None)
        nl = len(ops[1]["labels"])
        ops[-1]["data"] = list(ops[-1]["data"])
        spoil(r, ops[-1]["data"], (nl, 1, 1), "watched")
        ops[-1]["spoilt"] = 1
        cases.append(ops)
    return cases


def unusable(p, nl):
    return "throws" in p or p["lab"] not in LABELS[:nl] or list(p["x"]["d"]) != [nl, 1, 1]


def unpack(traces):
    """The recorded runs as traces of TraceTraining."""
    out = []
    for t in traces:
        if not t:
            out.append([])          # not run
            continue
        run = t[-1]
        ops = [e for e in t if e.get("op") in ("epoch", "train")]
        if not ops or "r" not in run or run["r"].get("out") != ("failed" if "spoilt" in ops[-1] else "ok"):
            out.append([{"ev": "begin", "labels": [0], "wins": [0], "B": 1}, {"ev": str(run.get("crash") or run.get("r", {}).get("what", "failed"))}])
            continue
        e = ops[-1]
        lab = [LABELS.index(p["lab"]) if p["lab"] in LABELS else -1 for p in e["data"]]
        wins = [p["x"]["v"].index(max(p["x"]["v"])) for p in e["data"]]
        lines = [{"ev": "begin", "labels": lab, "wins": wins, "B": e["B"]}] + e["r"]["events"]
        if "spoilt" in e:
            nl = len(t[1]["labels"])
            lines.append({"ev": "failed", "bad": [i + 1 for i, p in enumerate(e["data"]) if unusable(p, nl)]})
        elif e["op"] == "epoch":
            lines.append({"ev": "return", "hits": e["r"]["res"][0]})
        else:
            lines.append({"ev": "finish", "E": e["E"]})
        out.append(lines)
    return out


def c21(seed, thorough):
    cases = c19(seed, thorough, "C21", count=300 if thorough else 70)
    # many right predictions: labels are those that the first parameters predict, some of them wrong
    for i in range(200 if thorough else 60):
        r = rng_for(seed, "C21", i)
        T = r.choice([1, 2, 3, 4, 8])
        B = r.choice([1, 2, 3, 4, 5, 8, 9])
        N = r.randint(1, 30)
        E = r.choice([0, 1, 2, 3])
        ops = watched(r, T, B, N, E, gate=order(r) if i % 3 == 0 else None)
        nl = len(ops[1]["labels"])
        for p in ops[-1]["data"]:
            if r.random() < .7:
                p["lab"] = LABELS[p["x"]["v"].index(max(p["x"]["v"]))]
        ops[-1].pop("ev")
        cases.append(ops)
    return cases + still(seed, thorough)


def still(seed, thorough):
    """Uncertain predictions: a real softmax layer and the learning rate zero."""
    cases = []
    for i in range(240 if thorough else 60):
        r = rng_for(seed, "C21still", i)
        nl = r.randint(2, 6)
        kind = KINDS[i % len(KINDS)]
        cs, d, shapes = net_of(kind, r, nl)
        p = Prog(r, 1)
        p.add(op="net", cs=cs + [{"k": "soft", "n": nl}], labels=LABELS[:nl])
        for j, c in enumerate(cs):
            if c["k"] == "kernel":
                p.add(op="set", o=j, w=matrix(r, (c["fd"][0], c["fd"][1], c["fd"][2] * c["n"]), 1), b=matrix(r, (c["n"], 1, 1), 1))
            elif c["k"] == "fc":
                p.add(op=r.choice(["set", "dset"]), o=j, w=matrix(r, (c["n"], vol(shapes[j]), 1), r.choice([1, 1, 2])), b=matrix(r, (c["n"], 1, 1), r.choice([1, 2])))
        T, B, N, E = r.choice([1, 2, 3, 4, 8]), r.choice([1, 2, 3, 5, 8, 9]), r.randint(1, 30), r.choice([0, 0, 1, 2])
        op = {"op": "train" if E else "epoch", "still": 1, "m": 0, "data": points(r, N, d, nl, r.choice([1, 2])), "B": B, "T": T, "E": max(1, E), "r_": 0}
        if i % 3 == 0:
            op["gate"] = order(r)
        p.ops.append(op)
        cases.append(p.ops)
    return cases
