"""Programs over the image reader, the data source and validation (C27, C28), run by
harness/reader_main.cpp and judged by spec/TraceReader.tla and spec/TraceNetwork.tla."""
from props_net import Prog, kout, matrix, pout, rng_for, vol


def images(r, h, w, n, distinct=False, labels=None):
    out, seen = [], set()
    while len(out) < n:
        style = r.randrange(4)
        p = [r.choice([0, 255, 127, 128, 1, 254]) if style == 0 else r.randrange(256) for _ in range(h * w)]
        if distinct and tuple(p) in seen:
            continue
        seen.add(tuple(p))
        out.append({"p": p, "l": r.choice(labels) if labels else r.choice([r.randrange(10), r.randrange(256)])})
    return out


def shape(r):
    return r.choice([(r.randint(1, 5), r.randint(1, 5)), (1, r.randint(1, 9)), (r.randint(1, 9), 1), (4, 4), (2, 7), (7, 2)])


def ask(i):
    """get with an index that may not fit the specification's integers"""
    if i < 2 ** 31:
        return {"op": "get", "i": i}
    return {"op": "get", "i": 2 ** 31 - 1, "add": str(i - (2 ** 31 - 1))}


def c27(seed, thorough, hists):
    cases = []
    for i, (n, hist) in enumerate(hists):
        r = rng_for(seed, "C27h", i)
        h, w = shape(r)
        ops = [{"op": "reset"}, {"op": "open", "h": h, "w": w, "imgs": images(r, h, w, n)}]
        ops += [{"op": "next"} if k < 0 else ask(k) for k in hist]
        cases.append(ops)
    for i in range(500 if thorough else 120):
        r = rng_for(seed, "C27", i)
        h, w = shape(r)
        n = r.choice([1, 2, 3, 5, 9, 0])
        ops = [{"op": "reset"}]
        for _ in range(r.choice([1, 1, 2])):
            ops.append({"op": "open", "h": h, "w": w, "imgs": images(r, h, w, n)})
            for _ in range(r.randint(4, 24)):
                k = r.randrange(10)
                if k < 5:
                    ops.append({"op": "next"})
                elif k < 9:
                    ops.append(ask(r.randrange(n + 1)))
                else:
                    ops.append(ask(r.choice([n, n + 1, 1000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40])))
        cases.append(ops)
    for i in range(40 if thorough else 12):
        r = rng_for(seed, "C27bad", i)
        h, w = shape(r)
        ops = [{"op": "reset"}]
        for what in ("imagic", "imagic0", "lmagic", "lmagic0", "icount", "lcount", "lcount2"):
            ops.append({"op": "bad", "what": what, "h": h, "w": w, "imgs": images(r, h, w, r.randint(1, 4))})
        cases.append(ops)
    for i in range(60 if thorough else 16):
        r = rng_for(seed, "C27short", i)
        h, w = shape(r)
        n = r.choice([1, 2, 3, 5])
        imgs = images(r, h, w, n)
        ops = [{"op": "reset"}]
        for _ in range(10):
            full, lfull = 16 + n * h * w, 8 + n
            il = r.choice([full, full, full - 1, full - h * w, r.randrange(full + 1), r.randrange(17), 16 + r.randrange(n) * h * w])
            ll = r.choice([lfull, lfull, lfull - 1, r.randrange(lfull + 1), r.randrange(9)])
            op = {"op": "short", "h": h, "w": w, "imgs": imgs, "ilen": il, "llen": ll}
            whole = min((il - 16) // (h * w), ll - 8) if il >= 16 and ll >= 8 else 0
            k = r.randrange(8)
            if k == 0:
                op["count"] = n + r.choice([1, 2, 1000, 2 ** 31 - 1 - n])
            elif k == 1:
                op.update(count=r.choice([-1, -2 ** 31, -n]))
                whole = 0
            elif k == 2:
                op.update(r.choice([{"hh": -h}, {"hw": -w}, {"hh": -h, "hw": -w}, {"hh": -1, "hw": -h * w}, {"hh": -2 ** 31}]))
                whole = 0
            elif k == 3:
                op.update(r.choice([{"hh": 2 ** 31 - 1, "hw": 2 ** 31 - 1}, {"hh": 65536, "hw": 65536}, {"hh": 2 ** 31 - 1}]))
                whole = 0
            op["whole"] = max(0, whole)
            op["complete"] = 1 if k > 3 and il == full and ll == lfull else 0
            top = n + 2
            op["ask"] = [r.choice([-1, r.randrange(top), r.randrange(n), whole if whole >= 0 else 0]) for _ in range(6)]
            ops.append(op)
        cases.append(ops)
    # pictures and files of ordinary size
    for i, (h, w, n) in enumerate([(28, 28, 40), (2, 3, 300), (100, 3, 9), (3, 300, 7), (1, 1, 700)]):
        if i > 2 and not thorough:
            continue
        r = rng_for(seed, "C27xl", i)
        ops = [{"op": "reset"}, {"op": "open", "h": h, "w": w, "imgs": images(r, h, w, n)}]
        for _ in range(3):
            ops += [ask(r.randrange(n)) for _ in range(4)] + [{"op": "next"}] * r.randint(1, 4)
        ops += [ask(n - 2)] + [{"op": "next"}] * 3
        if vol((h, w, n)) < 3000:
            ops += [ask(0)] + [{"op": "next"}] * n
        cases.append(ops)
    # files of more than two and four gigabytes, almost all of it zero
    for i, (h, w, n) in enumerate([(1024, 1500, 1500)] + ([(1024, 1500, 3000), (2000, 1100, 2100), (700, 1900, 4000)] if thorough else [])):
        r = rng_for(seed, "C27sparse", i)
        pix = [[] for _ in range(n)]
        for k in range(n):
            pix[k] = [[r.randint(1, h * w), r.randint(1, 255)]]
        per = 2 ** 31 // (h * w)
        want = [k for k in (0, n - 1, per, per + 1, 2 * per + 1, r.randrange(n)) if k < n]
        cases.append([{"op": "reset"}, {"op": "sparse", "h": h, "w": w, "n": n, "pix": pix, "labels": [r.randrange(256) for _ in range(n)], "ask": want}])
    return cases


def c28_source(seed, thorough):
    cases = []
    for i in range(400 if thorough else 100):
        r = rng_for(seed, "C28s", i)
        h, w = shape(r)
        n = r.choice([1, 2, 2, 3, 4, 6, 10])
        ops = [{"op": "reset"}, {"op": "source", "h": h, "w": w, "imgs": images(r, h, w, n)}]
        for _ in range(r.randint(1, 4)):
            for _ in range(r.choice([n + 1, n, n + 1, r.randint(0, n)])):
                ops.append({"op": "spoint"})
            ops.append({"op": "sreset"})
        ops += [{"op": "spoint"}] * (n + 1)
        cases.append(ops)
    for i, (h, w, n) in enumerate([(2, 3, 300), (28, 28, 12), (1, 1, 500)]):
        r = rng_for(seed, "C28sxl", i)
        ops = [{"op": "reset"}, {"op": "source", "h": h, "w": w, "imgs": images(r, h, w, n)}]
        ops += [{"op": "spoint"}] * (n + 1) + [{"op": "sreset"}] + [{"op": "spoint"}] * 3 + [{"op": "sreset"}] + [{"op": "spoint"}] * (n + 1)
        cases.append(ops)
    return cases


def c28_validate(seed, thorough, raw=False, count=None):
    cases = []
    for i in range(count or (240 if thorough else 64)):
        r = rng_for(seed, "C28v", raw, i)
        nl = r.randint(2, 5)
        labels = [str(x) for x in r.sample(range(10), nl)]
        if r.random() < .2:
            labels[r.randrange(nl)] = r.choice(["zero", "x", "07", "256"])
        h, w = r.randint(3, 5), r.randint(3, 5)
        kind = i % 5
        d = (h, w, 1)
        if kind == 0:
            cs = []
        elif kind == 1:
            cs = [{"k": "pool", "f": r.choice(["max", "min"]), "pd": [2, 2], "ps": [r.randint(1, 2), r.randint(1, 2)]}]
        elif kind == 2:
            cs = [{"k": "kernel", "fd": [2, 2, 1], "n": r.randint(1, 2), "s": r.choice([1, 2])}]
        elif kind == 3:
            cs = [{"k": "act", "f": "RELU"}]
        else:
            cs = [{"k": "kernel", "fd": [2, 2, 1], "n": 2, "s": 1}, {"k": "act", "f": "RELU"}, {"k": "pool", "f": "max", "pd": [2, 2], "ps": [1, 1]}]
        if raw:
            cs = [{"k": "kernel", "fd": [2, 2, 1], "n": 2, "s": 1}, {"k": "act", "f": r.choice(["SIGMOID", "RELU"])},
                  {"k": "pool", "f": r.choice(["max", "min", "avg"]), "pd": [2, 2], "ps": [1, 1]}]
        cs = cs + [{"k": "fc", "n": nl}] + ([{"k": "soft", "n": nl}] if raw else [{"k": "snap", "n": nl, "q": 255}])
        p = Prog(r, 1)
        p.add(op="net", cs=cs, labels=labels)
        cur = d
        for j, c in enumerate(cs):
            if c["k"] == "kernel":
                if not raw:
                    p.add(op="set", o=j, w=matrix(r, (2, 2, c["n"]), 3), b=matrix(r, (c["n"], 1, 1), 1, style="zero"))
                cur = kout(c["fd"], c["n"], c["s"], cur)
            elif c["k"] == "pool":
                cur = pout(c["pd"], c["ps"], cur)
            elif c["k"] == "fc" and not raw:
                p.add(op="set", o=j, w=matrix(r, (nl, vol(cur), 1), 3), b=matrix(r, (nl, 1, 1), 1, style="zero"))
        for o in p.ops:
            if o["op"] == "set":
                o["b"]["v"] = [0] * len(o["b"]["v"])
        T = r.choice([1, 2, 3, 4, 5, 8, 16])
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice([1, 2, T, T + 1, 2 * T - 1, r.randint(1, 30)])
            if i in (5, 8, 10) and not raw:
                n, T = r.choice([(150, 32), (101, 7), (64, 64), (40, 48), (210, 3)]), 0
                n, T = n
            op = {"op": "validate", "m": 0, "h": h, "w": w, "T": T, "probe": 0 if raw else 1,
                  "imgs": images(r, h, w, n, distinct=True, labels=[int(x) for x in labels if x.isdigit() and x not in ("07", "256")] + [r.randrange(10)])}
            if raw:
                op["raw"] = 1
            p.ops.append(op)
        cases.append(p.ops)
    return cases
