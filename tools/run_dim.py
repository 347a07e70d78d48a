"""C30: shapes and indices. DimLaws (TLC) ties iteration to flat indices; programs run on the real
tuples are checked against Dims."""
import itertools
import os
import time
import vlib
from props_net import rng_for

LAWS = "InOrder Inside StopsThere Inverse"


def cfg(c, name, side, fault):
    path = os.path.join(c.work, name + ".cfg")
    with open(path, "w") as f:
        f.write("SPECIFICATION LSpec\nCONSTANTS\n Side = %d\n Fault = \"%s\"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (side, fault, LAWS))
    return path


def programs(seed, thorough):
    cases, many = [], 5
    dirts = (0, 255, 1, 0x55)
    for n in (1, 2, 3, 4):
        # every way to leave numbers out, on every kind of leftover, compared with each other
        for dirt in dirts:
            for k in range(0, n + 1):
                if k == 1:
                    continue                    # a single number is for all
                r = rng_for(seed, "C30a", n, dirt, k)
                v = [r.randint(-9, 9) for _ in range(k)]
                full = v + [0] * (n - k)
                ops = [{"op": "reset", "n": n, "many": many, "dirt": dirt}, {"op": "make", "k": 1, "v": v}]
                if n > 1:
                    ops += [{"op": "make", "k": 2, "v": full}]
                else:
                    ops += [{"op": "fill", "k": 2, "x": full[0]}]
                ops += [{"op": "eq", "i": 1, "j": 2}, {"op": "show", "i": 1}, {"op": "fill", "k": 3, "x": 4}]
                for a in range(1, n + 1):
                    ops += [{"op": "put", "k": 4, "a": a, "x": 4, "by": r.choice(["name", "data"])}, {"op": "eq", "i": 3, "j": 4}]
                ops += [{"op": "add", "k": 5, "i": 1, "j": 4}, {"op": "sub", "k": 5, "i": 5, "j": 4}, {"op": "eq", "i": 5, "j": 1}]
                cases.append(ops)
        # every small shape: where its indices are, and in which order they come
        sides = range(1, 4 if n < 4 else 3)
        shapes = list(itertools.product(sides, repeat=n)) + [tuple(5 if i == j else 1 for i in range(n)) for j in range(n)] + [tuple(range(2, 2 + n)), tuple(range(1 + n, 1, -1))]
        shapes += {1: [(300,), (70000,)], 2: [(65, 33), (1, 700)], 3: [(20, 21, 3), (1, 300, 2), (2, 1, 259)], 4: [(5, 6, 7, 3), (2, 2, 70, 2), (1, 2, 1, 200)]}[n]
        for d in shapes:
            ops = [{"op": "reset", "n": n, "many": many, "dirt": 255}]
            ops += [{"op": "put", "k": 1, "a": a + 1, "x": d[a], "by": "data"} for a in range(n)]
            ops += [{"op": "size", "i": 1}, {"op": "walk", "i": 1}]
            if max(d) > 60000:
                ops.pop()
            idxs = list(itertools.product(*[range(s) for s in d]))
            r = rng_for(seed, "C30b", d)
            if len(idxs) > 12:
                ops += [{"op": "make", "k": 2, "v": [s - 1 for s in d]} if n > 1 else {"op": "fill", "k": 2, "x": d[0] - 1}, {"op": "flat", "i": 1, "j": 2}]
            for i in idxs if len(idxs) <= 12 else r.sample(idxs, 12):
                ops += [({"op": "make", "k": 2, "v": list(i)} if n > 1 else {"op": "fill", "k": 2, "x": i[0]}), {"op": "flat", "i": 1, "j": 2}]
            cases.append(ops)
        # shapes of more elements than an int can count
        for q in range(24 if thorough else 8):
            r = rng_for(seed, "C30big", n, q)
            while True:
                d = [r.choice([1, 2, 3, 1000, 46341, 50000, 65535, 65536, 65537, 2 ** 20, 2 ** 31 - 1, r.randint(1, 2 ** 31 - 1), r.randint(1, 2 ** 17)]) for _ in range(n)]
                total = 1
                for x in d:
                    total *= x
                if total < 2 ** 63 and (n == 1 or total > 2 ** 31):
                    break
            ops = [{"op": "reset", "n": n, "many": many, "dirt": 255}]
            ops += [{"op": "put", "k": 1, "a": a + 1, "x": d[a], "by": "data"} for a in range(n)]
            ops.append({"op": "bsize", "i": 1})
            for f in range(4):
                i = [(x - 1 if f == 0 else r.randint(0, x - 1)) for x in d]
                ops += [{"op": "put", "k": 2, "a": a + 1, "x": i[a], "by": "data"} for a in range(n)]
                ops.append({"op": "bflat", "i": 1, "j": 2})
            cases.append(ops)
        # iterators on one shape, compared with each other, also past its end
        for d in ((2, 3, 2, 2)[:n], (1, 2, 1, 3)[:n], (3, 1, 2, 1)[:n]):
            for first in itertools.product(*[range(s + 1) for s in d]):
                r = rng_for(seed, "C30d", d, first)
                ops = [{"op": "reset", "n": n, "many": many, "dirt": 1}]
                ops += [{"op": "put", "k": 1, "a": a + 1, "x": d[a], "by": "data"} for a in range(n)]
                ops += [{"op": "put", "k": 2, "a": a + 1, "x": first[a], "by": "data"} for a in range(n)]
                ops += [{"op": "iter", "w": 1, "i": 1, "j": 2}, {"op": "iter", "w": 2, "i": 1, "j": 2}, {"op": "same"}]
                every = [i for i in itertools.product(*[range(s + 1) for s in d])]
                for other in every if len(every) <= 24 else r.sample(every, 24):
                    ops += [{"op": "put", "k": 3, "a": a + 1, "x": other[a], "by": "data"} for a in range(n)]
                    ops += [{"op": "iter", "w": 2, "i": 1, "j": 3}, {"op": "same"}]
                ops += [{"op": "put", "k": 4, "a": 1, "x": d[0], "by": "data"}, {"op": "put", "k": 4, "a": n, "x": d[-1] + 1, "by": "data"},
                        {"op": "iter", "w": 2, "i": 4, "j": 2}, {"op": "same"}]
                cases.append(ops)
    # programs
    for p in range(1500 if thorough else 200):
        r = rng_for(seed, "C30c", p)
        n = r.choice([1, 2, 2, 3, 3, 3, 4])
        ops = [{"op": "reset", "n": n, "many": many, "dirt": r.choice(dirts)}]
        known = set(range(1, many + 1))
        bound = {k: 0 for k in known}
        pos = {k: [0] * n for k in known}
        iters = {}
        for _ in range(60 if thorough else 40):
            op = r.choice(["make", "fill", "copy", "assign", "move", "massign", "put", "add", "sub", "eq", "eq", "eq", "size", "flat", "show", "iter", "step", "step", "same", "walk"])
            k = r.randint(1, many)
            i, j = r.choice(sorted(known)), r.choice(sorted(known))
            e = {"op": op}
            if op == "make":
                m = r.choice([x for x in range(0, n + 1) if x != 1])
                v = [r.choice([0, 1, 2, 3, r.randint(-50, 50)]) for _ in range(m)]
                e.update(k=k, v=v)
                pos[k] = v + [0] * (n - m)
            elif op == "fill":
                x = r.choice([0, 1, 2, 3, -7])
                e.update(k=k, x=x)
                pos[k] = [x] * n
            elif op in ("copy", "assign"):
                if op == "assign" and k not in known:
                    e["op"] = "copy"
                e.update(k=k, j=j)
                pos[k] = list(pos[j])
            elif op in ("move", "massign"):
                if k == j:
                    continue
                e.update(k=k, j=j)
                pos[k] = list(pos[j])
                known.discard(j)
            elif op == "put":
                k = i
                a, x = r.randint(1, n), r.choice([0, 1, 2, 3, r.randint(-50, 50)])
                e.update(k=k, a=a, x=x, by=r.choice(["name", "data"]))
                pos[k] = list(pos[k])
                pos[k][a - 1] = x
            elif op in ("add", "sub"):
                v = [a + b if op == "add" else a - b for a, b in zip(pos[i], pos[j])]
                if max(map(abs, v)) > 2000:
                    continue
                e.update(k=k, i=i, j=j)
                pos[k] = v
            elif op in ("eq", "flat"):
                if op == "eq" and r.random() < .5:
                    # differ in one number at most
                    a = r.randint(1, n)
                    if i != k:
                        ops.append({"op": "copy", "k": k, "j": i})
                        pos[k] = list(pos[i])
                        known.add(k)
                        if r.random() < .7:
                            pos[k][a - 1] += r.choice([1, -1, 256, 65536])
                            ops.append({"op": "put", "k": k, "a": a, "x": pos[k][a - 1], "by": r.choice(["name", "data"])})
                        if max(map(abs, pos[k])) > 2000:
                            e.update(i=i, j=k)
                            ops.append(e)
                            ops.append({"op": "fill", "k": k, "x": 1})
                            pos[k] = [1] * n
                            continue
                    j = k if k in known else j
                if op == "flat" and (min(pos[i]) < 0 or min(pos[j]) < 0 or max(pos[i] + pos[j]) > 30):
                    continue
                e.update(i=i, j=j)
            elif op in ("size", "walk"):
                if min(pos[i]) < (1 if op == "walk" else 0) or max(pos[i]) > (6 if op == "walk" else 100):
                    continue
                v = 1
                for x in pos[i]:
                    v *= x
                if op == "walk" and v > 60:
                    continue
                e.update(i=i)
            elif op == "show":
                e.update(i=i)
            elif op == "iter":
                w = r.randint(1, 2)
                if min(pos[i]) < 1:
                    continue
                ix = [r.randrange(s) for s in pos[i]]
                free = r.random() < .3          # anywhere, only to be compared
                if free:
                    if w in iters and r.random() < .7:
                        i2 = iters[w][0]
                        ix = [r.randint(0, s) for s in i2]
                    else:
                        ix = [r.randint(-1, 3) for _ in pos[i]]
                if n > 1:
                    ops.append({"op": "make", "k": k, "v": ix})
                else:
                    ops.append({"op": "fill", "k": k, "x": ix[0]})
                if k == i:
                    pos[k] = ix
                    known.add(k)
                    continue
                pos[k] = ix
                known.add(k)
                e.update(w=w, i=i, j=k)
                ops.append(e)
                if free:
                    iters.pop(w, None)
                    ops.append({"op": "same"})
                    continue
                iters[w] = (list(pos[i]), list(ix))
                if r.random() < .4:
                    iters[3 - w] = (list(pos[i]), list(ix))
                    ops.append(dict(e, w=3 - w))
                continue
            elif op == "step":
                if not iters:
                    continue
                w = r.choice(sorted(iters))
                d, ix = iters[w]
                if ix[-1] >= d[-1]:
                    continue
                for a in range(n):
                    if ix[a] + 1 < d[a] or a == n - 1:
                        ix[a] += 1
                        break
                    ix[a] = 0
                e.update(w=w, post=r.randint(0, 1))
            elif op == "same" and len(iters) < 2:
                continue
            if "k" in e:
                known.add(e["k"])
            ops.append(e)
        cases.append(ops)
    return cases


def run(c):
    c.design("DimLaws.tla", cfg(c, "DimLaws", 5 if c.thorough else 4, "none"), workers="8")
    c.design("DimLaws.tla", cfg(c, "DimLaws-carry", 3, "carry"), expect="is violated")
    c.design("DimLaws.tla", cfg(c, "DimLaws-order", 3, "order"), expect="InOrder is violated")
    exe = c.build("dims", [os.path.join(vlib.HARNESS, "dim_main.cpp")])
    t = time.time()
    c.conform(exe, programs(c.seed, c.thorough), "TraceDims")
    c.notes["conformance_s"] = round(time.time() - t, 1)
    return c.finish("each case is a program over registers of tuples of one to four numbers; every result and every register is compared with Dims after each step")
