"""C01-C07: the matrix library. Each function returns the cases for one property."""
import itertools
import random
from gen_matrix import *


def rng_for(seed, pid, n=0):
    return random.Random("%s/%s/%s" % (seed, pid, n))


# ------------------------------------------------------------------------------------------------
# C01 indexing and iteration
# ------------------------------------------------------------------------------------------------
def c01(seed, thorough):
    r = rng_for(seed, "C01")
    shapes = list(itertools.product(range(0, 4), repeat=3))
    shapes += [(1, 1, 17), (1, 23, 1), (31, 1, 1), (5, 1, 4), (1, 6, 3), (7, 5, 1), (4, 9, 2), (10, 3, 6), (16, 17, 2),
               (2, 2, 33), (33, 2, 2), (2, 33, 2), (20, 20, 1), (64, 3, 1), (3, 64, 1), (9, 8, 7)]
    hi = 14
    for _ in range(24 if thorough else 8):
        shapes.append(tuple(r.randint(1, hi) for _ in range(3)))
    if thorough:
        shapes += list(itertools.product(range(0, 6), repeat=3)) + [(128, 5, 3), (3, 129, 2), (1, 1, 300), (40, 40, 3), (2, 65, 9)]
    r.shuffle(shapes)
    cases = []
    for si, d in enumerate(shapes):
        types = [r.choice(["int", "dbl", "flt", "u8"])]
        if vol(d) > 1000:
            types = [r.choice(["int", "dbl"])]
        p = Prog(r, types, 0, r.choice([1, 1, 4]))
        m = p.m[0]
        n = vol(d)
        kind = "distinct"
        for how in r.sample(["ctorv", "setent", "vec"], 3):
            p.fill(0, d, kind, how)
            hows = ["flat", "xyz", "tri", "xyzm", "trim", "iter", "iterm", "range", "mat"]
            if d[2] == 1:
                hows.append("z0")
            if n > 300:
                hows = r.sample(hows, 4)
            for h in hows:
                p.add(op="read", k=0, how=h, q=1)
        for h in ("xyz", "tri", "dim"):
            p.add(op="idxmap", k=0, how=h, q=1)
        for cst in (0, 1):
            p.add(op="iter", a={"n": "m", "k": 0, "ty": m.t}, post=r.randint(0, 1), cst=cst, q=1)
        # views and expressions
        for rep in range(2 if n < 300 else 1):
            s, e = p.region(d)
            cat = r.choice(["v", "cv"])
            p.add(op="iter", a={"n": cat, "k": 0, "ty": m.t, "p": [{"n": "sub", "s": s, "d": e}]}, post=r.randint(0, 1), cst=r.randint(0, 1), q=1)
            p.add(op="shapeof", a={"n": cat, "k": 0, "ty": m.t, "p": [{"n": "sub", "s": s, "d": e}]}, q=1)
        p.add(op="shapeof", a={"n": r.choice("mc"), "k": 0, "ty": m.t}, q=1)
        if n < 400 and m.t != "u8":
            leaf = {"n": "m", "k": 0, "ty": m.t}
            for a in ({"n": "bin", "op": "-", "a": leaf, "b": leaf}, {"n": "tr", "a": leaf}):
                p.add(op="shapeof", a=a, q=1)
            for a in ({"n": "bin", "op": "+", "a": leaf, "b": leaf}, {"n": "sr", "op": "*", "st": "int", "x": 2 * p.S, "a": leaf},
                      {"n": "apply", "f": "neg", "a": leaf}, {"n": "tr", "a": leaf}, {"n": "mm", "a": {"n": "tr", "a": leaf}, "b": leaf}):
                if a["n"] == "mm" and (n > 60 or m.mag * p.S > 100 or n * m.mag ** 2 > 2 ** 23):
                    continue
                p.add(op="iter", a=a, post=r.randint(0, 1), cst=r.randint(0, 1), q=1)
        # single element writes, each way
        if n:
            for h in ("xyz", "tri", "flat", "flat3", "dimflat", "it"):
                i = [r.randrange(x) for x in d]
                p.add(op="put", k=0, i=i, x=p.value(m.t), how=h, **({} if n < 200 else {"q": 1}))
            p.add(op="read", k=0, how="flat")
        # data of the wrong length
        for ln in {n + 1, n - 1 if n else n + 2, n * 2 + 1, 0 if n else 3}:
            if ln >= 0 and ln != n:
                big = {"q": 1} if n > 300 else {}
                p.add(op=r.choice(["setent", "vec"]), k=0, v=p.values(m.t, ln), **big)
                p.add(op="ctorv", k=0, d=list(d), v=p.values(m.t, ln), **big)
        p.add(op="read", k=0, how="flat")
        cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
# C02 views
# ------------------------------------------------------------------------------------------------
def c02(seed, thorough):
    cases = []
    for n in range(260 if thorough else 90):
        r = rng_for(seed, "C02", n)
        S = r.choice([1, 1, 64])
        types = r.choice([["dbl", "dbl", "dbl"], ["int", "int", "dbl"], ["dbl", "int", "int"], ["flt", "dbl", "flt"]])
        p = Prog(r, types, 3, S, big=r.random() < .2 and "flt" not in types)
        hi = r.choice([3, 4, 5, 8 if n % 5 == 0 else 4])
        for k in range(3):
            d = p.shape(1, hi)
            if r.random() < 0.08:
                d = tuple(0 if i == r.randrange(3) else x for i, x in enumerate(d))
            p.fill(k, d, "any")
        for _ in range(40 if thorough else 26):
            try:
                view_step(p)
            except Reject:
                pass
        cases.append(p.ops)
    # every kind of region of a few shapes, each read and written in one go
    for n, d in enumerate([(3, 4, 2), (2, 3, 3), (4, 3, 1), (3, 3, 4)] if thorough else [(3, 4, 2), (2, 3, 3), (4, 3, 1)]):
        r = rng_for(seed, "C02r", n)
        t = ("int", "dbl")[n % 2]
        p = Prog(r, [t, t], 2, 1)
        p.fill(0, d, "distinct")
        p.fill(1, d, "distinct")
        sides = [[(0, x), (0, max(1, x - 1)), (x - max(1, x - 1), max(1, x - 1)), (1, 1) if x > 2 else (0, 1), (x - 1, 1), (0, 1)] for x in d]
        w = {"n": "w", "w": 0, "ty": t}
        for reg in itertools.product(*[sorted(set(x)) for x in sides]):
            s, e = [x[0] for x in reg], [x[1] for x in reg]
            if r.random() < .3:              # by way of another view
                a = [r.randint(0, x) for x in s]
                p.add(op="view", w=1, k=0, p=[{"n": "sub", "s": a, "d": [d[i] - a[i] for i in range(3)]}], q=1)
                p.add(op="subview", w=0, w0=1, p=[{"n": "sub", "s": [s[i] - a[i] for i in range(3)], "d": e}], q=1)
            else:
                p.add(op="view", w=0, k=0, p=[{"n": "sub", "s": s, "d": e}], q=1)
            p.add(op="eval", a=w, how=r.choice(["call", "xyz", "iter", "mat", "range"]), q=1)
            p.add(op="eval", a={"n": "sc", "k": 0, "ty": t, "p": [{"n": "sub", "s": s, "d": e}]}, how="call", q=1)
            acts = ["fill", "asg", "ips", "put"]
            r.shuffle(acts)
            for act in acts if thorough else ["fill", "asg"] + acts[:1]:
                if act == "fill":
                    p.add(op="vfill", w=0, x=r.randint(10, 99), st=r.choice(["int", "same"]))
                elif act == "asg":
                    p.add(op="vassign", w=0, ty=t, a={"n": "v", "k": 1, "ty": t, "p": [{"n": "sub", "s": s, "d": e}]})
                elif act == "ips":
                    p.add(op="ips", tg=w, o=r.choice("+-"), st="int", x=r.randint(1, 9))
                else:
                    p.add(op="vput", w=0, i=[x - 1 for x in e], x=r.randint(10, 99), how=r.choice(["at", "xyz", "tri", "iter"]))
        cases.append(p.ops)
    return cases


def own_region(p, r, k, d):
    """A region of matrix k of shape d (which fits), as it is, turned, transposed or in arithmetic."""
    x = r.random()
    if x < .2 and p.m[k].d[0] >= d[1] and p.m[k].d[1] >= d[0]:
        A = p.leaf(k, r.choice(["v", "cv"]), (d[1], d[0], d[2]))
        return ({"n": "tr", "a": A[0]}, A[1], tuple(d), A[3], A[4])
    A = p.leaf(k, r.choice(["v", "cv"]), d)
    if x < .4:
        return ({"n": "rot", "c": 2 if d[0] != d[1] else r.choice([1, 2, 3]), "a": A[0]},) + A[1:]
    if x < .55:
        return p.bin(r.choice("+-"), A, p.leaf(k, "v", d))
    return A


def live(p):
    return [w for w, v in enumerate(p.v) if v]


def view_step(p):
    r = p.r
    act = r.choice(["mk"] * 4 + ["sub"] * 2 + ["bad"] * 3 + ["badsub"] + ["read"] * 4 + ["at"] * 2 + ["atbad"] * 2 + ["put"] * 3 + ["fill"] * 2
                   + ["asg"] * 4 + ["asgbad"] + ["ips"] * 2 + ["ipm"] * 2 + ["parent"] * 3 + ["copy"] * 2)
    ws = live(p)
    if act not in ("mk", "bad", "parent", "copy") and not ws:
        act = "mk"
    if act in ("mk", "bad"):
        k = r.randrange(3)
        w = r.randrange(3)
        path, s, d = [], [0, 0, 0], p.m[k].d
        depth = r.randint(1, 3)
        for i in range(depth):
            bad = act == "bad" and i == depth - 1
            st, s1, d1 = p.step(d, bad)
            path.append(st)
            s = [s[j] + s1[j] for j in range(3)]
            d = d1
            if bad:
                break
        p.add(op="view", w=w, k=k, p=path)
        if act == "mk":
            p.v[w] = (k, tuple(s), tuple(d))
    elif act in ("sub", "badsub"):
        w0 = r.choice(ws)
        w = r.randrange(3)
        k, s, d = p.v[w0]
        st, s1, d1 = p.step(d, act == "badsub")
        p.add(op="subview", w=w, w0=w0, p=[st])
        if act == "sub":
            p.v[w] = (k, tuple(s[j] + s1[j] for j in range(3)), tuple(d1))
    elif act == "read":
        w = r.choice(ws)
        a = {"n": "w", "w": w, "ty": p.m[p.v[w][0]].t}
        if r.random() < .4:
            p.add(op="iter", a=a, post=r.randint(0, 1), cst=r.randint(0, 1))
        else:
            p.add(op="eval", a=a, how=r.choice(["call", "xyz", "iter", "mat", "range"]))
    elif act in ("at", "atbad", "put"):
        w = r.choice(ws)
        d = p.v[w][2]
        t = p.m[p.v[w][0]].t
        if vol(d) == 0 and act != "atbad":
            return
        i = [r.randrange(x) if x else 0 for x in d]
        if act == "atbad":
            ax = r.randrange(3)
            i[ax] = r.choice([-1, d[ax], d[ax] + 1, -2, 2 ** 31 - 1, -2 ** 31])
            if r.random() < .5:
                p.add(op="vat", w=w, i=i, how=r.choice(["at", "cat"]))
            else:
                p.add(op="vput", w=w, i=i, x=p.value(t), how="at")
        elif act == "at":
            p.add(op="vat", w=w, i=i, how=r.choice(["at", "cat", "xyz", "cxyz", "ctri", "tri"]))
        else:
            x = p.value(t)
            m = p.m[p.v[w][0]]
            b = p.bounds([x])
            p.add(op="vput", w=w, i=i, x=x, how=r.choice(["at", "xyz", "tri", "iter"]))
            m.mag, m.fb = max(m.mag, b[0]), max(m.fb, b[1])
    elif act == "fill":
        w = r.choice(ws)
        m = p.m[p.v[w][0]]
        st = r.choice(["int", "dbl", "same"])
        x = p.value("int" if st == "int" else m.t)
        b = p.bounds([x])
        p.add(op="vfill", w=w, x=x, st=st)
        m.mag, m.fb = max(m.mag, b[0]), max(m.fb, b[1])
    elif act in ("asg", "asgbad"):
        w = r.choice(ws)
        k, s, d = p.v[w]
        m = p.m[k]
        src = r.choice(["m", "v", "w", "expr", "own", "own"])
        if act == "asgbad":
            j = r.randrange(3)
            if p.m[j].d == d or j == k:
                return
            p.add(op="vassign", w=w, ty=m.t, a={"n": r.choice(["m", "c", "t"]), "k": j, "ty": p.m[j].t})
            return
        A = None
        if src == "w":
            c = [x for x in ws if p.v[x][2] == d]
            if not c:
                return
            x = r.choice(c)
            mm = p.m[p.v[x][0]]
            A = ({"n": "w", "w": x, "ty": mm.t}, mm.t, d, mm.mag, mm.fb)
        elif src == "own":
            # a region of the same matrix, usually overlapping, as it is or turned or transposed
            A = own_region(p, r, k, d)
        else:
            c = [j for j in range(3) if j != k and all(p.m[j].d[i] >= d[i] for i in range(3))]
            if not c:
                return
            j = r.choice(c)
            A = p.leaf(j, r.choice(["v", "cv"]), d) if p.m[j].d != d or r.random() < .3 else p.leaf(j, r.choice(["m", "c", "t"]))
            if src == "expr":
                A = p.scalar(r.choice(["+", "-"]), A, st="int")
        if A[1] in ("dbl", "flt") and m.t == "int" and A[3] * p.S >= LIM:
            return
        p.check(m.t, A[3], A[4])
        p.add(op="vassign", w=w, ty=m.t, a=A[0])
        m.mag, m.fb = max(m.mag, A[3]), max(m.fb, A[4] if m.t != "int" else 0)
    elif act in ("ips", "ipm"):
        w = r.choice(ws)
        k, s, d = p.v[w]
        m = p.m[k]
        tg = {"n": "w", "w": w, "ty": m.t}
        o = r.choice(["+", "-", "*"])
        if act == "ips":
            st = r.choice(["int", m.t])
            x = p.value(st) if o != "*" else r.choice([2, -1, 0, 1]) * p.S
            b = p.bounds([x])
            nb = p.opbounds(o, common(m.t, st), m.mag, m.fb, *b)
            p.add(op="ips", tg=tg, o=o, st=st, x=x)
        else:
            c = [j for j in range(3) if all(p.m[j].d[i] >= d[i] for i in range(3))]
            if not c:
                return
            j = r.choice(c)
            A = own_region(p, r, k, d) if j == k else p.leaf(j, r.choice(["v", "cv"]), d)
            t = common(m.t, A[1])
            nb = p.opbounds(o, t, m.mag, m.fb, A[3], A[4])
            p.check(m.t, *nb)
            p.add(op="ipm", tg=tg, o=o, a=A[0])
        m.mag, m.fb = max(m.mag, nb[0]), max(m.fb, nb[1] if m.t != "int" else 0)
    elif act == "parent":
        k = r.randrange(3)
        m = p.m[k]
        if vol(m.d) == 0:
            return
        if r.random() < .5:
            x = p.value(m.t)
            b = p.bounds([x])
            p.add(op="put", k=k, i=[r.randrange(n) for n in m.d], x=x, how="xyz")
            m.mag, m.fb = max(m.mag, b[0]), max(m.fb, b[1])
        else:
            vals = p.values(m.t, vol(m.d))
            p.add(op=r.choice(["vec", "setent"]), k=k, v=vals)
            m.mag, m.fb = p.bounds(vals)
    elif act == "copy":
        # an independent copy of a region (assignment to a matrix that no view refers to)
        k = r.randrange(3)
        c = [j for j in range(3) if j != k and not any(v and v[0] == j for v in p.v) and p.m[j].t == p.m[k].t]
        if not c:
            return
        j = r.choice(c)
        if r.random() < .3:
            s, e = p.bad_region(p.m[k].d)
            p.add(op="assign", k=j, ty=p.m[j].t, how="asg", a={"n": "sc", "k": k, "ty": p.m[k].t, "p": [{"n": "sub", "s": s, "d": e}]})
        s, e = p.region(p.m[k].d)
        p.add(op="assign", k=j, ty=p.m[j].t, how=r.choice(["asg", "ctor"]), a={"n": r.choice(["v", "cv", "sc", "sc"]), "k": k, "ty": p.m[k].t, "p": [{"n": "sub", "s": s, "d": e}]})
        p.m[j].d, p.m[j].mag, p.m[j].fb = tuple(e), p.m[k].mag, p.m[k].fb


# ------------------------------------------------------------------------------------------------
# C03 lazy expressions
# ------------------------------------------------------------------------------------------------
def named_leaves(n):
    """The matrices an expression refers to; none if a part of it is a copy made when it was built."""
    if n["n"] in ("t", "sc") or n.get("mem"):
        return set()
    if n["n"] in ("m", "c", "v", "cv"):
        return {n["k"]}
    sides = [named_leaves(n[s]) for s in ("a", "b") if s in n]
    return set().union(*sides) if all(sides) else set()


def c03(seed, thorough):
    """Expression shapes: all operators over all operand categories (systematic), plus random nestings;
    each shape is evaluated on several data."""
    r = rng_for(seed, "C03")
    shapes = []
    cats = CATS + ["e"]
    pairs = list(itertools.product(cats, repeat=2))
    # every operator with a few category pairs, together covering all pairs
    r.shuffle(pairs)
    pi = itertools.cycle(pairs)
    for op in OPS:
        for _ in range(8 if thorough else 4):
            shapes.append(("bin", op, next(pi), "dbl", "dbl"))
        shapes.append(("bin", op, next(pi), "int", "int"))
        shapes.append(("bin", op, next(pi), r.choice(["int", "flt"]), "dbl"))
        shapes.append(("bin", op, next(pi), "dbl", r.choice(["int", "flt"])))
        for left in (0, 1):
            ts = ["dbl", "int"] + ([r.choice(["flt", "dbl", "int"])] if thorough or r.random() < .3 else [])
            for t in ts:
                shapes.append(("sc", op, left, r.choice(cats), t, r.choice(["int", "dbl"])))
    for f in ("id", "neg", "dbl", "inc", "half", "pos", "abs", "abs", "sq"):
        for t in ("dbl", "int") if f != "abs" else ("dbl", "int", "flt"):
            shapes.append(("un", f, r.choice(cats), t))
    for t in ("dbl", "int", "flt", "u8"):      # the member function, on a matrix of each kind
        shapes.append(("un", "mabs", r.choice("mct"), t))
    for i in range(120 if thorough else 36):
        shapes.append(("deep", i))

    cases = []
    dims = [(3, 3, 1), (2, 3, 2), (1, 1, 1), (4, 1, 3), (1, 5, 2), (3, 2, 4), (0, 2, 2), (6, 7, 2)]
    for n, sh in enumerate(shapes):
        for rep in range(3):
            r2 = rng_for(seed, "C03-%d" % n, "shape")          # same shape in every repetition
            rd = rng_for(seed, "C03-%d" % n, rep)
            if sh[0] in ("bin",):
                t1, t2 = sh[3], sh[4]
            elif sh[0] in ("sc",):
                t1 = t2 = sh[4]
            elif sh[0] == "un":
                t1 = t2 = sh[3]
            else:
                t1, t2 = r2.choice([("dbl", "dbl"), ("dbl", "int"), ("int", "dbl"), ("int", "int"), ("flt", "dbl")])
            intish = "int" in (t1, t2)
            S = rd.choice([1, 64, 1024]) if sh[0] != "deep" else rd.choice([64, 1024, 4096])
            if sh[0] == "un" and sh[1] == "half":
                S = 64
            p = Prog(rd, [t1, t2, t1, t2], 0, S, big=rep == 2 and sh[0] != "deep" and sh[1] in ("+", "-", "id", "neg", "abs", "<", "==", ">=") and "flt" not in (t1, t2))
            d = rd.choice(dims)
            for k in range(4):
                kind = "p2" if k >= 2 and t1 != "u8" else "any"
                # room for views: matrices larger than the operand shape
                p.fill(k, d, kind)
            try:
                A = None
                if sh[0] == "bin":
                    _, op, (ca, cb), _, _ = sh
                    A = p.bin(op, operand(p, r2, ca, 0, d), operand(p, r2, cb, 3 if op == "/" else 1, d, keep=op == "/"))
                elif sh[0] == "sc":
                    _, op, left, ca, t, st = sh
                    A = p.scalar(op, operand(p, r2, ca, 2 if op == "/" and left else 0, d, keep=op == "/" and left), bool(left), st)
                elif sh[0] == "un":
                    A = p.unary(sh[1].replace("mabs", "abs"), operand(p, r2, sh[2], 0, d))
                    if sh[1] == "mabs":
                        A[0]["mem"] = 1
                else:
                    A = deep(p, r2, 3 if r2.random() < .5 else 2, d)
            except Reject:
                continue
            hows = ["call", "xyz", "iter", "mat"]
            p.add(op="eval", a=A[0], how=hows[(n + rep) % 4] if sh[0] != "deep" else hows[n % 4])
            # the expression is read, an element of an operand written, and the same expression read again
            ks = sorted(named_leaves(A[0]))
            if (n + rep) % 2 == 0 and ks and vol(d) > 1:
                k = rd.choice(ks)
                t = p.m[k].t
                old = [o for o in p.ops if o["op"] in ("ctorv", "setent", "vec") and o["k"] == k][-1]["v"]
                p.add(op="evalw", a=A[0], how=hows[(n + rep // 2) % 3], ty=t, k=k, j=[rd.randrange(x) for x in A[2]],
                      i=[rd.randrange(x) for x in d], x=rd.choice(old))
                if rd.random() < .7:
                    p.ops[-1]["i"] = list(p.ops[-1]["j"]) if tuple(A[2]) == tuple(d) else p.ops[-1]["i"]
            # assignment into a matrix of the same type, which may be an operand
            if (n + rep) % 3 == 0:
                tgt = 0
                p.check(p.m[tgt].t, A[3], A[4])
                p.add(op="assign", k=tgt, ty=p.m[tgt].t, how="asg", a=A[0])
            cases.append(p.ops)
    # exp of every kind of operand and of expressions
    for n in range(60 if thorough else 20):
        r2 = rng_for(seed, "C03-exp", n)
        t = ["dbl", "dbl", "flt", "int", "u8"][n % 5]
        p = Prog(r2, [t, t], 0, 8)
        d = r2.choice(dims)
        top = 5 if t == "u8" else 9 if t == "int" else 76
        for k in range(2):
            vals = [r2.randint(0 if t == "u8" else -top, top) * (8 if t in ("int", "u8") else 1) for _ in range(vol(d))]
            if k == 0 and t == "dbl" and vals and n % 2:
                vals[r2.randrange(len(vals))] = -8000
            p.add(op="ctorv", k=k, d=list(d), v=vals)
            p.m[k].d = tuple(d)
            p.m[k].mag, p.m[k].fb = 10, 3
        A = p.leaf(0, r2.choice(CATS), d)
        if t != "u8" and (vol(d) == 0 or -8000 not in p.ops[1]["v"]):
            kind = n // 5 % 4
            if kind == 1:
                A = p.bin(r2.choice(["+", "-"]), p.leaf(0, r2.choice(["m", "c", "t"])), p.leaf(1, r2.choice(["m", "c", "t"])))
            elif kind == 2:
                A = p.unary(r2.choice(["neg", "abs", "pos"]), A)
            elif kind == 3:
                A = ({"n": "sr", "op": "+", "st": "int", "x": 8, "a": A[0]},)
        p.add(op="exp", a=A[0], how=["call", "xyz", "iter", "mat"][n % 4])
        cases.append(p.ops)
    # shapes that do not match are refused, whatever the operator and position
    for n in range(40 if thorough else 14):
        r2 = rng_for(seed, "C03-mis", n)
        p = Prog(r2, ["dbl", "dbl"], 0, 1)
        d = p.shape(1, 4)
        ax = r2.randrange(3)
        d2 = tuple(x + (1 if i == ax else 0) for i, x in enumerate(d))
        if n % 4 == 1:
            d2 = (d[1], d[0], d[2])
        if n % 4 == 2:
            d2 = (vol(d), 1, 1)
        if d2 == d:
            d2 = (d[0], d[1] + 1, d[2])
        p.fill(0, d)
        p.fill(1, d2, "p2")
        p.fill(0, d)
        op = OPS[n % 10]
        ca, cb = r2.choice(CATS), r2.choice(CATS)
        # the operands are only combined to be refused, so bounds do not matter
        A = ({"n": "bin", "op": op, "a": p.leaf(0, ca)[0], "b": p.leaf(1, cb)[0]}, "dbl", d, 1, 0)
        p.add(op="eval", a=A[0], how="call")
        if n % 2 == 0:
            B = p.bin("+", p.leaf(0, "m"), A) if n % 4 else p.scalar("+", A, st="int")
            p.add(op="assign", k=0, ty="dbl", how="asg", a=B[0])
        cases.append(p.ops)
    return cases


def operand(p, r, cat, k, d, keep=False):
    """An operand of the wanted category; "e" is itself an expression."""
    if cat == "e":
        A = p.leaf(k, r.choice(["m", "c"]))
        if keep:
            A = p.unary(r.choice(["neg", "id"]), A)
        else:
            A = p.scalar(r.choice(["+", "-"]), A, st="int") if r.random() < .5 else p.unary("neg", A)
        return named(A, r, .4)
    A = p.leaf(k, cat, d if cat in ("v", "cv") else None)
    if cat in ("v", "cv"):
        named(A, r, .4)
    return A


def deep(p, r, depth, d):
    if depth == 0 or r.random() < .12:
        return operand(p, r, r.choice(CATS), r.choice([0, 1]), d)
    x = r.random()
    if x < .5:
        op = r.choice(["+", "-", "*", "+", "-", "/", "<", "==", ">="])
        A = deep(p, r, depth - 1, d)
        B = operand(p, r, r.choice(CATS), r.choice([2, 3]), d) if op == "/" else deep(p, r, depth - 1, d)
        return named(p.bin(op, A, B), r, .25)
    if x < .75:
        op = r.choice(["+", "-", "*", "/", ">"])
        A = deep(p, r, depth - 1, d)
        return named(p.scalar(op, A, op != "/" and r.random() < .5, r.choice(["int", "dbl"])), r, .25)
    return named(p.unary(r.choice(["neg", "abs", "inc", "pos"]), deep(p, r, depth - 1, d)), r, .25)


# ------------------------------------------------------------------------------------------------
# C04 in-place arithmetic
# ------------------------------------------------------------------------------------------------
def c04(seed, thorough):
    cases = []
    dims = [(3, 3, 1), (2, 3, 2), (1, 1, 1), (4, 1, 3), (1, 5, 2), (3, 2, 4), (0, 2, 2), (6, 7, 2), (12, 1, 1), (2, 2, 9)]
    n = 0
    # every operator, every type, matrix and view targets, every kind of right operand
    for rep in range(3 if thorough else 1):
        for t in ("dbl", "int", "flt"):
            for o in "+-*/":
                for tgn in ("m", "w"):
                    for kind in ("scal", "scald", "elem", "elem", "mat", "expr", "mis", "modify", "other", "own", "own"):
                        n += 1
                        r = rng_for(seed, "C04", n)
                        S = 64 if t != "int" else r.choice([1, 64])
                        t2 = "int" if t != "int" else "dbl"
                        p = Prog(r, [t, t, t2], 1, S, big=False)
                        d = r.choice(dims[:8] if rep == 0 else dims)
                        big = tuple(x + r.randint(0, 2) for x in d)
                        k0 = big if tgn == "w" and 0 not in d else d
                        if kind == "own" and r.random() < .5 and 0 not in d:      # square
                            side = max(d[0], d[1])
                            d = (side, side, d[2])
                            k0 = tuple(max(a, b) for a, b in zip(k0, d)) if tgn == "w" else d
                        p.fill(0, k0, "p2" if kind == "own" and o == "/" else "any")
                        p.fill(1, d, "p2" if o == "/" else "any")
                        p.fill(2, d, "p2" if o == "/" else "any")
                        tg = {"n": "m", "k": 0, "ty": t}
                        if tgn == "w":
                            s = [r.randint(0, k0[i] - d[i]) for i in range(3)]
                            p.add(op="view", w=0, k=0, p=[{"n": "sub", "s": s, "d": list(d)}])
                            tg = {"n": "w", "w": 0, "ty": t}
                        for again in range(2):
                            try:
                                inplace(p, r, tg, o, kind, d)
                            except Reject:
                                pass
                        cases.append(p.ops)
    # histories
    for h in range(120 if thorough else 30):
        r = rng_for(seed, "C04h", h)
        t = r.choice(["dbl", "int", "dbl"])
        p = Prog(r, [t, t, "int" if t == "dbl" else "dbl"], 1, 64, big=False)
        d = r.choice(dims[:7])
        p.fill(0, d)
        p.fill(1, d, "p2")
        p.fill(2, d, "p2")
        s, e = p.region(d)
        p.add(op="view", w=0, k=0, p=[{"n": "sub", "s": s, "d": e}])
        for _ in range(16):
            whole = r.random() < .6
            tg = {"n": "m", "k": 0, "ty": t} if whole else {"n": "w", "w": 0, "ty": t}
            try:
                inplace(p, r, tg, r.choice("+-*/"), r.choice(["scal", "scald", "elem", "mat", "expr", "mis", "modify", "other", "own", "own"]), d if whole else tuple(e))
            except Reject:
                p.add(op="ctor", k=0, d=list(d), x=0, q=1) if False else None
        cases.append(p.ops)
    return cases


def inplace(p, r, tg, o, kind, d):
    m = p.m[0]
    t = m.t
    setb = lambda nb: (setattr(m, "mag", max(m.mag, nb[0])), setattr(m, "fb", max(m.fb, 0 if t == "int" else nb[1])))
    if kind in ("scal", "scald"):
        st = "int" if (kind == "scal" and t != "flt") else ("dbl" if t != "flt" else "flt")
        if o == "/":
            x = p.value(st, "p2")
        elif o == "*":
            x = r.choice([2, -1, 0, 3]) * p.S if st == "int" else r.choice([p.S // 2 or 1, -p.S, 2 * p.S])
        else:
            x = p.value(st)
        if st == "int":
            x = (abs(x) // p.S) * p.S * (1 if x >= 0 else -1)
            if o == "/" and x == 0:
                x = 2 * p.S
        nb = p.opbounds(o, common(t, st), m.mag, m.fb, *p.bounds([x]))
        p.check(t, *nb)
        p.add(op="ips", tg=tg, o=o, st=st, x=x)
        setb(nb)
    elif kind == "elem":
        # the scalar is an element of the matrix itself (or of a matrix of powers of two)
        k = 0 if o != "/" else 1
        if vol(p.m[k].d) == 0:
            raise Reject()
        i = [r.randrange(x) for x in p.m[k].d]
        if o == "/":
            # make the referenced element of matrix 0 a power of two first
            k = 0
            i = [r.randrange(x) for x in m.d]
            x = r.choice([1, 2, -2, 4]) * p.S
            p.add(op="put", k=0, i=i, x=x, how="tri")
            m.mag = max(m.mag, 4)
        nb = p.opbounds(o, t, m.mag, m.fb, m.mag, m.fb) if o != "/" else p.opbounds(o, t, m.mag, m.fb, 4, 0)
        p.check(t, *nb)
        p.add(op="ipe", tg=tg, o=o, k=k, ty=t, i=i)
        setb(nb)
    elif kind in ("mat", "expr", "other"):
        k = 2 if kind == "other" else 1
        if any(p.m[k].d[i] < d[i] for i in range(3)):
            raise Reject()
        cat = r.choice(CATS)
        A = p.leaf(k, cat if p.m[k].d == tuple(d) or cat in ("v", "cv") else "v", d if cat in ("v", "cv") or p.m[k].d != tuple(d) else None)
        if kind == "expr":
            if o == "/":
                A = p.unary("neg", A)
            elif tg["n"] == "m" and r.random() < .5:
                A = p.bin(r.choice(["+", "-"]), A, p.leaf(0, "m"))           # index-aligned, mentions the target
            else:
                A = p.scalar(r.choice(["+", "-"]), A, bool(r.randint(0, 1)), "int")
        nb = p.opbounds(o, common(t, A[1]), m.mag, m.fb, A[3], A[4])
        p.check(t, *nb)
        p.add(op="ipm", tg=tg, o=o, a=A[0])
        setb(nb)
    elif kind == "own":
        # the operand refers to the target: transposed, turned, shifted, or multiplied with itself
        if o == "/" and (not m.p2 or t == "int"):
            raise Reject()
        if o != "/" and tg["n"] == "m" and d[0] == d[1] and vol(d) and d[0] <= 4 and r.random() < .3 and (m.mag * p.S) ** 2 * d[0] < 2 ** 28 and 2 * m.fb <= p.fbmax:
            A = ({"n": "mm", "a": p.leaf(0, "m")[0], "b": p.leaf(0, r.choice(["m", "c"]))[0]}, t, tuple(d), d[0] * m.mag ** 2, 2 * m.fb)
        elif tg["n"] == "m" and r.random() < .7:
            A = p.leaf(0, r.choice(["m", "c"]))
            if d[0] == d[1]:
                n = r.choice(["tr", "rot", "rot"])
                A = ({"n": n, "a": A[0], **({"c": r.choice([1, 2, 3])} if n == "rot" else {})},) + A[1:]
            else:
                A = ({"n": "rot", "c": 2, "a": A[0]},) + A[1:]
        elif o == "/":
            A = p.leaf(0, r.choice(["v", "cv"]), d)
        else:
            A = own_region(p, r, 0, tuple(d))
        nb = p.opbounds(o, common(t, A[1]), m.mag, m.fb, A[3], A[4]) if o != "/" else (16, 4)
        p.check(t, *nb)
        p.add(op="ipm", tg=tg, o=o, a=A[0])
        m.p2 = False
        setb(nb)
    elif kind == "mis":
        # different shape: refused and nothing changes
        j = 1
        if r.random() < .5 and 0 not in d:
            want = list(d)
            want[r.randrange(3)] -= 1
            A = p.leaf(j, "v", want) if all(p.m[j].d[i] >= want[i] for i in range(3)) else None
            if A is None:
                raise Reject()
        else:
            A = p.leaf(j, r.choice(["m", "c", "t"]))
            A = ({"n": "tr", "a": A[0]}, A[1], (A[2][1], A[2][0], A[2][2]), A[3], A[4])
            if A[2] == tuple(d):
                raise Reject()
        if tuple(A[2]) == tuple(d):
            raise Reject()
        p.add(op="ipm", tg=tg, o=o, a=A[0])
    elif kind == "modify":
        f = r.choice(["neg", "inc", "dbl", "pos", "abs", "half" if t == "int" else "neg"])
        A = p.unary(f, ({}, t, d, m.mag, m.fb))
        p.add(op="modify", tg=tg, f=f)
        setb((A[3], A[4]))


# ------------------------------------------------------------------------------------------------
# C05 value semantics
# ------------------------------------------------------------------------------------------------
def c05(seed, thorough):
    cases = []
    for n in range(300 if thorough else 110):
        r = rng_for(seed, "C05", n)
        S = r.choice([1, 4, 64])
        types = r.choice([["dbl", "dbl", "int", "flt"], ["int", "int", "dbl", "dbl"], ["flt", "flt", "int", "dbl"], ["dbl", "int", "u8", "dbl"]])
        p = Prog(r, types, 0, S, big=r.random() < .25)
        for k in range(4):
            big, p.big = p.big, p.big and types[k] in ("dbl", "int") and "flt" not in types and "u8" not in types
            d = p.shape(0 if r.random() < .15 else 1, r.choice([3, 4, 3, 7]))
            p.fill(k, d)
            p.big = big
        for _ in range(24 if thorough else 16):
            try:
                value_step(p)
            except Reject:
                pass
        cases.append(p.ops)
    return cases


def value_step(p):
    r = p.r
    act = r.choice(["copy"] * 3 + ["conv"] * 3 + ["move"] * 3 + ["self"] * 4 + ["expr"] * 3 + ["view"] * 2 + ["reshape"] * 3
                   + ["badreshape"] * 3 + ["resize"] * 3 + ["badsize"] * 2 + ["put"] * 3 + ["fill"] * 2 + ["swap", "selfcopy"] + ["badvec"])
    k = r.randrange(4)
    m = p.m[k]
    if act in ("copy", "conv"):
        j = r.choice([j for j in range(4) if (p.m[j].t == m.t) == (act == "copy")] or [k])
        s = p.m[j]
        if s.t != "u8" and m.t == "u8":
            raise Reject()
        p.check(m.t, s.mag, s.fb if m.t != "int" else 0)
        p.add(op="assign", k=k, ty=m.t, how=r.choice(["asg", "ctor"]), a={"n": r.choice(["m", "c", "t"]), "k": j, "ty": s.t})
        m.d, m.mag, m.fb = s.d, s.mag, (s.fb if m.t not in ("int", "u8") else 0)
    elif act == "selfcopy":
        p.add(op="assign", k=k, ty=m.t, how="asg", a={"n": "m", "k": k, "ty": m.t})
    elif act in ("move", "swap"):
        c = [j for j in range(4) if j != k and p.m[j].t == m.t]
        if not c:
            raise Reject()
        j = r.choice(c)
        s = p.m[j]
        if act == "swap":
            p.add(op="swap", k=k, j=j)
            for f in ("d", "mag", "fb"):
                a, b = getattr(m, f), getattr(s, f)
                setattr(m, f, b)
                setattr(s, f, a)
        else:
            p.add(op="move", k=k, j=j, how=r.choice(["asg", "ctor"]))
            m.d, m.mag, m.fb = s.d, s.mag, s.fb
            # the source is empty or unchanged: give it a definite value again before it is used
            p.fill(j, p.shape(1, 3))
    elif act == "self":
        # the assigned matrix occurs in the source
        x = r.random()
        A = p.leaf(k, "m")
        if x < .3:
            A = ({"n": "tr", "a": A[0]}, A[1], (A[2][1], A[2][0], A[2][2]), A[3], A[4])
        elif x < .55:
            s, e = p.region(m.d)
            A = ({"n": "v", "k": k, "ty": m.t, "p": [{"n": "sub", "s": s, "d": e}]}, m.t, tuple(e), m.mag, m.fb)
        elif x < .7 and m.t != "u8":
            A = ({"n": "rot", "c": 2, "a": A[0]},) + A[1:]
        elif x < .85 and m.t != "u8":
            A = p.bin(r.choice("+-"), A, p.leaf(k, "m"))
        elif m.t != "u8" and m.d[0] == m.d[1] and vol(m.d) and m.d[0] * (m.mag * p.S) ** 2 < 2 ** 28 and 2 * m.fb <= p.fbmax:
            A = ({"n": "mm", "a": A[0], "b": p.leaf(k, "m")[0]}, m.t, m.d, m.d[0] * m.mag ** 2, 2 * m.fb)
            p.check(m.t, A[3], A[4])
        else:
            raise Reject()
        p.add(op="assign", k=k, ty=m.t, how="asg", a=A[0])
        m.d, m.mag, m.fb = A[2], A[3], A[4]
    elif act in ("expr", "view"):
        j = r.randrange(4)
        s = p.m[j]
        if s.t == "u8" or m.t == "u8":
            raise Reject()
        if act == "view":
            st, e = p.region(s.d)
            A = ({"n": r.choice(["v", "cv"]), "k": j, "ty": s.t, "p": [{"n": "sub", "s": st, "d": e}]}, s.t, tuple(e), s.mag, s.fb)
        else:
            A = p.scalar(r.choice("+-*"), p.leaf(j, r.choice(["m", "c", "t"])), bool(r.randint(0, 1)), r.choice(["int", "dbl"]))
        p.check(m.t, A[3], A[4] if m.t != "int" else 0)
        if A[3] * p.S > LIM / 4:
            raise Reject()
        p.add(op="assign", k=k, ty=m.t, how=r.choice(["asg", "ctor"]), a=A[0])
        m.d, m.mag, m.fb = A[2], A[3], (A[4] if m.t != "int" else 0)
    elif act == "reshape":
        n = vol(m.d)
        if n == 0:
            d = r.choice([(0, 1, 1), (0, 0, 0), (3, 0, 2)])
        else:
            f = [x for x in range(1, n + 1) if n % x == 0]
            a = r.choice(f)
            b = r.choice([x for x in range(1, n // a + 1) if (n // a) % x == 0])
            d = [a, b, n // a // b]
            r.shuffle(d)
        p.add(op="reshape", k=k, d=list(d), how=r.randint(0, 1))
        m.d = tuple(d)
    elif act == "badreshape":
        d = list(m.d)
        if r.random() < .4:
            # the number of elements fits, but sides are negative
            for ax in r.sample(range(3), 2):
                d[ax] = -d[ax] if d[ax] else -1
        elif r.random() < .2:
            d = r.choice([[65536, 65536, 1], [1 << 20, 1 << 20, 1 << 20], [-1, 1, 1], [1 << 16, 1 << 15, 2]])
        else:
            d[r.randrange(3)] += r.choice([1, -1, 2])
        if d == list(m.d) or (min(d) >= 0 and vol(d) == vol(m.d)):
            raise Reject()
        p.add(op="reshape", k=k, d=d, how=r.randint(0, 1))
    elif act == "badsize":
        # no matrix has this size, and a refused operation changes nothing
        d = r.choice([[-1, 1, 1], [2, -3, 1], [-2, -3, 1], [1, -1, -1], [-1, -1, -1], [3, 3, -1], [65536, 65536, 1], [1 << 16, 1 << 15, 1],
                      [46341, 46341, 1], [1 << 30, 1 << 30, 4], [2, 1 << 30, 1], [1 << 11, 1 << 10, 1 << 10], [(1 << 31) - 1, (1 << 31) - 1, (1 << 31) - 1]])
        r.shuffle(d)
        op = r.choice(["resize", "resize", "ctor", "ctorv"])
        if op == "resize":
            p.add(op="resize", k=k, d=d, how=r.randint(0, 1))
        elif op == "ctor":
            p.add(op="ctor", k=k, d=d, x=0)
        else:
            p.add(op="ctorv", k=k, d=d, v=p.values(m.t, r.choice([0, 1, 6])))
    elif act == "resize":
        d = p.shape(0 if r.random() < .2 else 1, 4)
        p.add(op="resize", k=k, d=list(d), how=r.randint(0, 1))
        m.d = d
    elif act == "put":
        if vol(m.d) == 0:
            raise Reject()
        big, p.big = p.big, False
        x = p.value(m.t)
        p.big = big
        b = p.bounds([x])
        p.add(op="put", k=k, i=[r.randrange(x) for x in m.d], x=x, how="xyz")
        m.mag, m.fb = max(m.mag, b[0]), max(m.fb, b[1])
    elif act == "fill":
        big, p.big = p.big, False
        p.fill(k, p.shape(1, 3))
        p.big = big
    elif act == "badvec":
        n = vol(m.d)
        p.add(op=r.choice(["vec", "setent"]), k=k, v=p.values(m.t, n + r.choice([1, 2])))


# ------------------------------------------------------------------------------------------------
# C06 products, transpose, rotation
# ------------------------------------------------------------------------------------------------
def c06(seed, thorough):
    cases = []
    r0 = rng_for(seed, "C06")
    tys = [("dbl", "dbl"), ("int", "int"), ("int", "dbl"), ("dbl", "int"), ("flt", "dbl"), ("flt", "flt")]
    # a fixed menu of operand categories keeps the number of compiled shapes small
    combos = []
    for ty in tys:
        for _ in range(8 if thorough else (5 if ty == ("dbl", "dbl") else 2)):
            combos.append((ty, r0.choice(CATS + ["e"]), r0.choice(CATS + ["e", "tr"])))
    combos.append((("dbl", "dbl"), "t", "t"))
    combos.append((("dbl", "dbl"), "e", "e"))
    dims = [(1, 1, 1, 1), (2, 3, 4, 1), (3, 1, 3, 2), (1, 5, 1, 1), (4, 4, 4, 3), (2, 7, 1, 2), (5, 2, 6, 1), (3, 3, 3, 1), (1, 9, 8, 1), (3, 0, 2, 1), (12, 5, 9, 1), (2, 2, 2, 5)]
    n = 0
    for ty, ca, cb in combos:
        for di in range(len(dims) if thorough else 5):
            n += 1
            r = rng_for(seed, "C06", n)
            rs = rng_for(seed, "C06s-%s" % (str((ty, ca, cb))), 0)
            X, Y, Z, L = r.choice(dims)
            S = r.choice([1, 1, 64])
            big = S == 1 and r.random() < .5 and "flt" not in ty
            p = Prog(r, [ty[0], ty[1]], 0, S)
            fillbig(p, 0, (X, Y, L), big)
            fillbig(p, 1, (Y, Z, L) if cb != "tr" else (Z, Y, L), big)
            try:
                A = operand(p, rs, ca, 0, p.m[0].d)
                B = operand(p, rs, cb, 1, p.m[1].d) if cb != "tr" else trn(operand(p, rs, rs.choice(CATS), 1, p.m[1].d))
                lim(p, A, B, Y)
            except Reject:
                continue
            p.add(op="eval", a={"n": "mm", "a": A[0], "b": B[0]}, how=["call", "mat", "iter", "xyz"][n % 2])
            cases.append(p.ops)
    # inadmissible products
    for i in range(16 if thorough else 8):
        r = rng_for(seed, "C06bad", i)
        p = Prog(r, ["dbl", "dbl"], 0, 1)
        X, Y, Z, L = [r.randint(1, 4) for _ in range(4)]
        p.fill(0, (X, Y, L))
        p.fill(1, r.choice([(Y + 1, Z, L), (Y, Z, L + 1), (Y + 1, Y, L), (max(Y - 1, 0), Z, L)]))
        p.add(op="eval", a={"n": "mm", "a": p.leaf(0, "m")[0], "b": p.leaf(1, ["m", "t"][i % 2])[0]}, how="call")
        cases.append(p.ops)
    # dot
    n = 0
    for ty in tys + [("dbl", "dbl")]:
        for ca, cb in [("m", "m"), ("v", "c"), ("e", "t")] + ([("cv", "v"), ("t", "e")] if thorough else []):
            for rep in range(6 if thorough else 4):
                n += 1
                r = rng_for(seed, "C06dot", n)
                rs = rng_for(seed, "C06dots" + str((ty, ca, cb)), 0)
                S = r.choice([1, 64])
                p = Prog(r, [ty[0], ty[1]], 0, S)
                ln = r.choice([1, 2, 3, 5, 8, 17, 40])
                d1 = (ln, 1, 1) if r.random() < .5 else (1, ln, 1)
                d2 = (ln, 1, 1) if r.random() < .5 else (1, ln, 1)
                bad = rep == 3
                if bad:
                    d2 = r.choice([(ln + 1, 1, 1), (1, ln, 2), (1, 1, ln) if ln > 1 else (2, 1, 1), (2, 2, 1) if ln != 4 else (2, 2, 2)])
                    if r.random() < .3:
                        d1, d2 = (2, 2, 1), (2, 2, 1)
                    if r.random() < .3:
                        d1, d2 = d2, d1
                big = S == 1 and r.random() < .4 and "flt" not in ty
                fillbig(p, 0, d1, big)
                fillbig(p, 1, d2, big)
                try:
                    A = operand(p, rs, ca, 0, d1)
                    B = operand(p, rs, cb, 1, d2)
                    lim(p, A, B, max(vol(d1), vol(d2)))
                except Reject:
                    continue
                p.add(op="dot", a=A[0], b=B[0])
                cases.append(p.ops)
    # transpose and rotation
    n = 0
    dims = [(1, 1, 1), (2, 2, 1), (3, 3, 2), (1, 4, 2), (4, 1, 1), (2, 5, 3), (5, 3, 1), (4, 4, 1), (0, 3, 1), (7, 7, 2), (9, 4, 2), (3, 3, 5)]
    for t in ("dbl", "int", "flt", "u8"):
        for cat in CATS + (["e"] if t != "u8" else []):
            forms = ["tr", "r1", "r2", "r3", "trtr", "r1r3", "r1r1", "rtr"]
            if t != "dbl":
                forms = r0.sample(forms, 3)
            for form in forms:
                for rep in range(4 if thorough else 2):
                    n += 1
                    r = rng_for(seed, "C06t", n)
                    rs = rng_for(seed, "C06ts" + str((t, cat, form)), 0)
                    p = Prog(r, [t, t], 0, 1)
                    d = r.choice(dims)
                    if "r1" in form or "r3" in form:
                        if r.random() < .8:
                            d = (d[0], d[0], d[2])
                    p.fill(0, d, "distinct")
                    try:
                        A = operand(p, rs, cat, 0, d)
                    except Reject:
                        continue
                    a = A[0]
                    if form == "tr": a = {"n": "tr", "a": a}
                    elif form == "trtr": a = {"n": "tr", "a": {"n": "tr", "a": a}}
                    elif form == "r1r3": a = {"n": "rot", "c": 1, "a": {"n": "rot", "c": 3, "a": a}}
                    elif form == "r1r1": a = {"n": "rot", "c": 1, "a": {"n": "rot", "c": 1, "a": a}}
                    elif form == "rtr": a = {"n": "rot", "c": 2, "a": {"n": "tr", "a": a}}
                    else: a = {"n": "rot", "c": int(form[1]), "a": a}
                    p.add(op="eval", a=a, how=["call", "mat", "iter"][(len(form) + RANK[t]) % 3])
                    # reshape-free assignment back into the operand
                    if cat == "m" and t != "u8":
                        p.add(op="assign", k=0, ty=t, how="asg", a=a)
                    cases.append(p.ops)
    return cases


def trn(A):
    return ({"n": "tr", "a": A[0]}, A[1], (A[2][1], A[2][0], A[2][2]), A[3], A[4])


def fillbig(p, k, d, big):
    """Values whose products need more than 24 bits, if big."""
    m = p.m[k]
    if not big:
        p.fill(k, d)
        return
    vals = [p.r.choice([-1, 1]) * (4097 + 2 * p.r.randint(0, 200)) for _ in range(vol(d))]
    p.add(op="ctorv", k=k, d=list(d), v=vals)
    m.d = tuple(d)
    m.mag, m.fb = p.bounds(vals)


def lim(p, A, B, n):
    if max(n, 1) * (A[3] * p.S) * (B[3] * p.S) >= (1 << 30) or A[4] + B[4] > p.fbmax:
        raise Reject()
    t = common(A[1], B[1])
    if t == "flt" and n * A[3] * B[3] * (1 << (A[4] + B[4])) >= (1 << 24):
        raise Reject()


# ------------------------------------------------------------------------------------------------
# C07 reductions
# ------------------------------------------------------------------------------------------------
def c07(seed, thorough):
    cases = []
    dims = [(1, 1, 1), (3, 3, 1), (2, 3, 2), (4, 1, 3), (1, 5, 1), (1, 1, 6), (3, 2, 4), (7, 7, 1), (12, 3, 2), (2, 2, 1), (1, 64, 1), (5, 1, 1)]
    combos = []
    for t in ("dbl", "int", "flt"):
        for cat in CATS + ["e"]:
            combos.append((t, cat))
    n = 0
    for t, cat in combos:
        for rep in range(24 if thorough else 7):
            n += 1
            r = rng_for(seed, "C07", n)
            rs = rng_for(seed, "C07s" + str((t, cat)), 0)
            S = 1 if rep % 2 else 64
            if t == "int" and rep % 4:
                S = 1
            p = Prog(r, [t, t], 0, S, big=False)
            E = r.choice([0, 0, 1, -1]) * {"dbl": 990, "flt": 85, "int": 0}[t] if cat != "e" else 0
            if E:                    # all numbers times 2^E
                p.ops[0]["E"] = E
            d = dims[(n * 5 + rep) % len(dims)] if rep < 5 else r.choice(dims)
            mode = r.choice(["few", "few", "neg", "pos", "distinct", "last", "first", "big", "zero"])
            cnt = vol(d)
            if mode == "few": vals = [r.randint(-1, 1) * S for _ in range(cnt)]
            elif mode == "neg": vals = [-r.randint(1, 4) * S for _ in range(cnt)]
            elif mode == "pos": vals = [r.randint(1, 4) * S for _ in range(cnt)]
            elif mode == "distinct":
                vals = [(i - cnt // 2) * S for i in range(cnt)]
                r.shuffle(vals)
            elif mode == "last": vals = [0] * (cnt - 1) + [r.choice([-1, 1]) * S]
            elif mode == "first": vals = [r.choice([-1, 1]) * S] + [0] * (cnt - 1)
            elif mode == "zero": vals = [0] * cnt
            elif t != "flt" and S == 1: vals = [r.choice([-1, 1]) * ((1 << 24) + 2 * r.randint(0, 50) + 1) if i < 16 else r.randint(-2, 2) for i in range(cnt)]
            else: vals = [r.randint(-30, 30) * (S // 4 if t != "int" and S > 1 else S) for _ in range(cnt)]
            if t == "int":
                vals = [(abs(v) // S) * S * (1 if v >= 0 else -1) for v in vals]
            p.add(op="ctor", k=0, d=list(d), x=0, q=1)
            p.add(op="vec", k=0, v=vals)
            p.m[0].d = d
            p.m[0].mag, p.m[0].fb = p.bounds(vals)
            p.add(op="ctor", k=1, d=list(d), x=0, q=1)
            p.add(op="vec", k=1, v=vals)
            p.m[1].d = d
            p.m[1].mag, p.m[1].fb = p.m[0].mag, p.m[0].fb
            try:
                A = operand(p, rs, cat, 0, d)
            except Reject:
                continue
            if cnt * A[3] * S >= LIM or (t == "flt" and cnt * A[3] * (1 << A[4]) >= 1 << 24):
                continue
            for f in ("sum", "max", "min", "maxIdx", "minIdx"):
                p.add(op="reduce", f=f, a=A[0])
            if cat in ("m", "c"):
                p.add(op="reduce", f="maxPos", a=A[0])
                p.add(op="reduce", f="minPos", a=A[0])
            if A[1] == "int":
                p.add(op="reduce", f="mean", a=A[0])
            else:
                p.add(op="meanr", a=A[0])
            if cnt * (A[3] * S) ** 2 < (1 << 29) and not E:
                # the sum of squares of an int matrix is an int, of a float matrix a float
                if A[1] != "int" or S == 1:
                    p.add(op="norm", a=A[0])
            # equality, exact and with tolerance, against a copy with one element changed
            lf = {"n": rs.choice(["m", "c"]), "k": 1, "ty": t}
            same_dim = True
            if cat != "e":
                p.add(op="equal", a=A[0], b=lf, how="exact", eps=0)
                i = r.choice([0, cnt - 1, r.randrange(cnt)])
                dl = r.choice([1, -1]) * S
                x = vals[i] + dl
                idx = [i % d[0], (i // d[0]) % d[1], i // (d[0] * d[1])]
                p.add(op="put", k=1, i=idx, x=x, how="tri", q=1)
                p.add(op="equal", a=A[0], b=lf, how="exact", eps=0)
                if t != "u8":
                    p.add(op="equal", a=A[0], b=lf, how="eps", eps=S)
                    p.add(op="equal", a=A[0], b=lf, how="eps", eps=S // 2)
                    p.add(op="equal", a=lf, b=A[0], how="eps", eps=2 * S)
                if cnt > 1 and r.random() < .7:
                    p.add(op="put", k=1, i=idx, x=vals[i], how="tri", q=1)
                    dd = [d[1], d[0], d[2]] if d[0] != d[1] else [cnt, 1, 1]
                    if tuple(dd) != tuple(d):
                        p.add(op="reshape", k=1, d=dd, how=0, q=1)
                        p.add(op="equal", a=A[0], b=lf, how="exact", eps=0)
                        p.add(op="equal", a=A[0], b=lf, how="eps", eps=S)
                # a matrix that lacks or has one layer more
                p.add(op="resize", k=1, d=[d[0], d[1], d[2] + 1], how=0, q=1)
                p.add(op="equal", a=A[0], b=lf, how="exact", eps=0)
                p.add(op="equal", a=lf, b=A[0], how="exact", eps=0)
            cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
# C29 printing
# ------------------------------------------------------------------------------------------------
def c29(seed, thorough):
    cases = []
    dims = [(1, 1, 1), (2, 3, 1), (3, 2, 2), (1, 4, 3), (4, 1, 1), (5, 5, 1), (2, 2, 5), (1, 1, 4), (0, 3, 2), (8, 3, 2), (3, 12, 1)]
    n = 0
    for t in ("int", "dbl", "flt", "u8"):
        for cat in CATS + ["e"]:
            if cat == "e" and t == "u8":
                continue
            for rep in range(20 if thorough else 5):
                n += 1
                r = rng_for(seed, "C29", n)
                rs = rng_for(seed, "C29s" + str((t, cat)), 0)
                S = 1 if t in ("int", "u8") else r.choice([1, 4, 8, 64])
                p = Prog(r, [t, t], 0, S)
                d = dims[(n + rep) % len(dims)]
                if t == "u8":
                    vals = [r.choice([0, 7, 65, 127, 128, 200, 255, r.randint(0, 255)]) for _ in range(vol(d))]
                elif t == "int":
                    vals = [r.choice([0, -1, r.randint(-9, 9), r.randint(-999, 999), r.randint(-99999, 99999), -1000, 9999]) for _ in range(vol(d))]
                    if cat != "e" and rep % 5 == 4:
                        # the limits of the type
                        vals = [r.choice([-2147483648, 2147483647, -2147483647, v, v]) for v in vals]
                else:
                    vals = [r.choice([0, 1, -1, S // 2, -S, r.randint(-3 * S, 3 * S), r.randint(-1000 * S, 1000 * S), 99 * S + S - 1, 12345 * S, -9999 * S]) for _ in range(vol(d))]
                for k in (0, 1):
                    p.add(op="ctor", k=k, d=list(d), x=0, q=1)
                    p.add(op="vec", k=k, v=vals)
                    p.m[k].d = d
                    p.m[k].mag, p.m[k].fb = p.bounds([v for v in vals if abs(v) < 2147483647])
                try:
                    A = operand(p, rs, cat, 0, d)
                except Reject:
                    continue
                for to in ("str", "cout"):
                    for fmt in ("default", r.choice(["fixed", "sci"])):
                        p.add(op="print", a=A[0], to=to, fmt=fmt)
                cases.append(p.ops)
    # matrices of other whole number types
    for ty, lo, hi in (("i16", -32768, 32767), ("u16", 0, 65535), ("i8", -128, 127), ("u32", 0, 2147483647), ("i64", -2147483648, 2147483647), ("u64", 0, 2147483647)):
        for rep in range(6 if thorough else 2):
            n += 1
            r = rng_for(seed, "C29w", n)
            p = Prog(r, ["int"], 0, 1)
            d = dims[r.randrange(len(dims))]
            p.add(op="ctor", k=0, d=list(d), x=0, q=1)
            p.add(op="vec", k=0, v=[r.choice([lo, hi, 0, r.randint(max(lo, -99), 99), r.randint(max(lo, -999999), min(hi, 999999))]) for _ in range(vol(d))])
            p.m[0].d = d
            p.add(op="print", a={"n": "m", "k": 0, "ty": "int"}, to=r.choice(["str", "cout"]), fmt=r.choice(["default", "fixed", "sci"]), **{"as": ty})
            cases.append(p.ops)
    for d in [(40, 30, 2), (1, 300, 1), (300, 1, 1), (2, 3, 120)][:4 if thorough else 3]:
        r = rng_for(seed, "C29xl", d)
        t = r.choice(["dbl", "int", "u8"])
        p = Prog(r, [t], 0, 1)
        p.add(op="ctorv", k=0, d=list(d), v=[r.choice([0, 7, r.randint(0, 9), r.randint(0, 200)]) for _ in range(vol(d))], q=1)
        p.m[0].d = d
        p.add(op="print", a={"n": "m", "k": 0, "ty": t}, to="str", fmt="default", q=1)
        cases.append(p.ops)
    for d in [(28, 28, 1), (24, 50, 3)]:
        r = rng_for(seed, "C29xi", d)
        p = Prog(r, ["u8"], 0, 1)
        p.add(op="ctorv", k=0, d=list(d), v=[r.randint(0, 255) for _ in range(vol(d))], q=1)
        p.m[0].d = d
        p.add(op="image", a={"n": "m", "k": 0, "ty": "u8"}, q=1)
        cases.append(p.ops)
    # images
    for t in ("u8", "int", "flt", "dbl"):
        for z in (1, 3, 2):
            for rep in range(16 if thorough else 8):
                n += 1
                r = rng_for(seed, "C29i", n)
                S = 1 if t in ("int", "u8") else 64
                p = Prog(r, [t], 0, S)
                d = (r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 4, 7]), z)
                if t in ("int", "u8"):
                    vals = [r.choice([0, 255, 128, 1, 254, r.randint(0, 255)]) for _ in range(vol(d))]
                    vals[r.randrange(vol(d))] = r.randint(0, 100)
                else:
                    lo, hi = r.choice([(-32, 32), (-32, 32), (0, 64), (0, 640), (-100, -3)])
                    if z == 3:
                        lo, hi = 0, max(hi, 20)
                    vals = [r.randint(lo, hi) for _ in range(vol(d))]
                if rep % 4 == 3:
                    # all elements the same: the brightest there is, black, or between
                    every = r.choice([255, 255, 0, 9] if t in ("int", "u8") else [S, 3 * S, 70, 0, 12] + ([-5] if z != 3 else []))
                    vals = [every] * vol(d)
                p.add(op="ctor", k=0, d=list(d), x=0, q=1)
                p.add(op="vec", k=0, v=vals)
                p.m[0].d = d
                p.add(op="image", a={"n": r.choice("mc"), "k": 0, "ty": t})
                if z == 1:
                    p.add(op="image", a={"n": "v", "k": 0, "ty": t, "p": [{"n": "slice", "i": 0}]})
                cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
# Thousands of elements: nothing changes with the size
# ------------------------------------------------------------------------------------------------
def xl(pid, seed, thorough):
    shapes = [(70, 70, 1), (37, 43, 3), (1, 1, 4500), (4500, 1, 1), (1, 4500, 1), (129, 5, 7), (3, 257, 5), (2, 2, 1100), (66, 33, 2)]
    cases = []
    for i in range(len(shapes) if thorough else 4):
        r = rng_for(seed, pid + "xl", i)
        d = shapes[i] if thorough else shapes[(i * 2 + r.randint(0, 1)) % len(shapes)] if i else (70, 70, 1)
        t = ("dbl", "int", "dbl", "flt")[i % 4]
        p = Prog(r, [t, t, "int" if t == "dbl" else "dbl"], 2 if pid == "C02" else 0, 1)
        n = vol(d)

        def fill(k, d=d, lim=9, q=1):
            v = [r.randint(-lim, lim) for _ in range(vol(d))]
            p.add(op="ctorv", k=k, d=list(d), v=v, **({"q": 1} if q else {}))
            p.m[k].d = tuple(d)
            return v

        def part():
            s = [r.randint(0, x // 3) for x in d]
            e = [max(1, d[j] - s[j] - r.randint(0, d[j] // 4)) for j in range(3)]
            return s, e
        leaf = lambda k, c="m": {"n": c, "k": k, "ty": p.m[k].t}
        view = lambda k, s, e, c="v": {"n": c, "k": k, "ty": p.m[k].t, "p": [{"n": "sub", "s": s, "d": e}]}
        vals = fill(0, lim=9 if pid != "C01" else 4000)
        if pid == "C01":
            for h in r.sample(["flat", "xyz", "tri", "iter", "range", "mat", "iterm"], 4):
                p.add(op="read", k=0, how=h, q=1)
            p.add(op="idxmap", k=0, how=r.choice(["xyz", "tri", "dim"]), q=1)
            p.add(op="iter", a={"n": "m", "k": 0, "ty": t}, post=i % 2, cst=r.randint(0, 1), q=1)
            for h in ("xyz", "tri", "flat", "it"):
                p.add(op="put", k=0, i=[r.randrange(x) if r.random() < .5 else x - 1 for x in d], x=r.randint(-99, 99), how=h, q=1)
            p.add(op=r.choice(["setent", "vec"]), k=0, v=[r.randint(-99, 99) for _ in range(n)])
            p.add(op="setent", k=0, v=[1] * (n + 1))
        elif pid == "C02":
            fill(1)
            fill(2)
            s, e = part()
            p.add(op="view", w=0, k=0, p=[{"n": "sub", "s": s, "d": e}], q=1)
            s2 = [r.randint(0, x // 4) for x in e]
            e2 = [e[j] - s2[j] for j in range(3)]
            p.add(op="subview", w=1, w0=0, p=[{"n": "sub", "s": s2, "d": e2}], q=1)
            w1 = {"n": "w", "w": 1, "ty": t}
            p.add(op="eval", a=w1, how=r.choice(["call", "iter", "mat"]), q=1)
            p.add(op="vassign", w=1, ty=t, a=view(1, [0, 0, 0], e2, "cv"))
            p.add(op="vassign", w=1, ty=t, a=view(0, [0, 0, 0], e2))
            p.add(op="vfill", w=1, x=r.randint(1, 9), st="int")
            p.add(op="vput", w=0, i=[x - 1 for x in e], x=77, how=r.choice(["at", "xyz", "tri"]))
            p.add(op="ipm", tg={"n": "w", "w": 0, "ty": t}, o="+", a=view(1, s, e))
            p.add(op="vat", w=0, i=[e[0], 0, 0], how="at", q=1)
            p.add(op="assign", k=2, ty=p.m[2].t, how="asg", a=view(0, s, e, "cv"))
        elif pid == "C03":
            fill(1)
            fill(2)
            for op in r.sample(["+", "-", "*", "<", ">=", "==", "!="], 4):
                p.add(op="eval", a={"n": "bin", "op": op, "a": leaf(0), "b": leaf(r.choice([0, 1, 2]), r.choice("mct"))}, how=r.choice(["call", "iter", "mat", "xyz"]), q=1)
            s, e = part()
            p.add(op="eval", a={"n": "bin", "op": "-", "a": view(0, s, e), "b": {"n": "sr", "op": "*", "st": "int", "x": 3, "a": view(1, s, e, "cv")}}, how="mat", q=1)
            p.add(op="eval", a={"n": "sl", "op": "-", "st": "int", "x": 5, "a": {"n": "apply", "f": "neg", "a": leaf(0)}}, how="iter", q=1)
            p.add(op="assign", k=2, ty=p.m[2].t, how="asg", a={"n": "bin", "op": "+", "a": leaf(0), "b": leaf(1)})
        elif pid == "C04":
            fill(1)
            fill(2)
            tg = {"n": "m", "k": 0, "ty": t}
            for o in ("+", "-", "*"):
                p.add(op="ipm", tg=tg, o=o, a=leaf(r.choice([1, 1, 0]) if o != "*" else 1, r.choice("mct")))
            p.add(op="ips", tg=tg, o="-", st="int", x=r.randint(1, 9))
            p.add(op="ipe", tg=tg, o="+", k=0, ty=t, i=[r.randrange(x) for x in d])
            p.add(op="modify", tg=tg, f="neg")
            p.add(op="ipm", tg=tg, o="-", a={"n": "rot", "c": 2, "a": leaf(0)})
            bad = list(d)
            bad[0], bad[1] = (d[1], d[0]) if d[0] != d[1] else (d[0] - 1, d[1])
            fill(1, tuple(bad), q=0)
            p.add(op="ipm", tg=tg, o="+", a=leaf(1))
        elif pid == "C05":
            fill(1, (3, 2, 1))
            p.add(op="assign", k=1, ty=t, how="asg", a=leaf(0))
            p.add(op="put", k=1, i=[x - 1 for x in d], x=55, how="tri")
            p.add(op="assign", k=2, ty=p.m[2].t, how=r.choice(["asg", "ctor"]), a=leaf(0))
            p.add(op="move", k=1, j=0, how=r.choice(["asg", "ctor"])) if i % 2 else p.add(op="assign", k=0, ty=t, how="asg", a={"n": "rot", "c": 2, "a": leaf(0)})
            p.add(op="reshape", k=1, d=[d[2], d[0], d[1]], how=0)
            p.add(op="reshape", k=1, d=[n, 1, 1], how=1)
            p.add(op="reshape", k=1, d=[n - 1, 1, 1], how=1)
            p.add(op="resize", k=1, d=[n + 3000, 1, 1], how=0)
            p.add(op="assign", k=1, ty=t, how="asg", a=leaf(2))
        elif pid == "C06":
            if i < 4:
                X, Y, Z = [(40, 33, 30), (5, 400, 5), (130, 3, 70), (17, 65, 19)][i]
                fill(0, (X, Y, 1))
                fill(1, (Y, Z, 1))
                p.add(op="eval", a={"n": "mm", "a": leaf(0), "b": leaf(1, r.choice("mct"))}, how=["call", "mat", "iter", "xyz"][i], q=1)
                fill(1, (Z, Y, 1))
                p.add(op="eval", a={"n": "mm", "a": leaf(0, "c"), "b": {"n": "tr", "a": leaf(1)}}, how="mat", q=1)
            fill(0)
            p.add(op="eval", a={"n": "tr", "a": leaf(0)}, how=r.choice(["mat", "iter", "call"]), q=1)
            for c in (1, 2, 3) if d[0] == d[1] else (2,):
                p.add(op="eval", a={"n": "rot", "c": c, "a": leaf(0)}, how=r.choice(["mat", "iter", "call"]), q=1)
            fill(0, (n, 1, 1))
            fill(1, (1, n, 1) if i % 2 else (n, 1, 1))
            p.add(op="dot", a=leaf(0), b=leaf(1))
        elif pid == "C07":
            for mode in ("any", "ties", "neg", "late"):
                v = [r.randint(-500, 500) if mode == "any" else r.randint(-1, 1) if mode == "ties" else -r.randint(1, 500) for _ in range(n)]
                if mode == "late":
                    v = [0] * n
                    v[n - 1 - r.randint(0, 9)], v[n // 2 + r.randint(0, 9)] = 700, -700
                p.add(op="vec", k=0, v=v, q=1)
                s, e = part()
                for a in (leaf(0), view(0, s, e)):
                    for f in ("sum", "max", "min", "maxIdx", "minIdx"):
                        p.add(op="reduce", f=f, a=a, q=1)
                for f in ("maxPos", "minPos"):
                    p.add(op="reduce", f=f, a=leaf(0), q=1)
                if t == "int":
                    p.add(op="reduce", f="mean", a=leaf(0), q=1)
                else:
                    p.add(op="meanr", a=leaf(0), q=1)
                if mode == "ties":
                    p.add(op="norm", a=leaf(0), q=1)
            p.add(op="assign", k=1, ty=t, how="asg", a=leaf(0), q=1)
            p.add(op="equal", a=leaf(0), b=leaf(1), how="exact", eps=0)
            p.add(op="put", k=1, i=[x - 1 for x in d], x=1, how="tri", q=1)
            p.add(op="equal", a=leaf(0), b=leaf(1), how="exact", eps=0)
            p.add(op="equal", a=leaf(0), b=leaf(1), how="eps", eps=1)
        cases.append(p.ops)
    return cases


PROPS = {"C29": c29, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07}
XL = ("C01", "C02", "C03", "C04", "C05", "C06", "C07")


# ------------------------------------------------------------------------------------------------
# The stand-alone convolve function (part of C08)
# ------------------------------------------------------------------------------------------------
def convolve(seed, thorough):
    cases = []
    r0 = rng_for(seed, "conv")
    tys = [("dbl", "dbl"), ("int", "int"), ("int", "dbl"), ("dbl", "int"), ("flt", "dbl"), ("flt", "flt")]
    combos = [(("dbl", "dbl"), "m", "m"), (("dbl", "dbl"), "t", "t"), (("dbl", "dbl"), "v", "cv"), (("dbl", "dbl"), "e", "tr"), (("dbl", "dbl"), "c", "rot")]
    for ty in tys[1:]:
        for _ in range(4 if thorough else 1):
            combos.append((ty, r0.choice(CATS + ["e"]), r0.choice(CATS + ["e"])))
    n = 0
    for ty, ca, cb in combos:
        for rep in range(30 if thorough else 8):
            n += 1
            r = rng_for(seed, "convc", n)
            rs = rng_for(seed, "convs-%s" % (str((ty, ca, cb))), 0)
            w = (r.randint(1, 4), r.randint(1, 4), 1)
            x = (w[0] + r.randint(0, 5), w[1] + r.randint(0, 5), 1)
            if rep % 8 == 7:
                x = (w[0] - 1, w[1] + 2, 1) if r.random() < .5 else (w[0] + 2, w[1] - 1, 1)
            S = r.choice([1, 1, 64])
            big = S == 1 and r.random() < .5 and "flt" not in ty
            p = Prog(r, [ty[0], ty[1]], 0, S)
            fillbig(p, 0, x, big)
            fillbig(p, 1, w if cb != "tr" else (w[1], w[0], 1), big)
            try:
                A = operand(p, rs, ca, 0, p.m[0].d)
                if cb == "tr":
                    B = trn(operand(p, rs, "m", 1, p.m[1].d))
                elif cb == "rot":
                    B = operand(p, rs, "m", 1, p.m[1].d)
                    B = ({"n": "rot", "c": 2, "a": B[0]},) + tuple(B[1:])
                else:
                    B = operand(p, rs, cb, 1, p.m[1].d)
                lim(p, A, B, vol(w))
            except Reject:
                continue
            p.add(op="eval", a={"n": "conv", "a": A[0], "b": B[0], "s": [r.randint(1, 3), r.randint(1, 3)]}, how=["call", "mat"][n % 2])
            cases.append(p.ops)
    return cases
