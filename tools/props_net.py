"""Programs over layers and models (C08-C18, C22), run by harness/net_main.cpp and judged by
spec/TraceNetwork.tla."""
import random


def rng_for(seed, *key):
    return random.Random("%s|%s" % (seed, "|".join(map(str, key))))


def vol(d):
    return d[0] * d[1] * d[2]


def matrix(r, d, lim, unit=1, style="any"):
    """Random matrix of multiples of unit, at most lim in magnitude."""
    m = max(1, lim // unit)
    n = vol(d)
    if style == "ties":
        v = [r.randint(-1, 1) * unit for _ in range(n)]
    elif style == "neg":
        v = [-r.randint(1, m) * unit for _ in range(n)]
    elif style == "pos":
        v = [r.randint(1, m) * unit for _ in range(n)]
    elif style == "onehot":
        v = [0] * n
        if n:
            v[r.randrange(n)] = r.randint(1, m) * unit
    elif style == "ramp":
        v = [(i + 1) * unit for i in range(n)]
    elif style == "odd":
        v = [(r.randint(m // 2, m) | 1) * unit * r.choice([1, -1]) for _ in range(n)]
    else:
        v = [r.randint(-m, m) * unit for _ in range(n)]
    return {"d": list(d), "v": v}


class Prog:
    def __init__(self, r, S=1, rn=0, E=0):
        self.r, self.S = r, S
        self.ops = [{"op": "reset", "S": S, "rn": rn}]
        if E:
            self.ops[0]["E"] = E
        self.n = 0

    def add(self, **kw):
        self.ops.append(kw)

    def new(self, **c):
        self.ops.append({"op": "new", "c": c})
        self.n += 1
        return self.n - 1


def kout(fd, n, s, d):
    return ((d[0] - fd[0]) // s + 1, (d[1] - fd[1]) // s + 1, n)


def pout(pd, ps, d):
    return ((d[0] - pd[0]) // ps[0] + 1, (d[1] - pd[1]) // ps[1] + 1, d[2])


def kshapes(seed, count, cost):
    """Filter shape, filter count, stride, input shape. The first ones are fixed corner cases."""
    fixed = [((1, 1, 1), 1, 1, (1, 1, 1)), ((2, 3, 2), 2, 1, (4, 5, 2)), ((3, 2, 1), 3, 2, (7, 6, 1)),
             ((2, 2, 3), 2, 3, (8, 5, 3)), ((3, 3, 2), 2, 1, (3, 3, 2)), ((1, 4, 2), 2, 1, (5, 6, 2)),
             ((4, 1, 1), 2, 2, (9, 3, 1)), ((2, 2, 1), 1, 4, (9, 10, 1)), ((1, 1, 3), 3, 2, (5, 4, 3)),
             ((3, 3, 1), 2, 3, (8, 8, 1)), ((2, 3, 1), 1, 5, (3, 4, 1)), ((5, 5, 1), 2, 1, (7, 6, 1)),
             ((2, 1, 2), 4, 2, (6, 5, 2)), ((3, 1, 2), 1, 1, (6, 2, 2)), ((2, 2, 2), 3, 2, (5, 7, 2))]
    out = fixed[:count]
    i = 0
    while len(out) < count:
        i += 1
        r = rng_for(seed, "ks", i)
        fd = (r.randint(1, 4), r.randint(1, 4), r.randint(1, 3))
        n, s = r.randint(1, 3), r.choice([1, 1, 2, 3, 4])
        d = (fd[0] + r.randint(0, 6), fd[1] + r.randint(0, 6), fd[2])
        o = kout(fd, n, s, d)
        if vol(o) * vol(fd) <= cost:
            out.append((fd, n, s, d))
    return out


def scales(r, n):
    """Scale and value limits/units so that products stay exact and sums of n of them fit."""
    k = r.choice(["small", "frac", "big"])
    if k == "big" and n <= 36:
        return 1, 5000, 5000, 1, "odd"          # products beyond 2^24, odd: single precision would show
    if k == "frac":
        return 16, 400, 400, 4, "any"
    return 1, 60, 60, 1, "any"


# ------------------------------------------------------------------------------------------------
def c08(seed, thorough):
    cases = []
    shapes = kshapes(seed, 400 if thorough else 90, 900)
    for i, (fd, n, s, d) in enumerate(shapes):
        r = rng_for(seed, "C08", i)
        S, lx, lw, u, st = scales(r, vol(fd))
        p = Prog(r, S)
        # two layers, used in turns: nothing is shared between them
        o = p.new(k="kernel", fd=list(fd), n=n, s=s)
        how = "dset" if S == 16 and i % 3 == 0 or i % 7 == 0 else "set"
        p.add(op=how, o=o, w=matrix(r, (fd[0], fd[1], fd[2] * n), lw, u, st), b=matrix(r, (n, 1, 1), 1000))
        other = None
        if i % 3 == 0:
            fd2 = (max(1, fd[0] - 1), fd[1], fd[2])
            other = p.new(k="kernel", fd=list(fd2), n=n, s=1)
            p.add(op="set", o=other, w=matrix(r, (fd2[0], fd2[1], fd2[2] * n), lw, u, st), b=matrix(r, (n, 1, 1), 1000))
        x = matrix(r, d, lx, u, st)
        p.add(op="fits", o=o, x=x)
        p.add(op="outdim", o=o, d=list(d))
        p.add(op="fwd", o=o, x=x, slot=0)
        if other is not None:
            p.add(op="fwd", o=other, x=x, slot=0)
        # other inputs of other shapes, then the first again
        d2 = (fd[0] + r.randint(0, 4), fd[1] + r.randint(0, 4), fd[2])
        p.add(op="outdim", o=o, d=list(d2))
        p.add(op="fwd", o=o, x=matrix(r, d2, lx, u, r.choice([st, "onehot"])), slot=r.randint(0, 3))
        p.add(op="fwd", o=o, x=x, slot=r.randint(0, 3))
        if i % 4 == 0:
            p.add(op="setb", o=o, n=3)
            g = matrix(r, kout(fd, n, s, d), 40, 16 if S == 16 else 1)
            p.add(op="bwd", o=o, x=matrix(r, d, 60, u), y=g, g=g, slot=1, first=0)
            p.add(op="fwd", o=o, x=x, slot=1)
        cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
def c09(seed, thorough):
    cases = []
    shapes = kshapes(seed + 1 if thorough else seed, 300 if thorough else 64, 500)
    for i, (fd, n, s, d) in enumerate(shapes):
        r = rng_for(seed, "C09", i)
        o_d = kout(fd, n, s, d)
        big = max(vol(fd), o_d[0] * o_d[1], n * vol(fd)) <= 36 and r.random() < .3
        S, lim, u, st = (1, 5000, 1, "odd") if big else r.choice([(16, 320, 4, "any"), (1, 60, 1, "any")])
        p = Prog(r, S)
        o = p.new(k="kernel", fd=list(fd), n=n, s=s)
        how = "dset" if S == 16 and i % 3 == 0 else "set"
        p.add(op=how, o=o, w=matrix(r, (fd[0], fd[1], fd[2] * n), lim, u, st), b=matrix(r, (n, 1, 1), 1000))
        x = matrix(r, d, lim, u, st)
        g = matrix(r, o_d, lim, u, r.choice([st, st, "onehot"]))
        if i % 2 == 0:
            p.add(op="gw", o=o, x=x, g=g)
            p.add(op="gx", o=o, x=x, g=g)
            p.add(op="gb", o=o, g=g)
        p.add(op="setb", o=o, n=2)
        if i % 3 == 0:
            p.add(op="fwd", o=o, x=x, slot=0)
        p.add(op="bwd", o=o, x=x, y=g, g=g, slot=r.randint(0, 1), first=0)
        # the stored gradients show in the parameters (exactly: one slot, rate one)
        lim_ok = not big
        if lim_ok:
            p.add(op="apply", o=o, r_=S)
        if i % 5 == 0:
            p.add(op="bwd", o=o, x=x, y=g, g=g, slot=0, first=1)
        cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
def pshapes(seed, count):
    fixed = [((2, 2), (2, 2), (5, 5, 1)), ((3, 2), (2, 1), (6, 5, 2)), ((1, 1), (1, 1), (3, 4, 2)), ((2, 2), (3, 3), (7, 8, 1)),
             ((2, 3), (3, 2), (7, 8, 2)), ((4, 4), (4, 4), (4, 4, 2)), ((1, 3), (1, 2), (2, 8, 1)), ((3, 1), (4, 2), (10, 4, 1)),
             ((2, 2), (1, 1), (4, 3, 3)), ((3, 3), (1, 2), (5, 6, 1)), ((2, 4), (5, 1), (8, 6, 1)), ((5, 2), (2, 3), (8, 6, 2))]
    out = fixed[:count]
    i = 0
    while len(out) < count:
        i += 1
        r = rng_for(seed, "ps", i)
        pd = (r.randint(1, 4), r.randint(1, 4))
        ps = (r.randint(1, 5), r.randint(1, 5))
        d = (pd[0] + r.randint(0, 7), pd[1] + r.randint(0, 7), r.randint(1, 3))
        if vol(pout(pd, ps, d)) * pd[0] * pd[1] <= 400:
            out.append((pd, ps, d))
    return out


def pool_input(r, pt, pd, d, style=None):
    st = style or r.choice(["any", "ties", "neg", "pos", "ramp", "bigties"])
    if pt == "avg":
        a = pd[0] * pd[1]
        return matrix(r, d, r.choice([50, 4000]) * a, a, "any" if st in ("bigties", "ramp") else st)
    if st == "bigties":
        # neighbours beyond 2^24: equal in single precision, different in double
        return {"d": list(d), "v": [20000000 + r.randint(0, 3) for _ in range(vol(d))]}
    return matrix(r, d, 1000, 1, st)


def c10(seed, thorough):
    cases = []
    for i, (pd, ps, d) in enumerate(pshapes(seed, 300 if thorough else 80)):
        for pt in (("max", "min", "avg") if i < 12 or thorough else (("max", "min", "avg")[i % 3],)):
            r = rng_for(seed, "C10", i, pt)
            p = Prog(r, 1, E=r.choice([0, 0, 990, -990]))
            o = p.new(k="pool", f=pt, pd=list(pd), ps=list(ps))
            p.add(op="outdim", o=o, d=list(d))
            x = pool_input(r, pt, pd, d)
            p.add(op="fwd", o=o, x=x, slot=0)
            # rows and columns beyond the last window have no influence: change them
            o_d = pout(pd, ps, d)
            cov = ((o_d[0] - 1) * ps[0] + pd[0], (o_d[1] - 1) * ps[1] + pd[1])
            y = {"d": x["d"], "v": list(x["v"])}
            k = 0
            for z in range(d[2]):
                for c in range(d[1]):
                    for q in range(d[0]):
                        if q >= cov[0] or c >= cov[1]:
                            y["v"][k] = r.choice([-1, 1]) * 999999
                        k += 1
            if y["v"] != x["v"] and pt != "avg":
                p.add(op="fwd", o=o, x=y, slot=0)
            p.add(op="setb", o=o, n=4)
            for _ in range(2):
                d2 = (pd[0] + r.randint(0, 5), pd[1] + r.randint(0, 5), r.randint(1, 3))
                p.add(op="outdim", o=o, d=list(d2))
                p.add(op="fwd", o=o, x=pool_input(r, pt, pd, d2), slot=r.randint(0, 3))
            p.add(op="fwd", o=o, x=x, slot=r.randint(0, 3))
            if pt == "avg":
                p.add(op="avgf", o=o, x=matrix(r, d, 99 if pd[0] * pd[1] < 20 else 60), slot=1)
            if i % 4 == 0:
                g = matrix(r, o_d, 50, pd[0] * pd[1] if pt == "avg" else 1)
                p.add(op="fwd", o=o, x=x, slot=2)
                p.add(op="bwd", o=o, x=x, y=g, g=g, slot=2, first=0)
                p.add(op="fwd", o=o, x=x, slot=2)
            for _ in range(4):
                side = lambda: r.choice([r.randint(5, 60), r.randint(60, 5000), 2 ** 24 + r.randint(-3, 9), r.randint(2 ** 24, 2 ** 31 - 1), 2 ** 31 - 1])
                p.add(op="outdim", o=o, d=[side(), side(), r.randint(1, 9)])
            cases.append(p.ops)
    # long inputs and wide strides
    for i in range(60 if thorough else 16):
        r = rng_for(seed, "C10long", i)
        p = Prog(r, 1)
        pd, ps = [r.randint(1, 2), 1], [r.randint(1, 64), r.randint(1, 64)]
        d = [r.randint(40, 250), r.randint(1, 3), 1]
        if i % 2:
            pd, d = pd[::-1], d[1::-1] + [1]
        if d[0] < pd[0] or d[1] < pd[1]:
            continue
        pt = ("max", "min", "avg")[i % 3]
        o = p.new(k="pool", f=pt, pd=pd, ps=ps)
        p.add(op="fwd", o=o, x=pool_input(r, pt, pd, d, "any"), slot=0)
        for _ in range(30):
            p.add(op="outdim", o=o, d=[ps[j] * r.randint(1, 40) + pd[j] + r.choice([-1, -1, 0, -2]) if ps[j] > 2 else r.randint(5, 99) for j in (0, 1)] + [r.randint(1, 3)])
        cases.append(p.ops)
    return cases


def c11(seed, thorough):
    cases = []
    # single passes of all shapes
    for i, (pd, ps, d) in enumerate(pshapes(seed + 5, 200 if thorough else 48)):
        for pt in (("max", "min", "avg") if i < 12 or thorough else (("max", "min", "avg")[i % 3],)):
            r = rng_for(seed, "C11", i, pt)
            p = Prog(r, 1, E=r.choice([0, 0, 990, -990]))
            o = p.new(k="pool", f=pt, pd=list(pd), ps=list(ps))
            for st in ("ties", "any"):
                x = pool_input(r, pt, pd, d, st)
                a = pd[0] * pd[1] if pt == "avg" else 1
                g = matrix(r, pout(pd, ps, d), 50 * a, a)
                p.add(op="fwd", o=o, x=x, slot=0)
                p.add(op="bwd", o=o, x=x, y=g, g=g, slot=0, first=r.randint(0, 1) if pt == "none" else 0)
            if pt == "avg":
                p.add(op="avgb", o=o, x=x, g=matrix(r, pout(pd, ps, d), 40), slot=0)
            cases.append(p.ops)
    # histories over slots of two layers
    for h in range(150 if thorough else 40):
        r = rng_for(seed, "C11h", h)
        p = Prog(r, 1, E=r.choice([0, 0, 0, 990, -990]))
        cfg = []
        for _ in range(2):
            pt = r.choice(["max", "min", "max", "avg"])
            pd = (r.randint(1, 3), r.randint(1, 3))
            ps = (r.randint(1, 3), r.randint(1, 3))
            o = p.new(k="pool", f=pt, pd=list(pd), ps=list(ps))
            cfg.append((o, pt, pd, ps))
        slots = r.randint(1, 5)
        for o, *_ in cfg:
            p.add(op="setb", o=o, n=slots)
        last = {}
        dims = [(r.randint(3, 6), r.randint(3, 6), r.randint(1, 2)) for _ in range(2)]
        for _ in range(22):
            o, pt, pd, ps = r.choice(cfg)
            s = r.randrange(slots)
            if (o, s) not in last or r.random() < .5:
                d = r.choice(dims) if r.random() < .6 else (pd[0] + r.randint(0, 4), pd[1] + r.randint(0, 4), r.randint(1, 3))
                x = pool_input(r, pt, pd, d, r.choice(["any", "ties", "ties", "neg"]))
                p.add(op="fwd", o=o, x=x, slot=s)
                last[o, s] = x
            else:
                x = last[o, s]
                a = pd[0] * pd[1] if pt == "avg" else 1
                g = matrix(r, pout(pd, ps, x["d"]), 50 * a, a)
                p.add(op="bwd", o=o, x=x, y=g, g=g, slot=s, first=0)
            if r.random() < .05:
                slots = r.randint(1, 6)
                for o2, *_ in cfg:
                    p.add(op="setb", o=o2, n=slots)
                last = {}
        cases.append(p.ops)
    # many slots, all of them in use before the first gradient is asked for
    for i, slots in enumerate((130, 300, 33, 257) if thorough else (130, 300)):
        r = rng_for(seed, "C11s", i)
        p = Prog(r, 1)
        pt = ("max", "min")[i % 2]
        o = p.new(k="pool", f=pt, pd=[3, 1], ps=[2, 1])
        p.add(op="setb", o=o, n=slots)
        order = list(range(slots))
        r.shuffle(order)
        last = {}
        for s in order:
            last[s] = matrix(r, (5, 1, 1), 99)
            p.add(op="fwd", o=o, x=last[s], slot=s)
        for s in r.sample(order, 60) + [0, slots - 1]:
            g = matrix(r, (2, 1, 1), 50)
            p.add(op="bwd", o=o, x=last[s], y=g, g=g, slot=s, first=0)
        cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
def c12(seed, thorough):
    cases = []
    for i in range(260 if thorough else 80):
        r = rng_for(seed, "C12", i)
        d = r.choice([(1, 1, 1), (4, 1, 1), (1, 5, 1), (2, 3, 1), (2, 2, 3), (3, 1, 2), (1, 1, 6), (4, 3, 2), (3, 3, 3)]) if i < 40 else \
            (r.randint(1, 4), r.randint(1, 4), r.randint(1, 3))
        n = r.choice([1, 2, 3, 5, 7])
        S, lx, lw, u, st = scales(r, max(vol(d), n))
        p = Prog(r, S)
        o = p.new(k="fc", n=n)
        w, b = matrix(r, (n, vol(d), 1), lw, u, st), matrix(r, (n, 1, 1), 1000)
        how = "dset" if i % 2 else "set"
        p.add(op=how, o=o, w=w, b=b)
        x, g = matrix(r, d, lx, u, st), matrix(r, (n, 1, 1), lx, u, r.choice([st, "onehot"]))
        slots = r.randint(1, 3)
        p.add(op="setb", o=o, n=slots)
        loaded = how == "dset"
        seq = ["fwd", "bwd", "gw", "gb", "gx", "fwd2", "bwdfirst", "other", "apply", "fwd", "bwd"]
        if loaded and r.random() < .5:
            seq = ["bwd", "fwd", "gx", "apply", "bwd", "fwd2"]       # backward right after loading
        for a in seq:
            s = r.randrange(slots)
            if a == "fwd":
                p.add(op="fwd", o=o, x=x, slot=s)
            elif a == "bwd":
                p.add(op="bwd", o=o, x=x, y=g, g=g, slot=s, first=0)
            elif a == "bwdfirst":
                p.add(op="bwd", o=o, x=x, y=g, g=g, slot=s, first=1)
            elif a == "gw":
                p.add(op="gw", o=o, x=x, g=g)
            elif a == "gx":
                p.add(op="gx", o=o, x=x, g=g)
            elif a == "gb":
                p.add(op="gb", o=o, g=g)
            elif a in ("fwd2", "other"):
                # another shape with the same number of elements
                ds = [q for q in ((vol(d), 1, 1), (1, vol(d), 1), (d[1], d[0], d[2]), (d[2], d[0], d[1]), (1, 1, vol(d))) if vol(q) == vol(d)]
                x2 = matrix(r, r.choice(ds), lx, u, st)
                p.add(op="fwd", o=o, x=x2, slot=s)
                p.add(op="bwd", o=o, x=x2, y=g, g=g, slot=s, first=0)
            elif a == "apply" and st != "odd" and S == 1:
                p.add(op="setb", o=o, n=slots)
                p.add(op="bwd", o=o, x=x, y=g, g=g, slot=s, first=0)
                p.add(op="apply", o=o, r_=S)
        cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
ACTS = ["RELU", "SIGMOID", "LINEAR", "TANGENT", "LEAKY_RELU"]


def c13(seed, thorough):
    cases = []
    p = Prog(rng_for(seed, "n"), 1)
    for i in range(5):
        p.add(op="actname", i=i)
    for s in ("", "relu", "RELU ", "SIGMOIDAL", "LEAKY", "TANH", "LEAKY_RELU2", " LINEAR", "R"):
        p.add(op="actbad", s=s)
    p.add(op="actbad", i=5)
    p.add(op="actbad", i=17)
    cases.append(p.ops)
    dims = [(1, 1, 1), (5, 1, 1), (1, 4, 1), (3, 3, 1), (2, 3, 2), (4, 2, 3), (0, 2, 1), (7, 5, 1)]
    for i in range(90 if thorough else 30):
        for f in ACTS:
            r = rng_for(seed, "C13", i, f)
            p = Prog(r, 1)
            o = p.new(k="act", f=f)
            o2 = p.new(k="act", f=r.choice(ACTS))
            d = dims[i % len(dims)]
            lim = 72 if f in ("LEAKY_RELU", "RELU", "LINEAR") else 150
            for _ in range(2):
                k = matrix(r, d, lim, 1, r.choice(["any", "any", "ties", "neg"]))
                if f in ("SIGMOID", "TANGENT") and r.random() < .4 and k["v"]:
                    k["v"][r.randrange(len(k["v"]))] = r.choice([-8000, 8000, 320, -320, 0])
                if k["v"] and r.random() < .5:
                    k["v"][0] = 0
                g = matrix(r, d, 9)
                if lim == 72:
                    g = matrix(r, d, 9)
                p.add(op="curvef", o=o, k=k)
                p.add(op="curveb", o=o, k=k, g=g, first=r.randint(0, 1))
                p.add(op="curvef", o=o2, k=matrix(r, d, 70)) if r.random() < .5 else None
                p.add(op="curveb", o=o, k=k, g=g, first=0)
            if f in ("RELU", "LINEAR"):
                # exact, beyond single precision
                x = {"d": list(d), "v": [r.choice([1, -1]) * (16777216 + r.randint(1, 9) * 2 + 1) for _ in range(vol(d))]}
                p.add(op="fwd", o=o, x=x, slot=r.randint(0, 5))
                g = {"d": list(d), "v": [r.choice([1, -1]) * (16777216 + r.randint(1, 9) * 2 + 1) for _ in range(vol(d))]}
                # the output handed over is not what the layer computed: only the input counts
                p.add(op="bwd", o=o, x=x, y=matrix(r, d, 100), g=g, slot=r.randint(0, 5), first=0)
            ends = ["+M", "-M", "+B", "-B", "+L", "-L", "0", "+t", "-t", "+T", "-T"]
            x = [r.choice(ends) for _ in range(vol(d))] if i else ends
            p.add(op="ends", o=o, d=list(d) if i else [11, 1, 1], x=x)
            cases.append([q for q in p.ops if q])
    return cases


# ------------------------------------------------------------------------------------------------
def vec_dim(r, n):
    return (n, 1, 1) if r.random() < .6 else (1, n, 1)


def c14(seed, thorough):
    cases = []
    for i in range(300 if thorough else 90):
        r = rng_for(seed, "C14", i)
        n = [1, 2, 3, 4, 5, 8, 10, 16][i % 8]
        p = Prog(r, 64)
        o = p.new(k="soft", n=n)
        d = vec_dim(r, n)
        few = r.sample(["+M", "-M", "+B", "-B", "+L", "-L", "0", "+t", "-T"], r.randint(1, 3))
        p.add(op="softends", o=o, d=list(d), x=[r.choice(few) for _ in range(n)])
        # proportional to 2^k, with a common offset that may be huge
        ks = [r.choice([-1, -1, -2, -60, -80, 0, 0, -3]) for _ in range(n)]
        if n > 1 and i % 5 == 0:
            ks = [r.choice([-200, -1100, -5000, -2000000])] * n
            ks[r.randrange(n)] = 0
        if n > 1 and i % 5 == 1:
            ks = [r.choice([-200, -1100, -5000, -2000000, 0]) for _ in range(n)]
        if max(ks) < 0:
            ks[r.randrange(n)] = 0
        wt = [0 if k <= -40 else 2 ** (k + 3) for k in ks]
        tot = sum(wt)
        Q = 10 ** 8 if tot <= 9 else 10 ** 7 if tot <= 90 else 10 ** 6
        for off in (0, r.choice([1000000, -1000000, 12345, -777, 300000])):
            p.add(op="softc", o=o, d=list(d), k=ks, wt=wt, off=off, Q=Q, slot=r.randint(0, 2))
        k2 = [r.randint(-40, 40) for _ in range(n)]
        p.add(op="softg", o=o, d=list(d), k=k2, off=r.choice([0, 5, 1000000, -1000000]), slot=0)
        # labels over slots: backward takes the latest label of its own slot
        slots = r.randint(1, 4)
        p.add(op="setb", o=o, n=slots)
        for _ in range(10):
            s = r.randrange(slots)
            if r.random() < .5:
                p.add(op="label", o=o, t=r.randrange(n), slot=s)
            elif r.random() < .1:
                p.add(op="setb", o=o, n=slots)
            else:
                y = matrix(r, d, 64, 1, "pos")
                p.add(op="bwd", o=o, x=matrix(r, d, 640), y=y, g=matrix(r, d, 64), slot=s, first=r.randint(0, 1) if False else 0)
        cases.append(p.ops)
    # losses
    for i in range(8):
        r = rng_for(seed, "C14l", i)
        p = Prog(r, 64)
        n = [1, 2, 4, 7, 10, 3, 5, 8][i]
        p.add(op="net", cs=[{"k": "fc", "n": n}, {"k": "soft", "n": n}], labels=["l%d" % j for j in range(n)])
        for q in ([0] + list(range(1, 65)) if i < 2 or thorough else r.sample(range(0, 65), 12)):
            p.add(op="lossc", m=0, n=n, at=r.randrange(n), q=q)
        cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
def c15(seed, thorough):
    cases = []
    for i in range(160 if thorough else 48):
        for kind in ("kernel", "pool", "fc", "soft", "net"):
            r = rng_for(seed, "C15", i, kind)
            p = Prog(r, 64 if kind in ("soft", "net") else 1)
            if kind == "kernel":
                fd, n, s = (r.randint(1, 4), r.randint(1, 4), r.randint(1, 3)), r.randint(1, 2), r.randint(1, 3)
                o = p.new(k="kernel", fd=list(fd), n=n, s=s)
                p.add(op="set", o=o, w=matrix(r, (fd[0], fd[1], fd[2] * n), 30), b=matrix(r, (n, 1, 1), 30))
                good = lambda: (fd[0] + r.randint(0, 3), fd[1] + r.randint(0, 3), fd[2])
                bads = [(fd[0], fd[1], fd[2] + 1), (fd[0] - 1, fd[1] + 2, fd[2]), (fd[0] + 2, fd[1] - 1, fd[2]), (fd[0], fd[1], fd[2] - 1),
                        (0, 0, fd[2]), (fd[0] + 1, 0, fd[2]), (fd[0] + 3, fd[1] + 3, fd[2] + 2), (1, vol(fd), fd[2]) if fd[0] > 1 else (0, 3, fd[2]),
                        (fd[1] - 1, fd[0] - 1, fd[2])]
                p.add(op="setb", o=o, n=2)
            elif kind == "pool":
                pd, ps = (r.randint(1, 4), r.randint(1, 4)), (r.randint(1, 3), r.randint(1, 3))
                pt = r.choice(["max", "min"])
                o = p.new(k="pool", f=pt, pd=list(pd), ps=list(ps))
                good = lambda: (pd[0] + r.randint(0, 4), pd[1] + r.randint(0, 4), r.randint(1, 2))
                bads = [(pd[0] - 1, pd[1] + 1, 1), (pd[0] + 1, pd[1] - 1, 2), (pd[0] - 1, pd[1] - 1, 1), (0, 0, 1), (pd[0] - 1, pd[1] + 5, 3), (pd[0] + 6, pd[1] - 1, 1)]
                p.add(op="setb", o=o, n=2)
            elif kind == "fc":
                n, c = r.randint(1, 4), r.randint(2, 8)
                o = p.new(k="fc", n=n)
                p.add(op=r.choice(["set", "dset"]), o=o, w=matrix(r, (n, c, 1), 30), b=matrix(r, (n, 1, 1), 30))
                good = lambda: r.choice([(c, 1, 1), (1, c, 1), (1, 1, c)])
                bads = [(c + 1, 1, 1), (c - 1, 1, 1), (c, 2, 1), (0, 1, 1), (1, 1, c + 2), (c, 1, 2), (2 * c, 1, 1)]
                p.add(op="setb", o=o, n=2)
            elif kind == "soft":
                n = r.choice([2, 4, 8])
                o = p.new(k="soft", n=n)
                good = lambda: vec_dim(r, n)
                bads = [(n + 1, 1, 1), (1, n - 1, 1), (2, n // 2, 1) if n > 2 else (2, 2, 1), (1, 1, n), (n, 2, 1), (n, 1, 2), (0, 1, 1), (n // 2, 1, 2)]
                p.add(op="setb", o=o, n=2)
            else:
                cases.append(c15_net(p, r))
                continue
            bads = [b for b in bads if min(b) >= 0]
            lastx = {}
            for _ in range(12):
                a = r.random()
                s = r.randint(0, 1)
                if a < .4:
                    b = r.choice(bads)
                    p.add(op="fits", o=o, x=matrix(r, b, 20)) if r.random() < .3 else None
                    p.add(op="fwd", o=o, x=matrix(r, b, 20), slot=s)
                elif kind == "soft" and a < .55:
                    p.add(op="label", o=o, t=r.choice([n, n + 1, 1000, -1, n + 65536]), slot=s)
                elif kind == "soft" and a < .7:
                    p.add(op="label", o=o, t=r.randrange(n), slot=s)
                elif kind == "soft" and a < .75:
                    p.add(op="setb", o=o, n=2)
                elif kind == "soft" and a < .9:
                    d = good()
                    p.add(op="bwd", o=o, x=matrix(r, d, 20), y=matrix(r, d, 64), g=matrix(r, d, 20), slot=s, first=0)
                elif kind == "soft":
                    d = good()
                    x = matrix(r, d, 20, 1, "any")
                    x["v"] = [5 * 64] * n if r.random() < .5 else [0] * n
                    x["v"][0] = 5 * 64 if x["v"][0] else 128 * 64
                    p.add(op="fwd", o=o, x=x, slot=s)
                elif a < .75 or s not in lastx:
                    x = matrix(r, good(), 20)
                    p.add(op="fwd", o=o, x=x, slot=s)
                    lastx[s] = x
                else:
                    x = lastx[s]
                    od = kout(fd, n, p.ops[1]["c"]["s"], x["d"]) if kind == "kernel" else pout(pd, ps, x["d"]) if kind == "pool" else (n, 1, 1)
                    g = matrix(r, od, 20)
                    p.add(op="bwd", o=o, x=x, y=g, g=g, slot=s, first=0)
            if kind in ("kernel", "fc"):
                x = matrix(r, good(), 20)
                p.add(op="fwd", o=o, x=x, slot=0)
            cases.append([q for q in p.ops if q])
    return cases


def c15_net(p, r):
    """Unknown labels and ill-shaped inputs of a whole model."""
    p.ops[0]["S"] = p.S = 64
    n = 4
    labels = r.sample(["cat", "dog", "a", "b c", "0", "10", "zebra"], n)
    fd = (2, 2, r.randint(1, 2))
    cs = [{"k": "kernel", "fd": list(fd), "n": 2, "s": 1}, {"k": "pool", "f": r.choice(["max", "min"]), "pd": [2, 2], "ps": [1, 1]},
          {"k": "act", "f": "LINEAR"}, {"k": "fc", "n": n}, {"k": "soft", "n": n}]
    p.add(op="net", cs=cs, labels=labels)
    p.add(op="nsetb", m=0, n=2)
    x = matrix(r, (4, 4, fd[2]), 4 * 64, 64)
    for _ in range(3):
        p.add(op="set", o=0, w=matrix(r, (2, 2, fd[2] * 2), 3 * 64, 64), b=matrix(r, (2, 1, 1), 128, 64))
        p.add(op="set", o=3, w=matrix(r, (n, 8, 1), 3 * 64, 64), b=matrix(r, (n, 1, 1), 128, 64))
        win = r.choice([-1, -1, 0, 3])
        s = r.randint(0, 1)
        p.add(op="balance", m=0, x=x, slot=s, win=win)
        p.add(op="nfwd", m=0, x=x, slot=s)
        for _ in range(3):
            a = r.random()
            bad = r.choice(["nope", "", labels[0] + " ", labels[1].upper() + "x", "00"])
            if a < .4:
                p.add(op="nbwd", m=0, lab=bad, slot=s)
            elif a < .6:
                p.add(op="nloss", m=0, lab=bad, slot=s)
            elif a < .8:
                p.add(op="nfwd", m=0, x=matrix(r, r.choice([(4, 4, fd[2] + 1), (1, 4, fd[2]), (5, 5, fd[2]), (3, 3, fd[2]), (2, 2, fd[2])]), 64, 64), slot=1 - s)
            else:
                p.add(op="nbwd", m=0, lab=r.choice(labels), slot=s)
        p.add(op="napply", m=0, r_=64)
    return p.ops


# ------------------------------------------------------------------------------------------------
def stack(r, labels, rich=True, snap=False, small=False):
    """A stack of layers that fit together and its input shape: (configs, input shape, shapes)."""
    while True:
        d = (r.randint(3, 6), r.randint(3, 6), r.randint(1, 2)) if not small else (r.randint(2, 4), r.randint(2, 4), r.randint(1, 2))
        cs, shapes, cur, work = [], [d], d, 0
        for _ in range(r.randint(0, 4 if not small else 3)):
            k = r.choice(["kernel", "pool", "act", "act", "fc"] if rich else ["kernel", "act", "pool"])
            if k == "kernel":
                fd = (r.randint(1, min(3, cur[0])) if cur[0] else 0, r.randint(1, min(3, cur[1])) if cur[1] else 0, cur[2])
                n, s = r.randint(1, 2), r.choice([1, 1, 2])
                cs.append({"k": "kernel", "fd": list(fd), "n": n, "s": s})
                cur = kout(fd, n, s, cur)
                work += vol(cur) * vol(fd)
            elif k == "pool":
                pd = (r.randint(1, min(2, cur[0])), r.randint(1, min(2, cur[1])))
                ps = (r.randint(1, 2), r.randint(1, 2))
                cs.append({"k": "pool", "f": r.choice(["max", "min"]), "pd": list(pd), "ps": list(ps)})
                cur = pout(pd, ps, cur)
            elif k == "act":
                cs.append({"k": "act", "f": r.choice(["RELU", "LINEAR"])})
            else:
                n = r.randint(1, 5)
                cs.append({"k": "fc", "n": n})
                work += vol(cur) * n
                cur = (n, 1, 1)
            shapes.append(cur)
        cs.append({"k": "fc", "n": len(labels)})
        work += vol(cur) * len(labels)
        cur = (len(labels), 1, 1)
        shapes.append(cur)
        cs.append({"k": "snap" if snap else "soft", "n": len(labels)})
        if work <= (700 if not small else 300):
            return cs, d, shapes


def set_params(p, r, cs, shapes, first=0, lim=3, unit=64, how=("set",)):
    """Small integer parameters for all layers."""
    for i, c in enumerate(cs):
        if c["k"] == "kernel":
            p.add(op=r.choice(how), o=first + i, w=matrix(r, (c["fd"][0], c["fd"][1], c["fd"][2] * c["n"]), lim * unit, unit), b=matrix(r, (c["n"], 1, 1), lim * unit, unit))
        elif c["k"] == "fc":
            p.add(op=r.choice(how), o=first + i, w=matrix(r, (c["n"], vol(shapes[i]), 1), lim * unit, unit), b=matrix(r, (c["n"], 1, 1), lim * unit, unit))


def magnitude(cs, shapes, lx, lim):
    """Bound of the values inside the stack (not scaled)."""
    m = top = lx
    for i, c in enumerate(cs):
        if c["k"] == "kernel":
            m = m * lim * c["fd"][0] * c["fd"][1] * c["fd"][2] + lim
        elif c["k"] == "fc":
            m = m * lim * vol(shapes[i]) + lim
        top = max(top, m)
    return top


def c16(seed, thorough):
    cases = []
    i = 0
    while len(cases) < (240 if thorough else 70):
        i += 1
        r = rng_for(seed, "C16", i)
        n = r.choice([2, 4, 8])
        labels = ["L%d" % j for j in range(n)] if r.random() < .7 else [str(j) for j in r.sample(range(-40, 2000), n)]
        r.shuffle(labels)
        cs, d, shapes = stack(r, labels)
        lx, lim, S = (3, 2, 8) if len(cs) > 4 else (8, 4, 8)
        if magnitude(cs, shapes, lx, lim) * S * S * lim * 2 > 2 ** 30:
            continue
        p = Prog(r, S)
        p.add(op="net", cs=cs, labels=labels)
        set_params(p, r, cs, shapes, 0, lim, S, ("set", "dset"))
        p.add(op="nsetb", m=0, n=3)
        for t in range(3):
            x = matrix(r, d, lx * S, S)
            s = r.randrange(3)
            p.add(op="balance", m=0, x=x, slot=s, win=r.choice([-1, r.randrange(n), r.randrange(n)]))
            p.add(op="nfwd", m=0, x=x, slot=s)
            p.add(op="nloss", m=0, lab=r.choice(labels), slot=s)
            p.add(op="nfwd", m=0, x=x, slot=r.randrange(3))
        if i % 3 == 0:
            # large values are handed on in double precision and reported in single precision
            x2 = matrix(r, d, 1, 1)
            x2["v"] = [0] * vol(d)
            p.add(op="balance", m=0, x=x2, slot=0, win=n - 1)
            p.add(op="nfwd", m=0, x=x2, slot=0)
        cases.append(p.ops)
    # models without an output layer: the last layer's output, whatever its shape and size of numbers, decides
    n_open = 0
    while n_open < (90 if thorough else 30):
        i += 1
        r = rng_for(seed, "C16open", i)
        cs, d, shapes = stack(r, ["x", "y", "z"], small=True)
        cs.pop()
        if r.random() < .7:
            cs.pop()                              # any kind of last layer
            shapes.pop()
        if not cs or vol(shapes[-1]) == 0 or vol(shapes[-1]) > 40:
            continue
        labels = ["L%d" % j for j in range(vol(shapes[-1]))]
        big = n_open % 2 == 0
        if magnitude(cs, shapes, 3, 2) > 2 ** 20:
            continue
        n_open += 1
        p = Prog(r, 1)
        p.add(op="net", cs=cs, labels=labels, open=1)
        set_params(p, r, cs, shapes, 0, 2, 1, ("set", "dset"))
        last = max([j for j, q in enumerate(cs) if q["k"] in ("fc", "kernel")], default=-1)
        if big and last >= 0:
            # numbers that differ only beyond single precision: the label comes from the exact ones
            for o in p.ops:
                if o.get("o") == last and o["op"] in ("set", "dset"):
                    top, spread = r.choice([(2 ** 24, 1), (2 ** 24, 1), (2 ** 24, 3), (2 ** 25, 2), (2 ** 25, 5), (-2 ** 24 - 1, 1), (-2 ** 25 - 2, 2)])
                    ws = r.choice([[0], [0, 0, 0, 0, 1, -1]])
                    o["op"] = "set"
                    o["b"] = {"d": o["b"]["d"], "v": [top + r.randint(0, spread) for _ in o["b"]["v"]]}
                    o["w"] = {"d": o["w"]["d"], "v": [r.choice(ws) for _ in o["w"]["v"]]}
        for t in range(3):
            x = matrix(r, d, 3)
            if big and last < 0:
                top = r.choice([2 ** 24, 2 ** 24 + 2, -2 ** 24 - 1])
                x["v"] = [top + r.randint(0, 1) for _ in x["v"]]
            p.add(op="nfwd", m=0, x=x, slot=0, **({"t": r.choice(["dbl", "int"])} if big else {}))
        cases.append(p.ops)
    # models without a softmax decision problem: a linear output of large numbers
    for i in range(24 if thorough else 10):
        r = rng_for(seed, "C16b", i)
        p = Prog(r, 1)
        n = r.randint(2, 6)
        cs = [{"k": "act", "f": "LINEAR"}, {"k": "fc", "n": n}, {"k": "act", "f": r.choice(["LINEAR", "RELU"])}, {"k": "fc", "n": n}, {"k": "act", "f": "LINEAR"}]
        p.add(op="net", cs=cs, labels=[])
        cases.append(c16_linear(p, r, n))
    return cases


def c16_linear(p, r, n):
    """Logits beyond 2^24 between two layers: only double precision keeps their differences."""
    p.ops = p.ops[:1]
    cs = [{"k": "fc", "n": 3}, {"k": "act", "f": r.choice(["LINEAR", "RELU"])}, {"k": "fc", "n": 2}, {"k": "soft", "n": 2}]
    p.add(op="net", cs=cs, labels=["u", "v"])
    big = [16777216 + 2 * r.randint(1, 30) + 1, 16777216 + 2 * r.randint(1, 30) + 1, 0]
    p.add(op="set", o=0, w={"d": [3, 2, 1], "v": [0, 0, 0, 0, 0, 0]}, b={"d": [3, 1, 1], "v": big})
    # difference of two large numbers decides
    a = big[0] - big[1]
    p.add(op="set", o=2, w={"d": [2, 3, 1], "v": [1, 0, -1, 0, 0, 0]}, b={"d": [2, 1, 1], "v": [-a + r.choice([-64, 64]), 0]})
    x = matrix(r, (2, 1, 1), 50)
    p.add(op="nfwd", m=0, x=x, slot=0)
    p.add(op="nfwd", m=0, x=x, slot=0)
    # and so does the input itself
    p.add(op="set", o=0, w={"d": [3, 2, 1], "v": [1, 0, 0, 0, 1, 0]}, b={"d": [3, 1, 1], "v": [r.randint(-3, 3) for _ in range(3)]})
    x = {"d": [2, 1, 1], "v": [16777216 + 2 * r.randint(1, 30) + 1 for _ in range(2)]}
    a = x["v"][0] - x["v"][1] + p.ops[-1]["b"]["v"][0] - p.ops[-1]["b"]["v"][1]
    p.add(op="set", o=2, w={"d": [2, 3, 1], "v": [1, 0, -1, 0, 0, 0]}, b={"d": [2, 1, 1], "v": [-a + r.choice([-64, 64]), 0]})
    p.add(op="nfwd", m=0, x=x, slot=0, t=r.choice(["dbl", "int"]))
    return p.ops


def types(cases, seed, tag):
    """Gives the data points of the models element types that can hold them."""
    for i, ops in enumerate(cases):
        r = rng_for(seed, "type", tag, i)
        S = ops[0]["S"]
        for o in ops:
            if o["op"] == "nfwd":
                v = o["x"]["v"]
            elif o["op"] in ("epoch", "train"):
                v = [k for p in o["data"] for k in p["x"]["v"]]
            else:
                if o["op"] in ("nloss", "nbwd") and o["lab"].lstrip("-").isdigit() and r.random() < .6:
                    o["lt"] = "int"
                continue
            can = ["flt", "dbl"]
            if all(k % S == 0 for k in v):
                can.append("int")
                if all(0 <= k // S < 256 for k in v):
                    can.append("uchar")
            t = r.choice(can)
            if "t" not in o and t != "flt":
                o["t"] = t
    return cases


def c17(seed, thorough):
    cases = []
    i = 0
    while len(cases) < (200 if thorough else 56):
        i += 1
        r = rng_for(seed, "C17", i)
        n = r.choice([2, 4, 8])
        labels = ["L%d" % j for j in range(n)] if r.random() < .7 else [str(j) for j in r.sample(range(-40, 2000), n)]
        r.shuffle(labels)
        cs, d, shapes = stack(r, labels)
        lx, lim, S = 3, 2, 8
        if magnitude(cs, shapes, lx, lim) * S * S * 4 > 2 ** 27:
            continue
        p = Prog(r, S)
        p.add(op="net", cs=cs, labels=labels)
        set_params(p, r, cs, shapes, 0, lim, S)
        mode = i % 3
        p.add(op="nsetb", m=0, n=4)
        if mode == 0:
            # one slot, one point
            x = matrix(r, d, lx * S, S)
            s = r.randrange(4)
            p.add(op="balance", m=0, x=x, slot=s, win=r.choice([-1, r.randrange(n)]))
            p.add(op="nfwd", m=0, x=x, slot=s)
            p.add(op="nbwd", m=0, lab=r.choice(labels), slot=s)
            p.add(op="napply", m=0, r_=S)
        else:
            # several points in flight in different slots, completed in another order; separate
            # models show which gradient belongs to which slot
            x = matrix(r, d, lx * S, S)
            y = matrix(r, d, lx * S, S)
            sx, sy = r.sample(range(4), 2)
            p.add(op="balance", m=0, x=x, slot=sx, win=-1)
            p.add(op="nfwd", m=0, x=x, slot=sx)
            if mode == 1:
                p.add(op="nfwd", m=0, x=x, slot=sy)
                la, lb = r.choice(labels), r.choice(labels)
                p.add(op="nbwd", m=0, lab=la, slot=sy)
                p.add(op="nbwd", m=0, lab=lb, slot=sx)
                if r.random() < .5:
                    p.add(op="nbwd", m=0, lab=r.choice(labels), slot=sy)      # the latest counts
                p.add(op="napply", m=0, r_=2 * S)
            else:
                p.add(op="nbwd", m=0, lab=r.choice(labels), slot=sx)
                p.add(op="napply", m=0, r_=S)
                set_params(p, r, cs, shapes, 0, lim, S)
                p.add(op="balance", m=0, x=y, slot=sy, win=r.randrange(n))
                p.add(op="nfwd", m=0, x=y, slot=sy)
                p.add(op="nbwd", m=0, lab=r.choice(labels), slot=sy)
                p.add(op="napply", m=0, r_=S // 2)
        cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
def c18(seed, thorough):
    cases = []
    for i in range(220 if thorough else 64):
        r = rng_for(seed, "C18", i)
        S = 64
        rn = i % 2
        p = Prog(r, S, rn)
        kinds = ["kernel", "fc"] if i % 4 == 0 else [r.choice(["kernel", "fc"])]
        ls = []
        for k in kinds:
            if k == "kernel":
                fd, n, s = (r.randint(1, 2), r.randint(1, 3), r.randint(1, 2)), r.randint(1, 2), r.choice([1, 1, 2])
                o = p.new(k="kernel", fd=list(fd), n=n, s=s)
                wd = (fd[0], fd[1], fd[2] * n)
                d = (fd[0] + r.randint(0, 2), fd[1] + r.randint(0, 2), fd[2])
                gd = kout(fd, n, s, d)
            else:
                n, d = r.randint(1, 4), (r.randint(1, 3), r.randint(1, 3), 1)
                o = p.new(k="fc", n=n)
                wd, gd = (n, vol(d), 1), (n, 1, 1)
            p.add(op="set", o=o, w=matrix(r, wd, 1000 * S, S), b=matrix(r, (n, 1, 1), 1000 * S, S))
            ls.append((o, d, gd))
        # rates and gradients such that the mean of 1..4 gradients stays on the grid: gradients are
        # multiples of 12 (S = 1: exact; rn: rounded to the grid because thirds are not exact)
        unit = 12 * S if rn else 4 * S
        allowed = (1, 2, 3, 4) if rn else (1, 2, 4)
        batch = {}
        for o, d, gd in ls:
            b = r.randint(1, 5)
            p.add(op="setb", o=o, n=b)
            batch[o] = [b, set()]
        for _ in range(18):
            o, d, gd = r.choice(ls)
            b, used = batch[o]
            a = r.random()
            if a < .62:
                slot = r.randrange(b)
                if slot not in used and len(used) + 1 > 4:
                    continue
                x = matrix(r, d, 3 * S, S)
                g = matrix(r, gd, 4 * unit, unit)
                p.add(op="bwd", o=o, x=x, y=g, g=g, slot=slot, first=r.randint(0, 1))
                used.add(slot)
            elif a < .9:
                if len(used) not in allowed and len(used) > 0:
                    continue
                p.add(op="apply", o=o, r_=r.choice([S, S // 2, 2 * S, S // 4, 0, -S]))
                used.clear()
            elif a < .96:
                batch[o] = [r.randint(1, 5), set()]
                p.add(op="setb", o=o, n=batch[o][0])
            else:
                p.add(op="fwd", o=o, x=matrix(r, d, 2 * S, S), slot=0) if not rn else None
        cases.append([q for q in p.ops if q])
    # learning rates with more digits than a float
    S = 2 ** 24
    for i in range(60 if thorough else 16):
        r = rng_for(seed, "C18fine", i)
        p = Prog(r, S)
        if i % 2:
            fd, n, s = (r.randint(1, 2), r.randint(1, 2), 1), r.randint(1, 2), 1
            o = p.new(k="kernel", fd=list(fd), n=n, s=s)
            wd = (fd[0], fd[1], n)
            d = (fd[0] + r.randint(0, 1), fd[1] + r.randint(0, 1), 1)
            gd = kout(fd, n, s, d)
        else:
            n, d = r.randint(1, 3), (r.randint(1, 2), r.randint(1, 2), 1)
            o = p.new(k="fc", n=n)
            wd, gd = (n, vol(d), 1), (n, 1, 1)
        p.add(op="set", o=o, w=matrix(r, wd, S, S), b=matrix(r, (n, 1, 1), S, S))
        p.add(op="setb", o=o, n=4)
        rate = r.choice([1, -1]) * (S + r.choice([1, -1, 3, 5]))
        slots = r.sample(range(4), r.choice([1, 2, 4]))
        for k in slots:
            x, g = matrix(r, d, S, S), matrix(r, gd, 4 * S, 4 * S)
            p.add(op="bwd", o=o, x=x, y=g, g=g, slot=k, first=r.randint(0, 1))
        p.add(op="apply", o=o, r_=rate)
        p.add(op="apply", o=o, r_=rate)
        x, g = matrix(r, d, S, S), matrix(r, gd, 0, S)
        g["v"][r.randrange(len(g["v"]))] = r.choice([S, -S])
        p.add(op="bwd", o=o, x=x, y=g, g=g, slot=r.randrange(4), first=1)
        p.add(op="apply", o=o, r_=rate)
        cases.append([q for q in p.ops if q])
    return cases


# ------------------------------------------------------------------------------------------------
def c22(seed, thorough, conc=False, count=None):
    cases = []
    for i in range(count or (60 if thorough else 24)):
        r = rng_for(seed, "C22", i, conc)
        p = Prog(r, 64)
        d = (r.randint(1, 4), r.randint(1, 4), r.randint(1, 2))
        n = r.randint(1, 5)
        if not conc and i % 3 == 0:
            fd = (r.randint(1, 3), r.randint(1, 3), r.randint(1, 3))
            o = p.new(k="kernel", fd=list(fd), n=n, s=r.randint(1, 2))
            p.add(op="kinit", o=o)
            p.add(op="kinit", o=o)
            cases.append(p.ops)
            continue
        if not conc and i % 3 == 1:
            # loaded parameters stay
            o = p.new(k="fc", n=r.choice([0, n]))
            p.ops[1]["c"]["n"] = n
            p.add(op="dset", o=o, w=matrix(r, (n, vol(d), 1), 640), b=matrix(r, (n, 1, 1), 640))
            for _ in range(3):
                p.add(op="fwd", o=o, x=matrix(r, d, 640, 64), slot=0)
            cases.append(p.ops)
            continue
        o = p.new(k="fc", n=n)
        o2 = p.new(k="fc", n=r.randint(1, 3))
        if i % 4 == 0:
            # the first input is empty, or all zero: it is the first input all the same
            o3 = p.new(k="fc", n=n)
            d3 = r.choice([[0, 1, 1], [0, 3, 2], [2, 0, 1], [1, 1, 0], [2, 3, 1], [3, 1, 1]])
            p.add(op="finit", o=o3, d=d3, hots=[-1] * (3 if conc else 1), conc=1 if conc else 0)
            p.add(op="finit", o=o3, d=[vol(d3) + 2, 1, 1], hots=[0], conc=0)
            p.add(op="finit", o=o3, d=d3, hots=[-1], conc=0)
        T = r.choice([2, 3, 4, 8, 24]) if conc else r.randint(1, 3)
        p.add(op="finit", o=o, d=list(d), hots=[r.randrange(vol(d)) for _ in range(T)], conc=1 if conc else 0)
        p.add(op="finit", o=o2, d=[2, 1, 1], hots=[1, 0], conc=1 if conc else 0)
        ds = [(vol(d), 1, 1), (1, vol(d), 1), d]
        p.add(op="finit", o=o, d=list(r.choice(ds)), hots=[r.randrange(vol(d)) for _ in range(2)], conc=0)
        p.add(op="finit", o=o, d=[vol(d) + 1, 1, 1], hots=[0], conc=0)
        p.add(op="finit", o=o, d=list(d), hots=[r.randrange(vol(d)) for _ in range(T)], conc=1 if conc else 0)
        cases.append(p.ops)
    return cases


# ------------------------------------------------------------------------------------------------
# Larger layers, more filters, labels, layers and slots: nothing changes with the size
# ------------------------------------------------------------------------------------------------
def xl(pid, seed, thorough):
    cases = []
    pick = lambda xs, k: xs if thorough else rng_for(seed, pid, "pick").sample(xs, min(k, len(xs)))
    if pid in ("C08", "C09"):
        shapes = [((11, 9, 3), 1, 2, (27, 25, 3)), ((1, 1, 40), 20, 1, (3, 4, 40)), ((2, 2, 1), 40, 1, (9, 8, 1)), ((3, 3, 16), 16, 1, (6, 5, 16)),
                  ((20, 17, 1), 1, 1, (24, 22, 1)), ((3, 2, 2), 2, 3, (41, 29, 2)), ((1, 33, 1), 2, 1, (2, 70, 1)), ((35, 1, 1), 3, 2, (66, 2, 1)),
                  ((2, 2, 70), 1, 1, (4, 3, 70)), ((1, 2, 1), 1, 9, (5, 100, 1))]
        for i, (fd, n, s, d) in enumerate(pick(shapes, 5)):
            r = rng_for(seed, pid, "xl", i)
            p = Prog(r, 1)
            o = p.new(k="kernel", fd=list(fd), n=n, s=s)
            p.add(op="set", o=o, w=matrix(r, (fd[0], fd[1], fd[2] * n), 60), b=matrix(r, (n, 1, 1), 1000))
            x, g = matrix(r, d, 60), matrix(r, kout(fd, n, s, d), 60)
            if pid == "C08":
                p.add(op="outdim", o=o, d=list(d))
                p.add(op="fwd", o=o, x=x, slot=0)
            else:
                p.add(op="setb", o=o, n=2)
                p.add(op="bwd", o=o, x=x, y=g, g=g, slot=1, first=0)
                p.add(op="apply", o=o, r_=1)
            cases.append(p.ops)
    elif pid in ("C10", "C11"):
        shapes = [((12, 10), (5, 7), (50, 45, 1)), ((2, 2), (2, 2), (60, 58, 1)), ((2, 3), (1, 2), (4, 5, 60)), ((1, 40), (1, 3), (3, 90, 1)),
                  ((40, 2), (2, 2), (44, 5, 2)), ((3, 3), (3, 3), (28, 28, 8)), ((20, 20), (20, 20), (61, 41, 1)), ((2, 2), (1, 1), (20, 20, 3))]
        for i, (pd, ps, d) in enumerate(pick(shapes, 5)):
            for pt in ("max", "min", "avg") if thorough else (("max", "min", "avg")[i % 3],):
                r = rng_for(seed, pid, "xl", i, pt)
                p = Prog(r, 1)
                o = p.new(k="pool", f=pt, pd=list(pd), ps=list(ps))
                slots = r.choice([40, 70])
                p.add(op="setb", o=o, n=slots)
                s = r.randrange(slots // 2, slots)
                a = pd[0] * pd[1] if pt == "avg" else 1
                x = matrix(r, d, 1000 * a, a, r.choice(["any", "neg", "ties"]))
                p.add(op="fwd", o=o, x=x, slot=s)
                if pid == "C11":
                    p.add(op="fwd", o=o, x=matrix(r, d, 1000 * a, a), slot=s - 1)
                    g = matrix(r, pout(pd, ps, d), 50 * a, a)
                    p.add(op="bwd", o=o, x=x, y=g, g=g, slot=s, first=0)
                cases.append(p.ops)
    elif pid == "C12":
        for i, (d, n) in enumerate(pick([((10, 10, 3), 40), ((2, 2, 1), 300), ((1, 1, 900), 6), ((33, 30, 1), 7), ((1, 70, 1), 65), ((257, 1, 1), 3)], 4)):
            r = rng_for(seed, pid, "xl", i)
            p = Prog(r, 1)
            o = p.new(k="fc", n=n)
            p.add(op=("set", "dset")[i % 2], o=o, w=matrix(r, (n, vol(d), 1), 60), b=matrix(r, (n, 1, 1), 1000))
            x, g = matrix(r, d, 60), matrix(r, (n, 1, 1), 60)
            p.add(op="fwd", o=o, x=x, slot=0)
            p.add(op="setb", o=o, n=2)
            p.add(op="bwd", o=o, x=x, y=g, g=g, slot=1, first=0)
            p.add(op="apply", o=o, r_=1)
            cases.append(p.ops)
    elif pid == "C13":
        for i, f in enumerate(ACTS):
            r = rng_for(seed, pid, "xl", i)
            p = Prog(r, 1)
            d = r.choice([(40, 30, 1), (1, 1, 1100), (1200, 1, 1), (9, 11, 13)])
            o = p.new(k="act", f=f)
            k = matrix(r, d, 72 if f in ("LEAKY_RELU", "RELU", "LINEAR") else 150)
            p.add(op="curvef", o=o, k=k)
            p.add(op="curveb", o=o, k=k, g=matrix(r, d, 9), first=0)
            cases.append(p.ops)
    elif pid == "C14":
        for i, n in enumerate(pick([33, 70, 130, 257, 300], 3)):
            r = rng_for(seed, pid, "xl", i)
            p = Prog(r, 64)
            o = p.new(k="soft", n=n)
            d = vec_dim(r, n)
            ks = [r.choice([-1, -2, -60, 0, -3]) for _ in range(n)]
            ks[r.randrange(n)] = 0
            wt = [0 if k <= -40 else 2 ** (k + 3) for k in ks]
            p.add(op="softc", o=o, d=list(d), k=ks, wt=wt, off=r.choice([0, 1000000, -1000000]), Q=10 ** 6, slot=0)
            slots = r.choice([20, 100])
            p.add(op="setb", o=o, n=slots)
            y = matrix(r, d, 64, 1, "pos")
            s = r.randrange(slots)
            for q in r.sample(range(slots), slots):
                if q not in (s, (s + 1) % slots):
                    p.add(op="label", o=o, t=r.randrange(n), slot=q)
            p.add(op="label", o=o, t=r.randrange(n), slot=s)
            p.add(op="label", o=o, t=n - 1, slot=(s + 1) % slots)
            for q in [s, (s + 1) % slots] + r.sample(range(slots), 4):
                p.add(op="bwd", o=o, x=matrix(r, d, 640), y=y, g=matrix(r, d, 64), slot=q, first=0)
            cases.append(p.ops)
    elif pid in ("C16", "C17"):
        for i, (n, depth) in enumerate(pick([(64, 3), (8, 30), (4, 60), (64, 12), (16, 20)], 3)):
            r = rng_for(seed, pid, "xl", i)
            S = max(8, n)
            labels = ["label %d" % j for j in range(n)]
            r.shuffle(labels)
            d = cur = (3, 3, 1)
            cs, shapes = [], [d]
            for j in range(depth):
                k = r.choice(["act", "act", "pool", "kernel"])
                if k == "kernel":
                    cs.append({"k": "kernel", "fd": [1, 1, 1], "n": 1, "s": 1})
                elif k == "pool":
                    cs.append({"k": "pool", "f": r.choice(["max", "min"]), "pd": [1, 1], "ps": [1, 1]})
                else:
                    cs.append({"k": "act", "f": r.choice(["RELU", "LINEAR", "LINEAR"])})
                shapes.append(cur)
            cs += [{"k": "fc", "n": n}, {"k": "soft", "n": n}]
            shapes.append((n, 1, 1))
            p = Prog(r, S)
            p.add(op="net", cs=cs, labels=labels)
            for j, c in enumerate(cs):
                if c["k"] == "kernel":
                    p.add(op="set", o=j, w={"d": [1, 1, 1], "v": [S]}, b={"d": [1, 1, 1], "v": [r.choice([0, S])]})
                elif c["k"] == "fc":
                    p.add(op="set", o=j, w=matrix(r, (n, 9, 1), S, S), b=matrix(r, (n, 1, 1), S, S))
            slots = r.choice([20, 70])
            p.add(op="nsetb", m=0, n=slots)
            s = slots - 1 - r.randrange(5)
            x = matrix(r, d, 3 * S, S)
            p.add(op="balance", m=0, x=x, slot=s, win=r.choice([-1, n - 1, r.randrange(n)]))
            p.add(op="nfwd", m=0, x=x, slot=s)
            if pid == "C16":
                p.add(op="nloss", m=0, lab=r.choice(labels), slot=s)
            else:
                p.add(op="nbwd", m=0, lab=labels[r.choice([-1, r.randrange(n)])], slot=s)
                p.add(op="napply", m=0, r_=S)
            cases.append(p.ops)
    elif pid == "C18":
        for i, (b, used) in enumerate(pick([(64, 64), (100, 32), (130, 128), (300, 16), (33, 32), (17, 16)], 4)):
            r = rng_for(seed, pid, "xl", i)
            p = Prog(r, 1)
            if i % 2:
                fd, n = (2, 1, 1), 2
                o = p.new(k="kernel", fd=list(fd), n=n, s=1)
                wd, d, gd = (2, 1, n), (3, 1, 1), (2, 1, n)
            else:
                n, d = 2, (2, 1, 1)
                o = p.new(k="fc", n=n)
                wd, gd = (n, 2, 1), (n, 1, 1)
            p.add(op="set", o=o, w=matrix(r, wd, 1000), b=matrix(r, (n, 1, 1), 1000))
            p.add(op="setb", o=o, n=b)
            slots = r.sample(range(b), used)
            for k in slots:
                p.add(op="bwd", o=o, x=matrix(r, d, 3), y=matrix(r, gd, 9), g=matrix(r, gd, 4 * used, used), slot=k, first=r.randint(0, 1))
            p.add(op="apply", o=o, r_=1)
            p.add(op="apply", o=o, r_=1)
            p.add(op="bwd", o=o, x=matrix(r, d, 3), y=matrix(r, gd, 9), g=matrix(r, gd, 9), slot=slots[0], first=0)
            p.add(op="apply", o=o, r_=2)
            cases.append(p.ops)
    return cases


PROPS = {"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15,
         "C16": lambda s, t: types(c16(s, t), s, "C16"), "C17": lambda s, t: types(c17(s, t), s, "C17"), "C18": c18, "C22": c22}
