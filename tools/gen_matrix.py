"""Programs for the matrix driver (C01-C07) and the C++ functions for the expressions in them.

A program is a list of operations on a few matrices and views; spec/MatrixStore.tla gives their
meaning. This file only chooses operations and operands: it tracks shapes and a bound on the
magnitude and the number of fraction bits of every matrix, so that no case needs rounding or more
than 31 bits, but never computes a value."""
import itertools
import json
import random

CPP = {"int": "int", "flt": "float", "dbl": "double", "u8": "u8"}
RANK = {"u8": 0, "int": 1, "flt": 2, "dbl": 3}
OPS = ["+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="]
CMP = OPS[4:]
LIM = float(1 << 29)
CATS = ["m", "c", "v", "cv", "t"]        # named, const, view, const view, temporary


def common(a, b):
    return a if RANK[a] >= RANK[b] else b
MAX_INT = 2 ** 31 - 1


class Reject(Exception):
    """The operation would leave the range the specification can compute exactly."""


class Mat:
    def __init__(self, t):
        self.t, self.d, self.mag, self.fb, self.p2 = t, (0, 0, 0), 0.0, 0, False


def vol(d):
    return d[0] * d[1] * d[2]


# ------------------------------------------------------------------------------------------------
# C++ for expressions
# ------------------------------------------------------------------------------------------------
class Codegen:
    def __init__(self):
        self.keys, self.bodies = {}, []

    def key(self, n):
        """Everything about a node that decides its C++ type."""
        k = n["n"]
        if k in ("m", "c", "t", "v", "cv", "sc", "w"):
            base = (k, n["ty"])
        elif k in ("bin", "mm", "conv"):
            base = (k, n.get("op"), self.key(n["a"]), self.key(n["b"]))
        elif k in ("sr", "sl"):
            base = (k, n["op"], n["st"], self.key(n["a"]))
        elif k == "apply":
            base = (k, n["f"], n.get("mem", 0), self.key(n["a"]))
        elif k == "tr":
            base = (k, self.key(n["a"]))
        else:
            base = (k, n["c"], self.key(n["a"]))
        return base + (n.get("nm", 0),)

    def expr(self, n, path, pre):
        k = n["n"]
        T = CPP.get(n.get("ty"), "?")
        if k == "m":
            s = "c.mat<%s>(%s[\"k\"])" % (T, path)
        elif k == "c":
            s = "std::as_const(c.mat<%s>(%s[\"k\"]))" % (T, path)
        elif k == "t":
            s = "SimpleMatrix<%s>(c.mat<%s>(%s[\"k\"]))" % (T, T, path)
        elif k == "v":
            s = "walk(c.mat<%s>(%s[\"k\"]), %s[\"p\"])" % (T, path, path)
        elif k == "cv":
            s = "walk(std::as_const(c.mat<%s>(%s[\"k\"])), %s[\"p\"])" % (T, path, path)
        elif k == "sc":                 # the library's own copy of a region
            s = "c.mat<%s>(%s[\"k\"]).subMatCopy(D3(%s[\"p\"][0][\"s\"]), D3(%s[\"p\"][0][\"d\"]))" % (T, path, path, path)
        elif k == "w":
            s = "c.view<%s>(%s[\"w\"])" % (T, path)
        elif k == "bin":
            s = "(%s %s %s)" % (self.expr(n["a"], path + '["a"]', pre), n["op"], self.expr(n["b"], path + '["b"]', pre))
        elif k == "sr":
            s = "(%s %s c.num<%s>(%s[\"x\"]))" % (self.expr(n["a"], path + '["a"]', pre), n["op"], CPP[n["st"]], path)
        elif k == "sl":
            s = "(c.num<%s>(%s[\"x\"]) %s %s)" % (CPP[n["st"]], path, n["op"], self.expr(n["a"], path + '["a"]', pre))
        elif k == "apply":
            a = self.expr(n["a"], path + '["a"]', pre)
            s = "%s.abs()" % a if n.get("mem") else "my_cnn::abs(%s)" % a if n["f"] == "abs" else "my_cnn::apply(%s, %s)" % (a, LAMBDA[n["f"]])
        elif k == "tr":
            s = "my_cnn::transpose(%s)" % self.expr(n["a"], path + '["a"]', pre)
        elif k == "rot":
            s = "my_cnn::rotate<%d>(%s)" % (n["c"], self.expr(n["a"], path + '["a"]', pre))
        elif k == "mm":
            s = "my_cnn::matrixMultiply(%s, %s)" % (self.expr(n["a"], path + '["a"]', pre), self.expr(n["b"], path + '["b"]', pre))
        elif k == "conv":
            s = "my_cnn::convolve(%s, %s, dim2(%s[\"s\"][0].i(), %s[\"s\"][1].i()))" % (
                self.expr(n["a"], path + '["a"]', pre), self.expr(n["b"], path + '["b"]', pre), path, path)
        else:
            raise ValueError(k)
        if n.get("nm"):                 # a named intermediate: used as an lvalue
            v = "n%d" % len(pre)
            pre.append("auto %s = %s;" % (v, s))
            return v
        return s

    def target(self, tg):
        T = CPP[tg["ty"]]
        if tg["n"] == "m":
            return "c.mat<%s>(e[\"tg\"][\"k\"])" % T
        return "c.view<%s>(e[\"tg\"][\"w\"])" % T

    def add(self, e):
        """Give the operation e its generated function, if it needs one."""
        op = e["op"]
        if op in ("eval", "shapeof", "iter", "reduce", "meanr", "norm", "print", "image"):
            how = e.get("how")
            k = (op, how, e.get("f"), e.get("post"), e.get("cst"), e.get("as"), self.key(e["a"]))
        elif op == "exp":
            k = (op, e["how"], self.key(e["a"]))
        elif op == "evalw":
            k = (op, e["how"], e["ty"], self.key(e["a"]))
        elif op == "assign":
            k = (op, e["how"], e["ty"], self.key(e["a"]))
        elif op == "vassign":
            k = (op, e["ty"], self.key(e["a"]))
        elif op == "ipm":
            k = (op, e["o"], e["tg"]["n"], e["tg"]["ty"], self.key(e["a"]))
        elif op == "ips":
            k = (op, e["o"], e["tg"]["n"], e["tg"]["ty"], e["st"])
        elif op == "ipe":
            k = (op, e["o"], e["tg"]["n"], e["tg"]["ty"], e["ty"])
        elif op == "modify":
            k = (op, e["f"], e["tg"]["n"], e["tg"]["ty"])
        elif op == "equal":
            k = (op, e["how"], self.key(e["a"]), self.key(e["b"]))
        elif op == "dot":
            k = (op, self.key(e["a"]), self.key(e["b"]))
        else:
            return e
        if k not in self.keys:
            self.keys[k] = len(self.bodies)
            self.bodies.append(self.body(e))
        e["fn"] = self.keys[k]
        return e

    def body(self, e):
        op, pre = e["op"], []
        if op == "eval":
            x = self.expr(e["a"], 'e["a"]', pre)
            b = 'auto&& r = %s; return "[" + jd(r.dim()) + "," + readAll(r, "%s", c.S) + "]";' % (x, e["how"])
        elif op == "shapeof":
            x = self.expr(e["a"], 'e["a"]', pre)
            b = "const auto& r = %s; return shapeAll(r);" % x
        elif op == "exp":
            x = self.expr(e["a"], 'e["a"]', pre)
            b = 'auto&& r = my_cnn::exp(%s); return "[" + jd(r.dim()) + "," + readSci(r, "%s") + "]";' % (x, e["how"])
        elif op == "evalw":
            x = self.expr(e["a"], 'e["a"]', pre)
            b = ('auto&& r = %s; Out o; dim3 j = D3(e["j"]); o.num(exactNum(r(j), c.S)); '
                 'c.mat<%s>(e["k"])(D3(e["i"])) = c.num<%s>(e["x"]); o.num(exactNum(r(j), c.S)); '
                 'o.raw(readAll(r, "%s", c.S)); return o.done();' % (x, CPP[e["ty"]], CPP[e["ty"]], e["how"]))
        elif op in ("print", "image"):
            x = self.expr(e["a"], 'e["a"]', pre)
            b = "const auto& r = %s; return %s;" % (x, 'printAny(r, e["to"].s(), e["fmt"].s(), "%s")' % e.get("as", "") if op == "print" else "imageAll(r)")
        elif op == "iter":
            x = self.expr(e["a"], 'e["a"]', pre)
            m = "std::as_const(r)" if e["cst"] else "r"
            b = "auto&& r = %s; return iterAll(%s, %s, c.S);" % (x, m, "true" if e["post"] else "false")
        elif op in ("reduce", "meanr", "norm"):
            x = self.expr(e["a"], 'e["a"]', pre)
            f = e.get("f")
            b = "const auto& r = %s; Out o; " % x
            if op == "meanr":
                b += "o.num(roundNum(my_cnn::mean(r), c.S));"
            elif op == "norm":
                b += "o.num(roundNum(my_cnn::l2Norm(r), c.S));"
            elif f in ("maxIdx", "minIdx"):
                b += "dim3 i = my_cnn::%sIndex(r); o.num(i.x); o.num(i.y); o.num(i.z);" % f[:3]
            elif f in ("maxPos", "minPos"):
                b += "o.num(r.%sIndex());" % f[:3]
            else:
                b += "o.num(exactNum(my_cnn::%s(r), c.S));" % f
            b += " return o.done();"
        elif op == "assign":
            x = self.expr(e["a"], 'e["a"]', pre)
            T = CPP[e["ty"]]
            if e["how"] == "asg":
                b = "c.mat<%s>(e[\"k\"]) = %s; return \"\";" % (T, x)
            else:
                b = "SimpleMatrix<%s> X(%s); c.mat<%s>(e[\"k\"]) = std::move(X); return \"\";" % (T, x, T)
        elif op == "vassign":
            x = self.expr(e["a"], 'e["a"]', pre)
            b = "c.view<%s>(e[\"w\"]) = %s; return \"\";" % (CPP[e["ty"]], x)
        elif op == "ipm":
            x = self.expr(e["a"], 'e["a"]', pre)
            b = "%s %s= %s; return \"\";" % (self.target(e["tg"]), e["o"], x)
        elif op == "ips":
            b = "%s %s= c.num<%s>(e[\"x\"]); return \"\";" % (self.target(e["tg"]), e["o"], CPP[e["st"]])
        elif op == "ipe":
            b = "%s %s= c.mat<%s>(e[\"k\"])(D3(e[\"i\"])); return \"\";" % (self.target(e["tg"]), e["o"], CPP[e["ty"]])
        elif op == "modify":
            b = "my_cnn::modify(%s, %s); return \"\";" % (self.target(e["tg"]), LAMBDA[e["f"]])
        elif op == "equal":
            x = self.expr(e["a"], 'e["a"]', pre)
            y = self.expr(e["b"], 'e["b"]', pre)
            eps = ", e[\"eps\"].d()/c.S" if e["how"] == "eps" else ""
            b = "Out o; o.num(my_cnn::matrixEqual(%s, %s%s)); return o.done();" % (x, y, eps)
        elif op == "dot":
            x = self.expr(e["a"], 'e["a"]', pre)
            y = self.expr(e["b"], 'e["b"]', pre)
            b = "Out o; o.num(exactNum(my_cnn::dot(%s, %s), c.S)); return o.done();" % (x, y)
        return " ".join(pre) + " " + b

    def emit(self, work, files):
        import os
        out = []
        for f in range(files):
            p = os.path.join(work, "gen%d.cpp" % f)
            with open(p, "w") as o:
                o.write('#include "mat.h"\n')
                for i, b in enumerate(self.bodies):
                    if i % files != f:
                        continue
                    o.write("static std::string fn%d(Ctx& c, const Val& e){%s}\nstatic Registrar r%d(%d, fn%d);\n" % (i, b, i, i, i))
            out.append(p)
        return out


LAMBDA = {
    "id": "[](auto x){return x;}", "neg": "[](auto x){return -x;}", "dbl": "[](auto x){return x+x;}",
    "inc": "[](auto x){return x+1;}", "half": "[](auto x){return x*0.5;}", "sq": "[](auto x){return x*x;}",
    "pos": "[](auto x){return x > 0 ? x : decltype(x)(0);}", "abs": "[](auto x){return x < 0 ? -x : x;}",
}


# ------------------------------------------------------------------------------------------------
# Program builder
# ------------------------------------------------------------------------------------------------
class Prog:
    def __init__(self, rng, types, nv=0, S=1, big=False):
        self.r, self.S, self.big = rng, S, big
        self.m = [Mat(t) for t in types]
        self.v = [None] * nv                  # (k, start, dim)
        self.fbmax = S.bit_length() - 1
        self.ops = [{"op": "reset", "types": list(types), "nv": nv, "S": S}]

    # --- values ---
    def value(self, t, kind="any"):
        """A scaled integer and its bounds (magnitude, fraction bits)."""
        r, S = self.r, self.S
        if kind == "p2":
            c = r.choice([1, -1, 2, -2, 4] + ([0.5, -0.5, 0.25] if S >= 64 and t in ("dbl", "flt") else []))
            return int(c * S)
        if t == "u8":
            return r.randint(0, 15) * S
        if self.big and S == 1 and t in ("int", "dbl") and r.random() < 0.5:
            return r.choice([-1, 1]) * ((1 << 24) + 2 * r.randint(0, 1 << 20) + 1)
        if t == "int" or S == 1:
            return r.choice([r.randint(-9, 9), r.randint(-9, 9), r.randint(-3, 3), 0]) * S
        if self.big and t == "dbl" and r.random() < 0.3:
            return r.choice([-1, 1]) * ((1 << 24) + 2 * r.randint(0, 1 << 10) + 1)      # 25 significant bits
        return r.randint(-36, 36) * (S // 4)

    def bounds(self, vals):
        S = self.S
        mag = max([abs(v) for v in vals] or [0]) / S
        fb = 0
        for v in vals:
            while (v * (1 << fb)) % S:
                fb += 1
        return mag, fb

    def values(self, t, n, kind="any"):
        if kind == "distinct":
            base = list(range(-(n // 2), n - n // 2))
            if t == "u8":
                base = [i % 256 for i in range(n)]
            self.r.shuffle(base)
            return [b * self.S for b in base]
        return [self.value(t, kind) for _ in range(n)]

    # --- operations ---
    def add(self, **e):
        self.ops.append(e)
        return e

    def fill(self, k, d, kind="any", how=None):
        """Give matrix k the shape d and fresh values, one way or another."""
        m = self.m[k]
        how = how or self.r.choice(["ctorv", "setent", "vec"])
        vals = self.values(m.t, vol(d), kind)
        if how == "ctorv":
            self.add(op="ctorv", k=k, d=list(d), v=vals)
        else:
            self.add(op="ctor", k=k, d=list(d), x=0, q=1)
            self.add(op=how, k=k, v=vals)
        m.d = tuple(d)
        m.mag, m.fb = self.bounds(vals)
        m.p2 = kind == "p2"
        for i, v in enumerate(self.v):
            if v and v[0] == k:
                self.v[i] = None

    def shape(self, lo=1, hi=4):
        return tuple(self.r.randint(lo, hi) for _ in range(3))

    def region(self, d):
        """A random region inside a shape."""
        s, e = [], []
        for n in d:
            a = self.r.randint(0, n)
            b = self.r.randint(a, n)
            if self.r.random() < 0.2:
                a, b = 0, n
            elif b == a and n > 0 and self.r.random() < 0.85:
                a = self.r.randint(0, n - 1)
                b = self.r.randint(a + 1, n)
            s.append(a)
            e.append(b - a)
        return s, e

    def bad_region(self, d):
        s, e = self.region(d)
        ax = self.r.randrange(3)
        kind = self.r.choice(["neg", "over", "negext", "far", "past", "huge", "hugest", "least"])
        if kind == "neg":
            s[ax] = -self.r.randint(1, 3)
            if self.r.random() < 0.5:
                e[ax] = max(e[ax], self.r.randint(1, 3))
        elif kind == "over":
            e[ax] = d[ax] - s[ax] + 1
        elif kind == "negext":
            e[ax] = -self.r.randint(1, 3)
        elif kind == "far":
            e[ax] = d[ax] - s[ax] + self.r.randint(2, 300)
        elif kind == "huge":            # an end that is no int
            s[ax] = self.r.randint(0, d[ax])
            e[ax] = MAX_INT - self.r.randint(0, max(s[ax] - 1, 1))
        elif kind == "hugest":
            s[ax] = MAX_INT - self.r.randint(0, 2)
            e[ax] = self.r.choice([0, 1, 2, MAX_INT])
        elif kind == "least":
            if self.r.random() < .5:
                s[ax] = -MAX_INT - 1
            else:
                e[ax] = -MAX_INT - 1
        else:
            s[ax] = d[ax] + self.r.randint(1, 3)
        return s, e

    def step(self, d, bad=False):
        """One step of a view path from a shape; returns (step, resulting start, resulting shape)."""
        r = self.r
        if r.random() < 0.5:
            s, e = self.bad_region(d) if bad else self.region(d)
            return {"n": "sub", "s": s, "d": e}, s, tuple(e)
        if bad:
            i = r.choice([-1, -2, d[2], d[2] + 1])
            n = 1
            if r.random() < 0.2:
                i = r.choice([MAX_INT, -MAX_INT - 1])
            elif r.random() < 0.5 and d[2] > 0:
                i = r.randint(0, d[2] - 1)
                n = r.choice([d[2] - i + r.randint(1, 2), d[2] - i + r.randint(1, 2), MAX_INT, MAX_INT - i])
                return {"n": "slices", "i": i, "c": n}, [0, 0, i], (d[0], d[1], n)
            return {"n": "slice", "i": i}, [0, 0, i], (d[0], d[1], 1)
        if d[2] == 0:
            return {"n": "slices", "i": 0, "c": 0}, [0, 0, 0], (d[0], d[1], 0)
        i = r.randint(0, d[2] - 1)
        if r.random() < 0.5:
            return {"n": "slice", "i": i}, [0, 0, i], (d[0], d[1], 1)
        c = r.randint(1, d[2] - i)
        return {"n": "slices", "i": i, "c": c}, [0, 0, i], (d[0], d[1], c)

    def path_to(self, d, want, depth=2):
        """A path from shape d to a region of shape `want` (which fits)."""
        r = self.r
        path = []
        cur = tuple(d)
        for _ in range(r.randint(0, depth - 1)):
            s = [r.randint(0, cur[i] - want[i]) for i in range(3)]
            e = [r.randint(want[i], cur[i] - s[i]) for i in range(3)]
            path.append({"n": "sub", "s": s, "d": e})
            cur = tuple(e)
        if want[0] == cur[0] and want[1] == cur[1] and r.random() < 0.6:
            i = r.randint(0, cur[2] - want[2])
            path.append({"n": "slice", "i": i} if want[2] == 1 and r.random() < .5 else {"n": "slices", "i": i, "c": want[2]})
        else:
            s = [r.randint(0, cur[i] - want[i]) for i in range(3)]
            path.append({"n": "sub", "s": s, "d": list(want)})
        return path

    # --- expression nodes with bounds: (node, type, dim, mag, fb) ---
    def check(self, t, mag, fb):
        if mag * self.S >= LIM or fb > self.fbmax:
            raise Reject()
        if t == "flt" and mag * (1 << fb) >= (1 << 24):
            raise Reject()

    def leaf(self, k, cat, want=None):
        m = self.m[k]
        n = {"n": cat, "k": k, "ty": m.t}
        d = m.d
        if cat in ("v", "cv"):
            want = want or m.d
            n["p"] = self.path_to(m.d, want)
            d = tuple(want)
        elif want is not None and tuple(want) != m.d:
            raise Reject()
        return n, m.t, d, m.mag, m.fb

    def bin(self, op, A, B):
        a, ta, da, ma, fa = A
        b, tb, db, mb, fb = B
        t = common(ta, tb)
        n = {"n": "bin", "op": op, "a": a, "b": b}
        mag, f = self.opbounds(op, t, ma, fa, mb, fb)
        return n, t, da, mag, f

    def opbounds(self, op, t, ma, fa, mb, fb, p2=False):
        S = self.S
        if op in ("+", "-"):
            r = (ma + mb, max(fa, fb))
        elif op == "*":
            if ma * S * mb * S >= (1 << 30):
                raise Reject()
            r = (ma * mb, fa + fb)
        elif op == "/":
            if t in ("int", "u8"):
                r = (ma, 0)
            else:
                if ma * S * S >= (1 << 30):
                    raise Reject()
                r = (ma * 4, fa + 2)
        else:
            r = (1, 0)
        self.check(t, *r)
        return r

    def scalar(self, op, A, left=False, st=None):
        a, ta, da, ma, fa = A
        st = st or self.r.choice(["int", "dbl", ta if ta != "u8" else "int"])
        t = common(ta, st)
        if op == "/" and not left and t not in ("int", "u8"):
            x = self.value(st, "p2")
        else:
            x = self.value(st, "any")
            if op == "/" and not left:
                while x == 0:
                    x = self.value(st, "any")
        if st == "int":
            x = (abs(x) // self.S) * self.S * (1 if x >= 0 else -1)
            if op == "/" and x == 0:
                x = self.S
        mx, fx = self.bounds([x])
        if left:
            mag, f = self.opbounds(op, t, mx, fx, ma, fa)
        else:
            mag, f = self.opbounds(op, t, ma, fa, mx, fx)
        return {"n": "sl" if left else "sr", "op": op, "st": st, "x": x, "a": a}, t, da, mag, f

    def unary(self, f, A):
        a, t, d, m, fb = A
        if f == "dbl":
            m = 2 * m
        elif f == "inc":
            m = m + 1
        elif f == "half":
            if t not in ("int", "u8"):
                fb += 1
        elif f == "sq":
            if (m * self.S) ** 2 >= (1 << 30):
                raise Reject()
            m, fb = m * m, 2 * fb
        if t == "u8" and f in ("neg", "sq", "dbl"):
            raise Reject()
        self.check(t, m, fb)
        return {"n": "apply", "f": f, "a": a}, t, d, m, fb

    def snap(self):
        return len(self.ops)


def named(A, rng, p=0.3):
    """Sometimes make an intermediate result a named one."""
    n = A[0]
    if n["n"] not in ("m", "c", "w") and rng.random() < p:
        n["nm"] = 1
    return A


def flat_cases(progs):
    return [p.ops for p in progs]
