"""Programs over model files and matrix streams (C23-C25), run by harness/file_main.cpp and judged
by spec/TraceFile.tla; and interrupted training (C26), run by harness/net_main.cpp and judged by
spec/TraceNetwork.tla."""
import re
import struct
from props_net import Prog, kout, matrix, pout, rng_for, vol

ACTS = ["RELU", "SIGMOID", "LINEAR", "TANGENT", "LEAKY_RELU"]
POOLS = ["MAX", "MIN", "AVG"]
PLAIN = ["cat", "dog", "horse", "zero", "one", "two", "Kernel", "x", "weights", "Softmax"]
ODD = ["0", "1", "2", "10", "-1", "a b", "two words here", " lead", "trail ", "Output labels 3", "(0) ----------", "", "3 1 1",
       "Connected Layer", "caf\u00e9", "tab\there", "1.5", "stride 2", "\"quoted\"", "100%"]


# ---------------------------------------------------------------- matrices
def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def six(x):
    s = "%.6f" % x
    return "0.000000" if s == "-0.000000" else s


def value(r, t):
    """(text given to the driver, text to six decimals)"""
    if t == "int":
        v = r.choice([0, 1, -1, r.randint(-9, 9), r.randint(-10**6, 10**6), 2147483647, -2147483648, r.randint(-2**31, 2**31 - 1)])
        return str(v), "%d.000000" % v
    kind = r.randrange(8)
    if kind == 0:
        v = r.randint(-64, 64) / 64
    elif kind == 1:
        v = r.uniform(-1, 1)
    elif kind == 2:
        v = r.uniform(-1e-6, 1e-6)
    elif kind == 3:
        v = float(r.randint(-10**9, 10**9))
    elif kind == 4:
        v = r.uniform(-1e7, 1e7)
    elif kind == 5:
        v = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1e-7, -4e-7, 5e-7, 0.9999995, -0.9999999, 999999.999999, 1e15, -1e15,
                      1e300, -1.7976931348623157e308, 3.4028234663852886e38, -1e38, 5e-324, 1e22, 123456789012345678.0])
    elif kind == 6:
        v = r.randint(-10**6, 10**6) / 10**6
    else:
        v = r.uniform(-100, 100)
    if t == "flt":
        v = f32(v if abs(v) < 3.4028235e38 else 1e30)
    return repr(v), six(v)


def tmat(r, t, d, pre=None):
    vals = [value(r, t) for _ in range(vol(d))]
    return {"t": t, "d": list(d), "x": [a for a, _ in vals], "v": [b for _, b in vals],
            "pre": list(pre if pre is not None else [r.randint(0, 3) for _ in range(3)]),
            "word": r.choice(["end", "weights", "next 1 2", "", "7", "  indented", "biases"])}


def mat_text(d, v, wide=True, num=lambda s: s):
    """v row by row, layer by layer"""
    out, k = "%d %d %d\n" % tuple(d), 0
    for z in range(d[2]):
        for x in range(d[0]):
            for y in range(d[1]):
                out += ("%16s " if wide else "%s ") % num(v[k])
                k += 1
            out += "\n"
        out += "\n"
    return out


def c23(seed, thorough):
    cases = []
    # every small shape, several to a stream
    shapes = [(a, b, c) for a in range(4) for b in range(4) for c in range(4)]
    r = rng_for(seed, "C23", "shapes")
    for t in ("int", "flt", "dbl"):
        r.shuffle(shapes)
        ms = [tmat(r, t, d) for d in shapes]
        for i in range(0, len(ms), 4):
            cases.append([{"op": "reset"}, {"op": "stream", "ms": ms[i:i + 4]}])
    for i in range(600 if thorough else 120):
        r = rng_for(seed, "C23", i)
        ms = [tmat(r, r.choice(["int", "flt", "dbl"]), r.choice([(r.randint(1, 6), r.randint(1, 6), r.randint(1, 5)), (1, r.randint(1, 12), 1), (r.randint(1, 12), 1, 1), (0, 0, 0), (2, 0, 1)]))
              for _ in range(r.randint(1, 5))]
        cases.append([{"op": "reset"}, {"op": "stream", "ms": ms}])
    # texts that can and cannot be read
    for i in range(240 if thorough else 60):
        r = rng_for(seed, "C23", "text", i)
        t = r.choice(["int", "flt", "dbl"])
        ops = [{"op": "reset"}]
        d = (r.randint(1, 3), r.randint(1, 3), r.randint(1, 3))
        vals = [value(r, t) for _ in range(vol(d))]
        num = (lambda s: s.split(".")[0]) if t == "int" else (lambda s: s)
        v = [b for _, b in vals]

        def rd(text):
            ops.append({"op": "readtext", "t": t, "text": text, "pre": [r.randint(0, 3) for _ in range(3)]})
        good = mat_text(d, v, r.random() < .5, num)
        rd(good)
        rd(good + r.choice(["more", "(1) ---\n", "5 5 5\n"]))
        last = good.rstrip().rfind(" ")            # before the last element
        last = max(last, good.rstrip().rfind("\n"))
        first = good.index("\n") + 1
        cuts = set([0, 1, first, last, last + 1] + [r.randint(0, last) for _ in range(10)])
        for k in cuts:
            if k <= last + 1:
                rd(good[:k])
        toks = list(re.finditer(r"\S+", good))
        for _ in range(6):
            m = r.choice(toks)
            rd(good[:m.start()] + r.choice(["abc", "-", "x1", "--2", "."]) + good[m.end():])
        for k in range(3):
            m = toks[k]
            rd(good[:m.start()] + "-" + m.group() + good[m.end():])
        m = r.choice(toks[3:])
        rd(good[:m.start()] + " " + good[m.end():])
        rd("")
        rd("\n\n")
        for h in r.sample(HUGE, 2):
            rd(h + "\n" + good[first:])
        rd(" ".join(r.sample(["99999999999", "1", "1"], 3)) + "\n" + good[first:])
        cases.append(ops)
    for d in [(60, 70, 1), (3, 4, 300), (1, 2500, 1), (2500, 1, 1)][:4 if thorough else 2] if seed % 2 else [(1, 2500, 1), (60, 41, 2)]:
        r = rng_for(seed, "C23xl", d)
        t = r.choice(["dbl", "int", "flt"])
        cases.append([{"op": "reset"}, {"op": "stream", "ms": [tmat(r, t, d), tmat(r, "dbl", (2, 3, 1))]}])
    return cases


# ---------------------------------------------------------------- models
NOMAT = {"d": [0, 0, 0], "v": []}


def layer(**kw):
    L = {"k": "", "fd": [0, 0, 0], "n": 0, "s": 1, "pd": [0, 0], "ps": [0, 0], "f": "", "w": dict(NOMAT), "b": dict(NOMAT)}
    L.update(kw)
    return L


def params(r, d, style):
    if style == "exact":
        v = [six(r.randint(-128, 128) / 64) for _ in range(vol(d))]
    elif style == "half":
        v = ["%.1f" % (r.randint(-9, 9) / 2) for _ in range(vol(d))]
    elif style == "unit":
        v = [six(r.uniform(-1, 1)) for _ in range(vol(d))]
    elif style == "small":
        v = [six(r.randint(-1, 1) * 1e-6) for _ in range(vol(d))]
    else:
        v = [six(r.choice([r.uniform(-1, 1), r.uniform(-1e5, 1e5), r.uniform(-1e-5, 1e-5)])) for _ in range(vol(d))]
    return {"d": list(d), "v": v}


def stack(r, depth, style, nl, soft=True, given=True, big=False):
    """Random layers that fit together: (layers, given flags, input shape)."""
    d0 = d = (r.randint(3, 8 if big else 6), r.randint(3, 8 if big else 6), r.randint(1, 2))
    ls, flat = [], False
    for i in range(depth):
        kind = r.choice(["kernel", "kernel", "pool", "act", "fc"] if not flat else ["act", "fc"])
        if kind == "kernel":
            fd = [r.randint(1, min(3, d[0])), r.randint(1, min(3, d[1])), d[2]]
            n, s = r.randint(1, 3), r.choice([1, 1, 2, 3])
            ls.append(layer(k="kernel", fd=fd, n=n, s=s, w=params(r, [fd[0], fd[1], fd[2] * n], style), b=params(r, [n, 1, 1], style)))
            d = kout(fd, n, s, d)
        elif kind == "pool":
            pd = [r.randint(1, min(3, d[0])), r.randint(1, min(3, d[1]))]
            ps = [r.randint(1, 3), r.randint(1, 3)]
            ls.append(layer(k="pool", f=r.choice(POOLS), pd=pd, ps=ps))
            d = pout(pd, ps, d)
        elif kind == "act":
            ls.append(layer(k="act", f=r.choice(ACTS)))
        else:
            n = r.randint(1, 4)
            ls.append(layer(k="fc", n=n, w=params(r, [n, vol(d), 1], style), b=params(r, [n, 1, 1], style)))
            d, flat = (n, 1, 1), True
    if soft:
        ls.append(layer(k="fc", n=nl, w=params(r, [nl, vol(d), 1], style), b=params(r, [nl, 1, 1], style)))
        ls.append(layer(k="soft"))
    flags = []
    for L in ls:
        g = 1 if given else 0
        if L["k"] in ("kernel", "fc") and not given:
            L["w"], L["b"] = dict(NOMAT), dict(NOMAT)
        if L["k"] not in ("kernel", "fc"):
            g = 1
        flags.append(g)
    return ls, flags, d0


def render(ls, labels, wide=True):
    t = ""
    for i, L in enumerate(ls):
        t += "(%d) ----------\n" % i
        k = L["k"]
        if k == "kernel":
            t += "Kernel\nx %d\ny %d\nz %d\nn %d\n" % (*L["fd"], L["n"])
            if L["s"] != 1:
                t += "stride %d\n" % L["s"]
        elif k == "pool":
            t += "Pooling\n%s\nx %d\ny %d\nstride\nx %d\ny %d\n" % (L["f"], *L["pd"], *L["ps"])
        elif k == "act":
            t += "Activation\n%s\n" % L["f"]
        elif k == "fc":
            t += "Connected Layer\nx %d\ny %d\n" % (L["w"]["d"][0], L["w"]["d"][1])
        else:
            t += "Softmax\n"
        if k in ("kernel", "fc"):
            t += "weights\n" + mat_text(L["w"]["d"], L["w"]["v"], wide) + "biases\n" + mat_text(L["b"]["d"], L["b"]["v"], wide)
    return t + "\nOutput labels %d\n" % len(labels) + "".join(s + "\n" for s in labels) + "\n"


def tokens(text):
    """Lines with their words for the specification."""
    out = []
    parts = text.split("\n")
    if parts and parts[-1] == "":
        parts.pop()
    for s in parts:
        ws = []
        for w in re.findall(r"[^ \t\r]+", s):
            if re.fullmatch(r"[+-]?\d{1,9}", w):
                ws.append({"t": "i", "s": str(int(w)), "v": int(w)})
            elif re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)", w):
                ws.append({"t": "d", "s": six(float(w)), "v": 0})
            else:
                ws.append({"t": "w", "s": w, "v": 0})
        out.append({"raw": s, "n": len(s), "w": ws})
    return out


def unpack(traces):
    """Replace texts by their lines and words."""
    for tr in traces:
        for e in tr:
            if "text" in e and "lines" not in e:
                e["lines"] = tokens(e.pop("text"))
            for k in ("texts", "ms"):           # shared with the program
                if k in e:
                    e[k] = [dict(t) for t in e[k]]
            for t in e.get("texts", []):
                t.pop("text", 0)
                if "new" in t:
                    t["lines"] = [w for s in t.pop("new") for w in tokens(s + "\n")]
            for m in e.get("ms", []):
                m.pop("x", None)
                m.pop("pre", None)
    return traces


def labels_of(r, n, odd):
    if odd:
        return [r.choice(ODD + PLAIN) for _ in range(n)]
    return r.sample(PLAIN, n)


LABEL_TYPES = {"int": [0, 1, -1, 7, 10, 42, -300, 2147483647, -2147483648, 5, 9], "size": [0, 1, 2, 3, 10, 4294967296, 18446744073709551615],
               "char": list("abcxyzKS019-("), "dbl": ["0", "1.5", "-0.25", "3", "1e+10", "-7", "0.125"]}


def typed_labels(r, n):
    t = r.choice(sorted(LABEL_TYPES))
    return t, [str(x) for x in (r.choice(LABEL_TYPES[t]) for _ in range(n))]


def inputs(r, d, n=3):
    return [matrix(r, d, 128) for _ in range(n)]


def c24(seed, thorough):
    cases = []
    for i in range(800 if thorough else 160):
        r = rng_for(seed, "C24", i)
        nl = r.randint(1, 5)
        kind = i % 8
        labels = labels_of(r, nl, kind in (1, 4))
        ops = [{"op": "reset"}]
        if kind in (0, 1, 2):           # exact parameters
            soft = kind != 2
            ls, g, d = stack(r, r.randint(0, 5) if soft else r.randint(1, 4), "exact", nl, soft=soft, big=thorough)
            xs = inputs(r, d)
            if not soft:
                labels = labels_of(r, r.randint(0, 3), r.random() < .5)
            ops.append({"op": "build", "ls": ls, "given": g, "labels": labels})
            ops.append({"op": "save", "m": 0, "f": "a"})
            ops.append({"op": "load", "f": "a"})
            ops.append({"op": "save", "m": 1, "f": "b", "again": "a"})
            ops.append({"op": "same", "a": 0, "b": 1, "xs": xs})
            ops.append({"op": "load", "f": "b"})
            ops.append({"op": "same", "a": 1, "b": 2, "xs": xs})
        elif kind in (3, 4):            # files from elsewhere
            ls, g, d = stack(r, r.randint(0, 5), r.choice(["exact", "any", "small"]), nl, big=thorough)
            xs = inputs(r, d)
            op = {"op": "put", "f": "a", "text": render(ls, labels, r.random() < .7)}
            if kind == 3:
                op.update(ls=ls, labels=labels)
            ops.append(op)
            ops.append({"op": "load", "f": "a"})
            ops.append({"op": "build", "ls": ls, "given": g, "labels": labels})
            ops.append({"op": "same", "a": 0, "b": 1, "xs": xs})
            ops.append({"op": "save", "m": 0, "f": "b"})
            ops.append({"op": "load", "f": "b"})
            ops.append({"op": "same", "a": 0, "b": 2, "xs": xs})
            ops.append({"op": "save", "m": 2, "f": "c", "again": "b"})
        elif kind == 7:                 # labels of other types, files written over others
            ls, g, d = stack(r, r.randint(0, 3), "exact", nl)
            xs = inputs(r, d)
            t, labels = typed_labels(r, nl)
            f = [r.choice([t, t, "str"]) for _ in range(4)]
            ops.append({"op": "build", "ls": ls, "given": g, "labels": labels})
            big, gb, _ = stack(r, 5, "exact", 3)
            if r.random() < .5:
                ops.append({"op": "put", "f": "a", "text": render(big, ["x", "y", "z"])})
            else:
                ops.append({"op": "put", "f": "a", "text": "\n".join(r.choice(ODD) for _ in range(400)) + "\n"})
            ops.append({"op": "save", "m": 0, "f": "a", "lt": f[0]})
            ops.append({"op": "load", "f": "a", "lt": f[1]})
            ops.append({"op": "save", "m": 1, "f": "b", "again": "a", "lt": f[2]})
            ops.append({"op": "same", "a": 0, "b": 1, "xs": xs})
            ops.append({"op": "build", "ls": big, "given": gb, "labels": ["k", "l", "m"]})
            ops.append({"op": "save", "m": 2, "f": "b"})
            ops.append({"op": "save", "m": 1, "f": "b", "again": "a", "lt": f[2]})
            ops.append({"op": "load", "f": "b", "lt": f[3]})
            ops.append({"op": "same", "a": 1, "b": 3, "xs": xs})
        else:                           # parameters from the library, used or trained
            ls, g, d = stack(r, r.randint(0, 4), "exact", nl, given=False)
            xs = inputs(r, d)
            labels = r.sample(PLAIN, nl)
            ops.append({"op": "build", "ls": ls, "given": g, "labels": labels})
            if kind == 5 and r.random() < .7:
                ops.append({"op": "use", "m": 0, "xs": xs[:1]})
            if kind == 6:
                data = [{"x": x, "lab": r.choice(labels)} for x in inputs(r, d, r.randint(1, 6))]
                ops.append({"op": "train", "m": 0, "data": data, "B": r.randint(1, 3), "T": r.randint(1, 2), "rate": r.choice([1, 10, 100])})
            ops.append({"op": "save", "m": 0, "f": "a"})
            ops.append({"op": "load", "f": "a"})
            ops.append({"op": "save", "m": 1, "f": "b", "again": "a"})
            ops.append({"op": "load", "f": "b"})
            used = any(o["op"] in ("use", "train") for o in ops)
            if used:
                ops.append({"op": "same", "a": 1, "b": 2, "xs": xs})
            else:
                ops.append({"op": "use", "m": 1, "xs": xs[:1]})
                ops.append({"op": "save", "m": 1, "f": "c"})
                ops.append({"op": "load", "f": "c"})
                ops.append({"op": "save", "m": 3, "f": "d", "again": "c"})
        cases.append(ops)
    # long models, many labels, long labels, large layers
    for i in range(8 if thorough else 3):
        r = rng_for(seed, "C24xl", i)
        nl = [300, 3, 40, 1000][i % 4]
        labels = ["label %d" % j for j in range(nl)]
        if i % 2:
            labels = ["x" * 5000, "a " * 700 + "b", "y"][:nl] + labels[3:]
        d = (20, 19, 1) if i % 4 == 2 else (2, 2, 1)
        ls = []
        for j in range([12, 130, 3, 20][i % 4]):
            k = r.choice(["act", "pool", "kernel"])
            ls.append(layer(k="act", f=r.choice(ACTS)) if k == "act" else layer(k="pool", f=r.choice(POOLS), pd=[1, 1], ps=[1, 1]) if k == "pool" else
                      layer(k="kernel", fd=[1, 1, 1], n=1, s=1, w=params(r, [1, 1, 1], "exact"), b=params(r, [1, 1, 1], "exact")))
        if i % 4 == 2:
            ls.append(layer(k="kernel", fd=[11, 12, 1], n=12, s=3, w=params(r, [11, 12, 12], "exact"), b=params(r, [12, 1, 1], "exact")))
            d = (20, 19, 1)
        n = vol(kout([11, 12, 1], 12, 3, d)) if i % 4 == 2 else vol(d)
        ls.append(layer(k="fc", n=nl, w=params(r, [nl, n, 1], "exact"), b=params(r, [nl, 1, 1], "exact")))
        ls.append(layer(k="soft"))
        xs = inputs(r, d, 1)
        cases.append([{"op": "reset"}, {"op": "build", "ls": ls, "given": [1] * len(ls), "labels": labels}, {"op": "save", "m": 0, "f": "a"}, {"op": "load", "f": "a"},
                      {"op": "save", "m": 1, "f": "b", "again": "a"}, {"op": "same", "a": 0, "b": 1, "xs": xs}])
    return cases


KEYWORDS = set("Kernel Pooling Activation Connected Layer Softmax x y z n stride weights biases Output labels".split()) | set(ACTS) | set(POOLS)


def misspell(r, w):
    k = r.randrange(4)
    if k == 0:
        return w[:-1] if len(w) > 1 else "q"
    if k == 1:
        return w.swapcase()
    if k == 2:
        return w + r.choice("sq_")
    return "q" + w[1:]


# sizes with more elements than there are numbers for
HUGE = ["65536 65536 1", "65537 65537 1", "46341 46341 1", "2 1073741824 1", "1 65536 65536", "1073741825 4 1", "131072 1 131073", "2147483647 2147483647 1"]


def damages(r, text, nl, count):
    """Texts damaged as in C25, with what was done."""
    lines = text.split("\n")
    end = max(i for i, s in enumerate(lines) if s.startswith("Output labels"))
    spots = []
    for i in range(end + 1):
        if lines[i].startswith("("):
            continue
        for m in re.finditer(r"\S+", lines[i]):
            spots.append((i, m))
    out = []

    def put(i, s, why):
        out.append({"at": i + 1, "new": [] if s is None else [s], "why": "line %d %s: %s" % (i + 1, lines[i].strip()[:30], why)})
    words = [(i, m) for i, m in spots if m.group() in KEYWORDS]
    nums = [(i, m) for i, m in spots if m.group() not in KEYWORDS]
    dims = [(i, m) for i, m in nums if re.fullmatch(r"\d+", m.group())]
    for i, m in words if count is None else r.sample(words, min(len(words), count)):
        put(i, lines[i][:m.start()] + misspell(r, m.group()) + lines[i][m.end():], "misspelt")
    for i, m in nums if count is None else r.sample(nums, min(len(nums), count)):
        put(i, lines[i][:m.start()] + lines[i][m.end():], "number missing")
        if r.random() < .5:
            put(i, lines[i][:m.start()] + "abc" + lines[i][m.end():], "not a number")
    for i, m in dims:
        put(i, lines[i][:m.start()] + "-" + m.group() + lines[i][m.end():], "negative")
        put(i, lines[i][:m.start()] + lines[i][m.end():], "number missing")
        put(i, lines[i][:m.start()].rstrip() + lines[i][m.end():], "number missing")
        put(i, lines[i][:m.start()] + r.choice(["99999999999", "2147483648", "18446744073709551617"]) + lines[i][m.end():], "not representable")
    for i, s in enumerate(lines[:end]):
        if re.fullmatch(r"\s*\d+ +\d+ +\d+ *", s):
            put(i, r.choice(HUGE), "no such size")
    for i, s in enumerate(lines[:end + 1]):
        m = re.fullmatch(r"(n|x|y|z|Output labels) +\d+", s)
        if m and (m.group(1) == "Output labels" or lines[i - 1][:1] in "Kxyz"):
            put(i, m.group(1) + " 999999999", "huge")
    for i in set(i for i, m in spots):
        put(i, None, "line missing")
    for i, m in words:
        if m.group() in ACTS or m.group() in POOLS:
            for s in ("", "FOO", "relu", "LINEAR_", "MEAN"):
                put(i, s, "unknown name")
    return out


def c25(seed, thorough):
    cases = []
    for i in range(240 if thorough else 48):
        r = rng_for(seed, "C25", i)
        nl = r.randint(1, 3)
        labels = r.sample(PLAIN[:6] if i % 2 else ["0", "1", "2", "3", "12"], nl)
        style = r.choice(["exact", "any"])
        ops = [{"op": "reset"}]
        ls, g, d = stack(r, r.randint(1, 4), style, nl)
        step = 1 if thorough or i < 24 else 3
        if i % 3 == 0:
            ops.append({"op": "build", "ls": ls, "given": g, "labels": labels})
            ops.append({"op": "save", "m": 0, "f": "a"})
            ops.append({"op": "cuts", "f": "a", "step": step})
            if labels[0].isdigit():
                ops.append({"op": "cuts", "f": "a", "step": 7, "lt": r.choice(["int", "size", "dbl"])})
            for how in ("nodir", "isdir", "full"):
                ops.append({"op": "savefail", "m": 0, "how": how})
            ops.append({"op": "load", "f": "missing"})
            ops.append({"op": "load", "f": "direct", "isdir": 1})
            ops.append({"op": "load", "f": "no/such/place"})
            ops.append({"op": "load", "f": "a"})
        elif i % 3 == 1:
            text = render(ls, labels, i % 2 == 0)
            ops.append({"op": "put", "f": "a", "text": text})
            ops.append({"op": "load", "f": "a"})
            ops.append({"op": "cuts", "f": "a", "step": step})
            # short numbers, so that none of them gives a huge matrix where it is taken for a dimension
            text = render(stack(r, r.randint(1, 4), "half", nl)[0], labels[:1])
            bad = []
            for _ in range(300 if thorough else 60):
                t = list(text)
                for _ in range(r.choice([1, 1, 2, 5])):
                    k = r.randrange(len(t))
                    if not t[k].isdigit():
                        t[k] = r.choice(" \n-.axZ(\t")
                bad.append({"text": "".join(t), "why": "bytes"})
            ops.append({"op": "damage", "texts": bad, "any": 1})
        else:
            text = render(ls, labels)
            ops.append({"op": "put", "f": "a", "text": text})
            ops.append({"op": "load", "f": "a"})
            all_of = damages(r, text, nl, None if thorough else 12)
            for k in range(0, len(all_of), 40):
                ops.append({"op": "damage", "f": "a", "texts": all_of[k:k + 40]})
        cases.append(ops)
    return cases


# ---------------------------------------------------------------- interrupted training
def c26(seed, thorough):
    """Exact training runs with reloads in between, judged by Network."""
    import props_train as pt
    cases, i = [], 0
    while len(cases) < (300 if thorough else 90):
        i += 1
        r = rng_for(seed, "C26", i)
        kind = pt.KINDS[i % len(pt.KINDS)]
        deep = kind in ("fcfc", "relu", "kernel", "deep")
        segs = r.randint(1, 2 if deep else 4)
        B = r.choice([1, 2, 2, 4] if deep else [1, 2, 3, 4, 5])
        Ns = [r.randint(1, B if deep else 2 * B) for _ in range(segs)]
        nl = r.randint(2, 4)
        cs, d, shapes = pt.net_of(kind, r, nl)
        X, W = r.choice([(1, 1), (2, 1), (2, 2)])
        cnts = set().union(*[pt.sizes(N, B) for N in Ns])
        rate = 1
        for c in cnts:
            rate = pt.lcm(rate, c)
        steps = sum((N + B - 1) // B for N in Ns)
        if kind in ("relu", "pool", "deep") and steps > 1 and any(c & (c - 1) for c in cnts):
            continue
        if pt.bound(cs, shapes, X, W, steps, rate) * rate * max(cnts) > 2 ** 23:
            continue
        p = Prog(r, 1)
        p.add(op="net", cs=cs + [{"k": "snap", "n": nl}], labels=pt.LABELS[:nl])
        for j, c in enumerate(cs):
            if c["k"] == "kernel":
                p.add(op=r.choice(["set", "dset"]), o=j, w=matrix(r, (c["fd"][0], c["fd"][1], c["fd"][2] * c["n"]), W), b=matrix(r, (c["n"], 1, 1), W))
            elif c["k"] == "fc":
                p.add(op=r.choice(["set", "dset"]), o=j, w=matrix(r, (c["n"], vol(shapes[j]), 1), W), b=matrix(r, (c["n"], 1, 1), W))
        for k, N in enumerate(Ns):
            if r.random() < .8 or k == 0:
                p.add(op="reload", m=0)
            if r.random() < .5:
                p.add(op="nfwd", m=0, x=matrix(r, d, X), slot=0)
            data = pt.points(r, N, d, nl, X)
            if r.random() < .3 and steps < 3:
                # one point at a time
                p.add(op="nsetb", m=0, n=N)
                for s, q in enumerate(data):
                    p.add(op="nfwd", m=0, x=q["x"], slot=s)
                    if r.random() < .3:
                        p.add(op="nsave", m=0)
                    p.add(op="nbwd", m=0, lab=q["lab"], slot=s)
                if r.random() < .6:
                    p.add(op="nsave", m=0)
                p.add(op="napply", m=0, r_=rate if N in cnts else N)
            else:
                p.add(op=r.choice(["epoch", "train"]), m=0, data=data, B=B, T=r.randint(1, 3), E=1, r_=rate)
            if r.random() < .4:
                # the slots of the last batch are still there after saving
                p.add(op="nsave", m=0)
                p.add(op="nfwd", m=0, x=matrix(r, d, X), slot=r.randint(0, min(N, B) - 1))
        p.add(op="reload", m=0)
        p.add(op="nfwd", m=0, x=matrix(r, d, X), slot=0)
        cases.append(p.ops)
    return cases


def c26_twins(seed, thorough):
    """A model and what was loaded from its file, trained on the same batches."""
    cases = []
    for i in range(200 if thorough else 60):
        r = rng_for(seed, "C26twin", i)
        nl = r.randint(2, 4)
        labels = r.sample(PLAIN, nl)
        ls, g, d = stack(r, r.randint(0, 5), r.choice(["exact", "unit"]), nl, big=thorough)
        ops = [{"op": "reset"}, {"op": "build", "ls": ls, "given": g, "labels": labels}]
        ops.append({"op": "save", "m": 0, "f": "a"})
        ops.append({"op": "load", "f": "a"})
        for _ in range(r.randint(1, 2)):
            data = [{"x": x, "lab": r.choice(labels)} for x in inputs(r, d, r.randint(1, 7))]
            ops.append({"op": "twins", "a": 0, "b": 1, "data": data, "B": r.randint(1, 4), "rate": r.choice([1, 10, 100]), "xs": inputs(r, d, 2)})
        cases.append(ops)
    return cases
