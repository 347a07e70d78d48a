"""C01-C07: programs over the matrix library, validated against MatrixStore."""
import json
import os
import random
import re
import time
import gen_matrix
import props_matrix
import vlib


def build(c, cases):
    cg = gen_matrix.Codegen()
    for ops in cases:
        for e in ops:
            cg.add(e)
    files = cg.emit(c.work, min(8, max(1, len(cg.bodies) // 4)))
    c.notes["expression_shapes_compiled"] = len(cg.bodies)
    return c.build("matdrv", [os.path.join(vlib.HARNESS, "mat_main.cpp")] + files, opt="-O0")


def cfg(c, name, text):
    path = os.path.join(c.work, name + ".cfg")
    with open(path, "w") as f:
        f.write(text + "\nCHECK_DEADLOCK FALSE\n")
    return path


GROUP = {"C02": "view", "C04": "inplace", "C05": "value"}
LAWS = {"C01": ("Bijective RowOrder", ()), "C02": ("Regions", ()),
        "C06": ("TransposeTwice Turns Products Dots", (("turn", "Turns"), ("product", "Products"))),
        "C07": ("Reductions", (("tie", "Reductions"),))}


def laws(c):
    """Laws of the operators, for every small shape: the specification says what it is meant to say."""
    if c.id not in LAWS:
        return
    inv, controls = LAWS[c.id]
    text = "SPECIFICATION Spec\nCONSTANTS\n Side = %d\n Seeds = %s\n Fault = \"%s\"\nINVARIANTS %s"
    side, seeds = (4, "{1, 2, 3}") if c.thorough else (3, "{1}")
    c.design("TensorLaws.tla", cfg(c, "TensorLaws", text % (side, seeds, "none", inv)), workers="8")
    for fault, broken in controls:
        c.design("TensorLaws.tla", cfg(c, "TensorLaws-" + fault, text % (2, "{1}", fault, inv)), expect=broken + " is violated")


def programs(c):
    """Every program of up to Depth operations of the closed model (MatrixGen), its frame conditions checked on the way."""
    if c.id not in GROUP:
        return []
    text = "SPECIFICATION GenSpec\nCONSTANTS\n Group = \"%s\"\n Depth = %d\n Leak = %s\nINVARIANTS GenShapes %s\nPROPERTIES Frame ViewFrame"
    depth = 3 if c.thorough else 2
    out = c.design("MatrixGen.tla", cfg(c, "MatrixGen", text % (GROUP[c.id], depth, "FALSE", "Emit")), workers="8")
    if c.id == "C05":
        c.design("MatrixGen.tla", cfg(c, "MatrixGen-leak", text % ("value", 1, "TRUE", "")), expect="GenShapes is violated|Frame is violated|property Frame")
    progs = sorted(set(re.findall(r'^"PROG (.*)"$', out, re.M)))
    if not progs:
        raise vlib.CheckError("no programs generated")
    c.notes["programs_generated"] = len(progs)
    limit = 40000 if c.thorough else 5000
    if len(progs) > limit:
        progs = random.Random(c.seed).sample(progs, limit)
    cases = []
    for p in progs:
        ops = json.loads(json.loads('"' + p + '"'))
        for e in ops[:4]:
            e["q"] = 1
        cases.append(ops)
    c.notes["programs_run"] = len(cases)
    return cases


def run(c):
    laws(c)
    cases = props_matrix.PROPS[c.id](c.seed, c.thorough) + programs(c)
    if c.id in props_matrix.XL:
        cases = props_matrix.xl(c.id, c.seed, c.thorough) + cases
    exe = build(c, cases)
    t = time.time()
    c.conform(exe, cases, "TraceMatrix")
    c.notes["conformance_s"] = round(time.time() - t, 1)
    return c.finish("each case is a program over a few matrices and views; every operation's outcome, result and the contents of all matrices are compared with MatrixStore")
