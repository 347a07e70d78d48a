"""C08-C18, C22: programs over layers and models, validated against Network."""
import json
import os
import random
import re
import time
import props_matrix
import props_net
import run_matrix
import vlib


LAWS = {"C08": ("TensorLaws", "Correlation", ()),
        "C09": ("kernel", "KernelLaw KernelAlgorithm", (("noturn", "KernelAlgorithm"), ("channel", "KernelAlgorithm"))),
        "C10": ("pool", "PoolLaw", ()), "C11": ("pool", "PoolLaw", ()), "C12": ("fc", "FcLaw", ()),
        "C13": ("act", "ActLaw", ()), "C14": ("act", "SoftLaw", ())}


def laws(c):
    """The gradients of the specification are the derivatives of its forward functions."""
    if c.id not in LAWS:
        return
    kind, inv, controls = LAWS[c.id]
    if kind == "TensorLaws":
        text = "SPECIFICATION Spec\nCONSTANTS\n Side = %d\n Seeds = {1, 2}\n Fault = \"none\"\nINVARIANTS %s"
        c.design("TensorLaws.tla", run_matrix.cfg(c, "TensorLaws", text % (6 if c.thorough else 4, inv)), workers="8")
        return
    text = "SPECIFICATION Spec\nCONSTANTS\n Kinds = {\"%s\"}\n Big = %d\n Fault = \"%s\"\nINVARIANTS %s"
    big = 5 if c.thorough else 3
    c.design("LayerLaws.tla", run_matrix.cfg(c, "LayerLaws", text % (kind, big, "none", inv)), workers="8")
    for fault, broken in controls:
        c.design("LayerLaws.tla", run_matrix.cfg(c, "LayerLaws-" + fault, text % (kind, 2, fault, inv)), expect=broken + " is violated")


CONTROLS = {"C15": ("net", "refused", "RefusedKeeps"), "C16": ("net", "shared", "Slots"), "C17": ("net", "shared", "Slots"),
            "C18": ("fc", "eager", "Updates"), "C26": ("save", "save", "Saving")}
WANTED = {"C15": lambda ops: any(e["op"] == "nfwd" and len(e["x"]["v"]) == 2 or e.get("lab") == "C" for e in ops),
          "C16": lambda ops: sum(e["op"] in ("nfwd", "nloss") for e in ops) >= 2,
          "C26": lambda ops: any(e["op"] == "nbwd" for e in ops) and any(e["op"] in ("nsave", "reload") for e in ops),
          "C17": lambda ops: any(e["op"] == "nbwd" and e["lab"] != "C" for e in ops)}


def programs(c):
    """Every program of up to Depth operations of the closed model (NetGen)."""
    if c.id not in CONTROLS:
        return []
    text = "SPECIFICATION GenSpec\nCONSTANTS\n Group = \"%s\"\n Depth = %d\n Fault = \"%s\"\nINVARIANTS GenShapes %s\nPROPERTIES Refused Updates Slots Saving"
    group, fault, broken = CONTROLS[c.id]
    c.design("NetGen.tla", run_matrix.cfg(c, "NetGen-" + fault, text % (group, 2, fault, "")), expect=broken + " is violated")
    if c.id == "C18":
        groups = [("fc", 5 if c.thorough else 3), ("kernel", 4 if c.thorough else 3)]
    elif c.id == "C26":
        groups = [("save", 5 if c.thorough else 4)]
    else:
        groups = [("net", 4 if c.thorough else 3)]
    progs = []
    for g, depth in groups:
        out = c.design("NetGen.tla", run_matrix.cfg(c, "NetGen-" + g, text % (g, depth, "none", "Emit")), workers="8")
        progs += sorted(set(re.findall(r'^"PROG (.*)"$', out, re.M)))
    if not progs:
        raise vlib.CheckError("no programs generated")
    c.notes["programs_generated"] = len(progs)
    cases = [json.loads(json.loads('"' + p + '"')) for p in progs]
    if c.id in WANTED:
        cases = [x for x in cases if WANTED[c.id](x)]
    limit = 12000 if c.thorough else 2000
    if len(cases) > limit:
        cases = random.Random(c.seed).sample(cases, limit)
    c.notes["programs_run"] = len(cases)
    return cases


def run(c):
    laws(c)
    cases = props_net.xl(c.id, c.seed, c.thorough) + props_net.PROPS[c.id](c.seed, c.thorough) + programs(c)
    exe = c.build("netdrv", [os.path.join(vlib.HARNESS, "net_main.cpp")] + vlib.layer_sources(), opt="-O0")
    mexe = None
    if c.id == "C08":
        conv = props_matrix.convolve(c.seed, c.thorough)
        mexe = run_matrix.build(c, conv)
    t = time.time()
    c.conform(exe, cases, "TraceNetwork")
    if mexe:
        c.conform(mexe, conv, "TraceMatrix", tag="m")
    if c.id == "C22":
        tsan = c.build("nettsan", [os.path.join(vlib.HARNESS, "net_main.cpp")] + vlib.layer_sources(), san="tsan", opt="-O1")
        for k in range(6 if c.thorough else 2):
            conc = props_net.c22(c.seed + k, c.thorough, True, 24)
            c.conform(exe, conc, "TraceNetwork", tag="c%d" % k)
            c.conform(tsan, conc, "TraceNetwork", tag="ts%d" % k)
    c.notes["conformance_s"] = round(time.time() - t, 1)
    return c.finish("each case is a program over layer objects and models; every operation's outcome and result and the parameters of all layers are compared with Network")
