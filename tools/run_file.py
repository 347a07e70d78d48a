"""C23-C26: matrix text, model files, interrupted training."""
import json
import os
import re
import time
import props_file
import run_net
import vlib


def cfg(c, name, depth, last="TRUE", inv="NothingElse CompleteIsRead Needed"):
    path = os.path.join(c.work, name + ".cfg")
    with open(path, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n LabelsLast = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (depth, last, inv))
    return path


def laws(c):
    """The layout itself: every model of a small universe, written up to every line, harmed in every word."""
    c.design("FileLaws.tla", cfg(c, "FileLaws", 2 if c.thorough else 1), workers="8")
    c.design("FileLaws.tla", cfg(c, "FileLaws-nolabels", 1, "FALSE", "NothingElse"), expect="NothingElse is violated")


def files(c):
    """All files that FileLaws reads, as text, with what reading has to give."""
    code, out = c.tlc("FileGen.tla", cfg(c, "FileGen", 1, inv="Emit"), workers="4")
    if "No error has been found" not in out:
        raise vlib.CheckError("generation failed: " + out[-2000:])
    got = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"FILE (.*)"$', out, re.M)]
    if not got:
        raise vlib.CheckError("no files generated")
    got = [("".join(" ".join(l) + "\n" for l in g["f"]), g["ok"]) for g in got]
    got.sort()
    if c.id == "C24":
        got = [g for g in got if g[1]]
    c.notes["files_generated"] = len(got)
    if not c.thorough and c.id != "C24":
        got = got[c.seed % 5::5]
    cases = []
    for i in range(0, len(got), 30):
        ops = [{"op": "reset"}]
        for j, (text, ok) in enumerate(got[i:i + 30]):
            ops += [{"op": "put", "f": "f%d" % j, "text": text, "okay": ok}, {"op": "load", "f": "f%d" % j}]
        cases.append(ops)
    return cases


def run(c):
    def driver(name):
        return c.build(name, [os.path.join(vlib.HARNESS, name + "_main.cpp")] + vlib.layer_sources(), opt="-O0")
    exe = driver("file")
    t = time.time()
    if c.id == "C26":
        net = driver("net")
        c.conform(net, props_file.c26(c.seed, c.thorough) + run_net.programs(c), "TraceNetwork")
        c.conform(exe, props_file.c26_twins(c.seed, c.thorough), "TraceFile", tag="tw", unpack=props_file.unpack)
    else:
        cases = getattr(props_file, c.id.lower())(c.seed, c.thorough)
        if c.id in ("C24", "C25"):
            laws(c)
            cases += files(c)
        c.conform(exe, cases, "TraceFile", unpack=props_file.unpack)
    c.notes["conformance_s"] = round(time.time() - t, 1)
    return c.finish("each case builds, saves, loads, cuts or damages models and files (or matrices in a stream); results are compared with TraceFile and Network")
