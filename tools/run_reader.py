"""C27, C28: the image reader, the program's data source and its validation."""
import json
import os
import re
import struct
import subprocess
import time
import props_reader
import vlib
from props_net import rng_for


def cfg(c, name, n, steps, skip="FALSE", inv="InOrder"):
    path = os.path.join(c.work, name + ".cfg")
    with open(path, "w") as f:
        f.write("SPECIFICATION LSpec\nCONSTANTS\n N = %d\n Steps = %d\n SkipOnRefusal = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (n, steps, skip, inv))
    return path


def histories(c):
    """Every history of requests on small files."""
    out = []
    for n, steps in ([(1, 4), (2, 5), (3, 5)] if c.thorough else [(1, 4), (2, 4), (3, 4)]):
        text = c.design("ReaderLaws.tla", cfg(c, "ReaderLaws-%d-%d" % (n, steps), n, steps, inv="InOrder Emit"))
        out += [(n, json.loads(m)) for m in sorted(re.findall(r'"HIST (\[.*?\])"', text))]
    c.design("ReaderLaws.tla", cfg(c, "ReaderLaws-skip", 3, 4, "TRUE"), expect="InOrder is violated")
    c.notes["histories"] = len(out)
    return out


def program(c, exe, tag, n=40):
    """The training program itself on a small data set; only that it ends well and reports a possible accuracy."""
    d = os.path.join(c.work, "data-" + tag)
    os.makedirs(d)
    r = rng_for(c.seed, "program", tag)
    for what, k in (("Train", n), ("Test", n // 2)):
        with open(os.path.join(d, "MNIST %s Images.ubyte-img" % what), "wb") as f:
            f.write(struct.pack(">iiii", 2051, k, 14, 12) + bytes(r.randrange(256) for _ in range(k * 14 * 12)))
        with open(os.path.join(d, "MNIST %s Labels.ubyte-label" % what), "wb") as f:
            f.write(struct.pack(">ii", 2049, k) + bytes(r.randrange(10) for _ in range(k)))
    env = dict(os.environ, READER_DATA=d, ASAN_OPTIONS="detect_leaks=0", TSAN_OPTIONS="halt_on_error=1:exitcode=97:report_signal_unsafe=0")
    try:
        p = subprocess.run([exe, "--program", "saved"], env=env, capture_output=True, text=True, timeout=300, cwd=c.work, errors="replace")
    except subprocess.TimeoutExpired:
        return [[{"op": "reset", "r": {"out": "ok"}}, {"op": "program", "n": n // 2, "crash": "hang"}]]
    m = re.findall(r"Validation accuracy was ([\d.e+-]+)%", p.stdout)
    res = {"out": "ok", "rc": p.returncode, "acc": round(float(m[0]) * 1e4) if m else -1,
           "saved": int(os.path.exists(os.path.join(d, "saved.model_data"))), "err": p.stderr[-600:] if p.returncode else ""}
    return [[{"op": "reset", "r": {"out": "ok"}}, {"op": "program", "n": n // 2, "r": res}]]


def run(c):
    src = [os.path.join(vlib.HARNESS, "reader_main.cpp"), os.path.join(vlib.REPO, "src", "MNISTReader.cpp")] + vlib.layer_sources()
    c.strict_build = True
    exe = c.build("reader", src, opt="-O1")
    t = time.time()
    if c.id == "C27":
        c.conform(exe, props_reader.c27(c.seed, c.thorough, histories(c)), "TraceReader")
    else:
        c.conform(exe, props_reader.c28_source(c.seed, c.thorough), "TraceReader", tag="src")
        c.conform(exe, props_reader.c28_validate(c.seed, c.thorough), "TraceNetwork", tag="val")
        if not c.rejected:
            tsan = c.build("readertsan", src, san="tsan", opt="-O1")
            for k in range(4 if c.thorough else 1):
                c.conform(tsan, props_reader.c28_validate(c.seed + k, False, count=24) + props_reader.c28_validate(c.seed + k, False, raw=True, count=24), "TraceNetwork", tag="ts%d" % k)
            c.judge(program(c, exe, "asan") + program(c, tsan, "tsan"), "TraceReader", tag="prog")
    c.notes["conformance_s"] = round(time.time() - t, 1)
    return c.finish("each case writes its own files and asks for images in its own order, or validates its own model on its own images; everything delivered and reported is compared with Reader and Network")
