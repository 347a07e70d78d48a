"""Machinery shared by all checks: build drivers from /repo, run them on programs, check the
recorded traces against the TLA+ specification with TLC, and report.

A check ends with exit 0 (held), exit 1 and a VIOLATION line (broken), or exit 2 (the check itself
could not run: build failure, TLC error)."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)          # for trials on copies: where results go
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-fsanitize=thread"],
    "none": ["-D_GLIBCXX_ASSERTIONS"],
}
LAYERS = ["src/Layers/Activation.cpp", "src/Layers/ConnectedLayer.cpp", "src/Layers/Kernel.cpp",
          "src/Layers/Pooling.cpp", "src/Layers/Softmax.cpp", "src/timerConfig.cpp"]


def read(path):
    with open(path, errors="replace") as f:
        return f.read()


class CheckError(Exception):
    """The check itself failed; nothing can be said about the property."""


class NotCompiling(Exception):
    """An operation of the specification does not compile although the library itself does."""


def layer_sources():
    """All library sources except the programs and the reader (also new files of a changed tree)."""
    d = os.path.join(REPO, "src", "Layers")
    out = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    t = os.path.join(REPO, "src", "timerConfig.cpp")
    if os.path.exists(t):
        out.append(t)
    return out


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.id, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.work = os.path.join(OUT, ".work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.rejected = []          # (case, line in case, explanation)
        self.thorough = tier == "thorough"

    # ---------------------------------------------------------------- build
    def build(self, name, srcs, san="asan", opt="-O1", defs=(), libs=()):
        """Compile the given sources (absolute paths) in parallel and link them."""
        t = time.time()
        flags = ["-std=c++17", "-include", "cstdint", "-w", opt, "-g1", "-fno-omit-frame-pointer",
                 "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
                 "-I" + HARNESS, "-I" + self.work, "-pthread"] + SAN[san] + list(defs)
        objs, jobs = [], []
        for n, s in enumerate(srcs):
            o = os.path.join(self.work, "%s-%d-%s.o" % (name, n, os.path.basename(s)))
            objs.append(o)
            jobs.append(["g++"] + flags + ["-c", s, "-o", o])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            done = list(zip(jobs, ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs)))
        for cmd, r in done:
            if r.returncode:
                self.build_failed(flags, cmd[-3], r.stderr)
        exe = os.path.join(self.work, name)
        r = subprocess.run(["g++"] + SAN[san] + ["-pthread"] + objs + list(libs) + ["-o", exe],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link failed: " + r.stderr[:3000])
        self.notes.setdefault("build_s", 0)
        self.notes["build_s"] = round(self.notes["build_s"] + time.time() - t, 1)
        return exe

    def build_failed(self, flags, src, err):
        """A harness file that does not compile while the library on its own does: an operation
        that the specification offers cannot be used any more."""
        text = "build failed: %s\n%s" % (src, err[:4000])
        if getattr(self, "strict_build", False) or src.startswith(REPO) or "internal compiler error" in err or "Killed" in err or "No space" in err:
            raise CheckError(text)
        ctl = os.path.join(self.work, "control.cpp")
        with open(ctl, "w") as f:
            f.write('#include "cnn_from_scratch/ModelDescription.h"\n#include "cnn_from_scratch/Matrix/MatrixMath.h"\n'
                    'int f(){my_cnn::ModelDescription<float, std::string> m; m.addConnectedLayer(2);'
                    'return m.forwardPropagation(my_cnn::SimpleMatrix<float>(my_cnn::dim3(2, 2, 1))).label_idx;}\n')
        r = subprocess.run(["g++"] + flags + ["-c", ctl, "-o", ctl + ".o"], capture_output=True, text=True)
        if r.returncode:
            raise CheckError(text)
        errs = [l for l in err.splitlines() if "error:" in l]
        self.rejected.append({"module": "build", "case": 0, "line": 0, "reproduced_by_second_run": None,
                              "why": "an operation of the specification does not compile: " + " | ".join(errs[:3])[:1200],
                              "trace": [{"source": os.path.basename(src), "compiler": err[:3000]}]})
        raise NotCompiling()

    # ---------------------------------------------------------------- drive
    def drive(self, exe, cases, tag="p", parts=NCPU, env=None, timeout=600, wrap=()):
        """Run the cases (lists of operations, the first of each a reset) on the real code.
        Returns the traces: the same lists with the observed result as field r."""
        if not cases:
            return []
        groups = [g for g in split_even(list(range(len(cases))), parts, lambda i: len(cases[i]))]
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096",
                  "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=98",
                  "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:report_signal_unsafe=0"})
        e.update(env or {})

        def run(n):
            prog = os.path.join(self.work, "%s%d.prog" % (tag, n))
            resf = os.path.join(self.work, "%s%d.res" % (tag, n))
            where = []
            with open(prog, "w") as f:
                for ci in groups[n]:
                    for li, op in enumerate(cases[ci]):
                        f.write(json.dumps(op) + "\n")
                        where.append((ci, li))
            log = open(os.path.join(self.work, "%s%d.log" % (tag, n)), "w")
            try:
                r = subprocess.run(list(wrap) + [exe, prog, resf], stdout=log, stderr=log, env=e,
                                   timeout=timeout, cwd=self.work)
            except subprocess.TimeoutExpired:
                raise CheckError("driver did not finish")
            if r.returncode:
                log.close()
                tail = open(log.name).read()[-1500:]
                raise CheckError("driver failed (%d): %s" % (r.returncode, tail))
            got = {}
            for line in open(resf, errors="replace"):
                line = line.strip()
                if not line:
                    continue
                try:
                    v = json.loads(line)
                except ValueError:
                    continue            # half-written line of a crashed case
                if "stopped" in v:
                    got["stopped"] = True
                    continue
                i = v.pop("i")
                got[i] = v
            return where, got

        traces = [None] * len(cases)
        with cf.ThreadPoolExecutor(len(groups) or 1) as ex:
            for where, got in ex.map(run, range(len(groups))):
                for i, (ci, li) in enumerate(where):
                    if traces[ci] is None:
                        traces[ci] = []
                    tr = traces[ci]
                    if tr and "crash" in tr[-1]:
                        continue        # the case ended there
                    ev = dict(cases[ci][li])
                    r = got.get(i)
                    if r is None and got.get("stopped"):
                        continue        # not run: enough cases had crashed
                    if r is None:
                        ev["crash"] = "no result"
                    elif "crash" in r:
                        ev["crash"] = r["crash"]
                    else:
                        ev["r"] = r
                    tr.append(ev)
        return traces

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), timeout=800, tag=None, heap="3g", workers="1"):
        tag = tag or os.path.basename(cfg).replace(".cfg", "")
        meta = os.path.join(self.work, "tlc-" + tag)
        os.makedirs(meta, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
               "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", workers, "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module)]
        # After an error TLC evaluates once more to say where, which may take forever: the error and the
        # behaviour are printed before that, and are all that is needed
        log = os.path.join(meta, "tlc.log")
        try:
            with open(log, "w") as f:
                pr = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=SPEC)
            end, size, still = time.time() + timeout, -1, 0
            try:
                while True:
                    try:
                        pr.wait(timeout=1)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    now = os.path.getsize(log)
                    still = still + 1 if now == size else 0
                    size = now
                    if still >= 4 and "behavior up to this point" in read(log):
                        break
                    if time.time() > end:
                        raise CheckError("TLC did not finish: %s %s" % (module, cfg))
            finally:
                if pr.poll() is None:
                    pr.kill()
                    pr.wait()
            return pr.returncode, read(log)
        finally:
            shutil.rmtree(meta, ignore_errors=True)

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace("\u00a0", ""))
        if not m:
            m2 = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
            m = [(a.replace(",", ""), b.replace(",", "")) for a, b in m2]
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def design(self, module, cfg, args=(), workers="4", timeout=800, env=None, expect=None):
        """Model-check the specification itself. With expect, the run is a negative control: the
        named invariant or property has to be violated."""
        code, out = self.tlc(module, cfg, args=args, workers=workers, timeout=timeout, env=env)
        gen, dist = self.counts(out)
        self.transitions += gen
        self.states += dist
        key = "%s/%s" % (module, os.path.basename(cfg))
        if expect is None:
            if code != 0 or "No error has been found" not in out:
                raise CheckError("specification check failed: %s\n%s" % (key, out[-3000:]))
            self.notes.setdefault("design_runs", []).append("%s: %d states, %d distinct, no error" % (key, gen, dist))
        else:
            if not re.search(expect, out) or code == 0:
                raise CheckError("negative control %s did not violate %s\n%s" % (key, expect, out[-3000:]))
            self.notes.setdefault("negative_controls", []).append("%s: violates %s as it has to" % (key, expect))
        return out

    def validate(self, traces, module, parts=NCPU, tag="t", heap="3g", count=True):
        """Check every trace against the trace specification. Cases are packed into one file per
        TLC process; each starts with its own reset."""
        groups = split_even(list(range(len(traces))), parts, lambda i: sum(len(json.dumps(ev)) for ev in traces[i]))

        def run(n):
            todo = list(groups[n])
            bad, gen, dist = [], 0, 0
            rounds = 0
            while todo and rounds < 2 and len(bad) < 2:
                rounds += 1
                path = os.path.join(self.work, "%s%d.trace" % (tag, n))
                where = []
                with open(path, "w") as f:
                    for ci in todo:
                        for li, ev in enumerate(traces[ci]):
                            f.write(json.dumps(ev) + "\n")
                            where.append((ci, li))
                code, out = self.tlc(module + ".tla", module + ".cfg", env={"TRACE": path}, tag="%s-%s%d" % (module, tag, n), heap=heap)
                g, d = self.counts(out)
                gen += g
                dist += d
                if code == 0 and "No error has been found" in out:
                    return bad, gen, dist
                m = re.findall(r"depth of the complete state graph search is (\d+)", out)
                inv = re.findall(r"(?:Invariant|property|Action property) (\S+) (?:is|was) violated", out)
                if inv:
                    m = re.findall(r"^State (\d+):", out, re.M)
                    if not m:
                        raise CheckError("TLC: %s" % out[-3000:])
                    at = int(m[-1]) - 1 - 1
                    why = "invariant %s violated" % inv[0]
                elif "behavior up to this point" in out and re.search(r"Overflow when computing|Attempted to |outside (of )?the domain|not in the domain|not a function|TLC encountered a non-enumerable", out):
                    st = re.findall(r"^State (\d+):", out, re.M)
                    if not st:
                        raise CheckError("TLC: %s" % out[-3000:])
                    at = int(st[-1]) - 1
                    mm = re.search(r"(Overflow when computing.*|Attempted to .*|.*outside (?:of )?the domain.*|.*not in the domain.*|.*not a function.*)", out)
                    why = "the observed values lie outside what the specification can produce: " + mm.group(1)[:600]
                elif m and ("ostcondition" in out or "Accepted" in out):
                    at = int(m[-1]) - 1
                    mm = re.findall(r'^<<\s*"MISMATCH".*?>>$', out, re.M | re.S)
                    why = mm[-1][:1500] if mm else "no action of the specification explains this event"
                else:
                    raise CheckError("TLC failed on %s: %s" % (path, out[-4000:]))
                if at >= len(where):
                    raise CheckError("TLC rejected a complete trace: %s" % out[-3000:])
                ci, li = where[at]
                bad.append((ci, li, why))
                todo = todo[todo.index(ci) + 1:]
            return bad, gen, dist

        bad = []
        with cf.ThreadPoolExecutor(len(groups) or 1) as ex:
            for b, g, d in ex.map(run, range(len(groups))):
                bad += b
                if count:
                    self.transitions += g
                    self.states += d
        if count:
            self.traces += len(traces)
            self.events += sum(len(t) for t in traces)
        return sorted(bad)

    # ---------------------------------------------------------------- decide
    def conform(self, exe, cases, module, tag="p", drive_kw=None, redrive=True, parts=NCPU, heap="3g", unpack=None):
        """Drive, validate, and confirm every rejection by a second validation of the case alone."""
        drive_kw = drive_kw or {}
        traces = self.drive(exe, cases, tag=tag, **drive_kw)
        return self.judge(traces, module, tag=tag, exe=exe, cases=cases, drive_kw=drive_kw, redrive=redrive, parts=parts, heap=heap, unpack=unpack)

    def judge(self, traces, module, tag="p", exe=None, cases=None, drive_kw=None, redrive=False, parts=NCPU, heap="3g", unpack=None):
        if unpack:
            traces = unpack(traces)
        if traces and len(self.samples) < 3:
            self.samples.append({"module": module, "case": shorten(traces[0])})
            if len(traces) > 1:
                self.samples.append({"module": module, "case": shorten(traces[len(traces) // 2])})
        bad = self.validate(traces, module, tag=tag, parts=parts, heap=heap)
        for ci, li, why in bad:
            if len(self.rejected) >= 3:
                break                       # enough to report
            again = self.validate([traces[ci]], module, parts=1, tag=tag + "again", count=False)
            if not again:
                raise CheckError("rejection of case %d not repeated" % ci)
            reproduced = None
            hang = "hang" in str(traces[ci][-1].get("crash", ""))
            if redrive and exe and cases:
                t2 = self.drive(exe, [cases[ci]], tag=tag + "again", **(drive_kw or {}))
                if unpack:
                    t2 = unpack(t2)
                reproduced = bool(self.validate(t2, module, parts=1, tag=tag + "again", count=False))
            if hang and reproduced is False:
                continue                    # a slow machine is no hang
            self.rejected.append({"module": module, "case": ci, "line": li, "why": why,
                                  "reproduced_by_second_run": reproduced, "trace": traces[ci]})
        return not self.rejected

    # ---------------------------------------------------------------- report
    def finish(self, rule=""):
        viol = len(self.rejected)
        replay = None
        if viol:
            os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
            first = self.rejected[0]
            text = json.dumps(first)
            replay = os.path.join(OUT, "replay", "%s-%s.json" % (self.id, hashlib.sha1(text.encode()).hexdigest()[:10]))
            with open(replay, "w") as f:
                json.dump({"property": self.id, "seed": self.seed, "tier": self.tier, "rejections": self.rejected[:5]}, f, indent=1)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "events_validated": self.events,
                           "samples": self.samples[:6], "rule": rule},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": viol}
        ev["coverage"].update(self.notes)
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(self.work, ignore_errors=True)
        if viol:
            for r in self.rejected[:3]:
                print("rejected: case %d event %d: %s" % (r["case"], r["line"], r["why"]))
                print("   event: %s" % json.dumps(r["trace"][r["line"]] if r["line"] < len(r["trace"]) else {})[:1500])
            print("VIOLATION property=%s replay=%s" % (self.id, replay))
            return 1
        print("%s held: %d traces (%d events) validated, %d states, %.1f s" %
              (self.id, self.traces, self.events, self.states, time.time() - self.t0))
        return 0


def shorten(case, n=8):
    s = json.dumps(case[:n])
    return json.loads(s) if len(s) < 4000 else s[:4000]


def split_even(items, parts, weight):
    """Split into at most `parts` groups of similar total weight, keeping the order inside."""
    parts = max(1, min(parts, len(items)))
    groups = [[0, []] for _ in range(parts)]
    for it in sorted(items, key=lambda i: -weight(i)):
        g = min(groups, key=lambda g: g[0])
        g[0] += weight(it) + 1
        g[1].append(it)
    return [sorted(g[1]) for g in groups if g[1]]
