#!/usr/bin/env python3
"""Driver: check.py PROPERTY [--tier quick|thorough] [--task NAME] [-v]

Regenerates the LLVM IR of the property's harnesses from /repo's current
sources, executes every entry symbolically, replays counterexamples against
the natively compiled code and writes /verif/evidence/PROPERTY.json."""
import argparse
import fnmatch
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)

CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE = ["-std=gnu++17", "-w", "-DPARALLEL_IO", "-DLOG_STRIP_LEVEL=0",
        "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-ffp-contract=off", "-fno-math-errno",
        "-fno-vectorize", "-fno-slp-vectorize"]
INC = ["-I%s/stubs" % VERIF, "-I%s/harness" % VERIF, "-I%s/include" % REPO,
       "-I%s/include/physics" % REPO, "-I%s/include/physics/eos" % REPO,
       "-I%s/include/tree_topology" % REPO, "-I%s/mpisph" % REPO,
       "-I%s/app/drivers/include" % REPO, "-I%s" % REPO, "-include", "prelude.h"]


def log(*a):
    if VERBOSE:
        print(*a, flush=True)


VERBOSE = False


def run(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=cwd,
                       errors="replace")
    return p.returncode, p.stdout, p.stderr


class TU:
    def __init__(self, src, defs, bdir, opt=""):
        self.src, self.defs, self.opt = src, tuple(defs), opt
        self.id = os.path.basename(src).replace(".cc", "") + "-" + hashlib.md5(
            repr((src, self.defs, opt)).encode()).hexdigest()[:8]
        self.ll = os.path.join(bdir, self.id + ".ll")
        self.bdir = bdir
        self.err = None
        self.entries = None
        self.sha = None
        self.bins = {}

    def flags(self):
        return BASE + ["-D" + d for d in self.defs] + INC

    def compile_ir(self):
        src = os.path.join(VERIF, "harness", self.src)
        o = self.ll + ".0"
        fold = ["-mllvm", "-phi-node-folding-threshold=60",
                "-mllvm", "-two-entry-phi-node-folding-threshold=60"]
        opt = ["-O1", "-fno-unroll-loops"]
        if self.opt == "unroll":        # branch-free code: loops unrolled, diamonds to selects
            opt = ["-O2", "-mllvm", "-unroll-threshold=4000", "-mllvm", "-inline-threshold=5000"]
        elif self.opt == "none":        # as written: accesses the optimiser would drop are kept
            opt = ["-O0"]
        rc, out, err = run([CXX, "-fno-pie"] + opt + ["-S", "-emit-llvm", "-o", o] + fold + self.flags() +
                           [src], timeout=300)
        if rc:
            self.err = err
            return False
        rt = self.ll + ".rt"
        rc, out, err = run([CXX, "-O1", "-S", "-emit-llvm", "-std=gnu++17", "-w",
                            "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-o", rt,
                            os.path.join(VERIF, "harness", "rt_model.cc")], timeout=300)
        if rc:
            self.err = err
            return False
        link = next((l for l in ("llvm-link-18", "/usr/lib/llvm-18/bin/llvm-link")
                     if shutil.which(l)), None)
        rc, out, err = run([link, "-S", "-o", self.ll, o, rt], timeout=300)
        if rc:
            self.err = err
            return False
        with open(self.ll, "rb") as f:
            self.sha = hashlib.sha256(f.read()).hexdigest()[:16]
        return True

    def native(self, kind):
        """kind: plain | asan | vg"""
        b = self.bins.get(kind)
        if b is not None:
            return b
        exe = os.path.join(self.bdir, self.id + "." + kind)
        with open(os.path.join(VERIF, "harness", self.src)) as f:
            names = re.findall(r"^ENTRY\((\w+)\)", f.read(), re.M)
        with open(self.ll) as f:
            names = sorted(set(re.findall(r"^define .*@h_(\w+)\(", f.read(), re.M)))
        mainc = exe + ".main.cc"
        with open(mainc, "w") as f:
            f.write('#include <cstring>\n#include <cstdio>\n#include <cstdlib>\n#include <exception>\n'
                    'extern "C" void verif_load(const char*); extern "C" int verif_failed();\n')
            for n in names:
                f.write('extern "C" void h_%s();\n' % n)
            f.write('int main(int c, char**v){ verif_load(v[2]);\n try {\n')
            for n in names:
                f.write('  if(!strcmp(v[1],"%s")) h_%s();\n' % (n, n))
            f.write(' } catch(std::exception &e) { printf("UNCAUGHT %s\\n", e.what()); return 1; }'
                    ' catch(...) { printf("UNCAUGHT\\n"); return 1; }\n'
                    ' fflush(stdout); return verif_failed(); }\n')
        san = {"plain": ["-O1", "-ftrivial-auto-var-init=pattern"],
               "asan": ["-O0", "-g", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,null",
                        "-D_GLIBCXX_ASSERTIONS"],
               "vg": ["-O0", "-g"]}[kind]
        if kind == "asan":
            san = ["-O0", "-g", "-fsanitize=address"]
        if kind == "ubsan":
            san = ["-O0", "-g", "-fsanitize=undefined"]
        cmd = [CXX] + san + self.flags() + [
            os.path.join(VERIF, "harness", self.src), mainc,
            os.path.join(VERIF, "harness", "rt_native.cc"), "-o", exe, "-lpthread"]
        rc, out, err = run(cmd, timeout=300)
        if rc:
            log("native build failed:", err[-2000:])
            self.bins[kind] = ""
            return ""
        self.bins[kind] = exe
        return exe


_MODS = {}


def run_task(args):
    """executed in a forked worker"""
    tu_ll, t, tier, seed = args
    os.environ["VERIF_SEED"] = str(seed)
    t0 = time.time()
    try:
        import sym
        mod = _MODS.get(tu_ll) or tu_ll
        opts = dict(t.get("opts", {}))
        opts.setdefault("budget", 240 if tier == "quick" else 700)
        E = sym.Engine(mod, t.get("mode", "real"), opts)
        r = E.run_entry("h_" + t["entry"])
        r["samples"] = E.sample_inputs
        r["error"] = None
    except Exception as e:      # noqa
        r = {"error": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])}
    r["wall"] = time.time() - t0
    return r


def worker(conn, arg):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        r = run_task(arg)
    except BaseException as e:      # noqa
        r = {"error": repr(e), "wall": 0.0}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_all(jobs, ncpu, hard):
    """jobs: list of (key, arg). Fork one process per job, ncpu at a time."""
    res = {}
    pend = list(jobs)
    live = {}
    from multiprocessing.connection import wait
    while pend or live:
        while pend and len(live) < ncpu:
            key, arg = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(b, arg))
            p.start()
            b.close()
            live[a] = (key, p, time.time())
        for a in wait(list(live), timeout=5):
            key, p, t0 = live.pop(a)
            try:
                res[key] = a.recv()
            except EOFError:
                res[key] = {"error": "worker died (memory?)", "wall": time.time() - t0}
            p.join()
            a.close()
            if res[key].get("wall", 0) > 10:
                log("  done %-50s %6.1fs" % (key, res[key].get("wall", 0)))
        for a in list(live):
            key, p, t0 = live[a]
            if time.time() - t0 > hard:
                p.kill()
                p.join()
                live.pop(a)
                res[key] = {"error": "hard time limit", "wall": time.time() - t0}
    return res


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for (n, k, v) in inputs:
            f.write("%s %s %s\n" % (n.replace(" ", "_"), k, v))


def native_run(exe, entry, path, kind, timeout=40):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=1"
    env["MALLOC_PERTURB_"] = "165"
    cmd = [exe, entry, path]
    if kind == "vg":
        cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    wd = tempfile.mkdtemp(prefix="verif-run-")
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                             cwd=wd, start_new_session=True, errors="replace")
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            return -999, out or "", (err or "") + "TIMEOUT"
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def reproduced(rc, out, err, kind):
    if rc == 77:
        return None
    if "VCHECK_FAIL" in out:
        return "check fails: " + re.findall(r"VCHECK_FAIL (.*)", out)[0]
    if kind == "asan" and ("AddressSanitizer" in err or "runtime error" in err):
        m = re.search(r"(ERROR: AddressSanitizer: .*|.*runtime error.*)", err)
        return m.group(1)[:200] if m else "sanitizer report"
    if kind == "ubsan" and "runtime error" in err:
        m = re.search(r".*runtime error.*", err)
        return m.group(0)[:200]
    if kind == "vg" and rc == 99:
        return "valgrind: " + err.strip().split("\n")[0][:150]
    if "UNCAUGHT" in out or "RANK_SIGNAL" in out or "MPI_" in out or "RANK_EXIT" in out:
        return "abnormal: " + out.strip().split("\n")[-1][:150]
    if rc < 0 and rc != -999:
        return "signal %d %s" % (-rc, err.strip().split("\n")[-1][:150] if err.strip() else "")
    if rc == -999:
        return "does not terminate within the replay limit"
    return None


def replay(tu, t, v, rdir, tag):
    label = v["label"]
    kind = label.split(":")[0] if ":" in label else "check"
    kinds = {"mem": ["asan", "plain", "vg"], "ub": ["plain", "ubsan", "vg"]}.get(kind, ["plain", "vg"])
    if kind not in ("mem", "ub", "assert", "abort", "exit", "throw", "mpi"):
        kinds = ["plain", "vg"]
    if "uninit" in label:
        kinds = ["plain", "vg", "asan"]
    if kind == "hang":
        kinds = ["plain"]
    for i, inp in enumerate(v["inputs"]):
        path = os.path.join(rdir, "%s-%d.inputs" % (tag, i))
        write_inputs(path, inp)
        for k in kinds:
            exe = tu.native(k if k != "ubsan" else "ubsan") if k != "ubsan" else native_ubsan(tu)
            if not exe:
                continue
            rc, out, err = native_run(exe, t["entry"], path, k, t.get("replay_timeout", 40))
            why = reproduced(rc, out, err, k)
            log("    replay", label, k, "rc", rc, "->", why, out.strip()[:150].replace("\n", " | "))
            if why:
                with open(path, "a") as f:
                    f.write("\n# property violation: %s\n# harness %s entry %s (%s build)\n# %s\n"
                            % (label, t["src"], t["entry"], k, why))
                return path, why
            if rc == 77:
                break
        os.unlink(path)
    return None, None


def native_ubsan(tu):
    b = tu.bins.get("ubsan")
    if b is None:
        old = tu.bins.get("asan")
        exe = os.path.join(tu.bdir, tu.id + ".ubsan")
        tu.bins.setdefault("plain", tu.native("plain"))
        mainc = os.path.join(tu.bdir, tu.id + ".plain.main.cc")
        cmd = [CXX, "-O0", "-g", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=null"] + tu.flags() + [
            os.path.join(VERIF, "harness", tu.src), mainc,
            os.path.join(VERIF, "harness", "rt_native.cc"), "-o", exe, "-lpthread"]
        rc, out, err = run(cmd, timeout=300)
        b = tu.bins["ubsan"] = "" if rc else exe
    return b


def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        return p.stdout.strip().split("\n")
    except OSError:
        return names


def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--task")
    ap.add_argument("-v", action="count", default=0)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    VERBOSE = a.v
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import props
    spec = props.PROPS[a.prop]
    tasks = [dict(t) for t in spec["tasks"] if a.tier == "thorough" or t.get("tier") != "thorough"]
    if a.tier == "quick":
        tasks = [t for t in tasks if t.get("tier") != "thorough"]
    if a.task:
        tasks = [t for t in tasks if fnmatch.fnmatch(t["name"], a.task)]
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    evdir = os.path.join(VERIF, "evidence")
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    rc = 2
    try:
        rc = decide(a, spec, tasks, bdir, evdir, rdir, seed, t_start)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
        else:
            print("kept", bdir)
    sys.exit(rc)


def decide(a, spec, tasks, bdir, evdir, rdir, seed, t_start):
    prop = a.prop
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    tus = {}
    for t in tasks:
        k = (t["src"], tuple(t.get("defs", ())), t.get("O", ""))
        if k not in tus:
            tus[k] = TU(t["src"], t.get("defs", ()), bdir, t.get("O", ""))
        t["tu"] = tus[k]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        okc = list(ex.map(lambda u: u.compile_ir(), tus.values()))
    if not all(okc):
        seen = set()
        for u in tus.values():
            if u.err and u.src not in seen:
                seen.add(u.src)
                print("error: harness %s %s does not compile:\n%s" % (
                    u.src, u.defs, "\n".join(u.err.split("\n")[:12])))
        if not any(okc):
            return 2
    nocompile = ["%s: the harness does not compile with this tree" % t["name"] for t in tasks if t["tu"].err]
    tasks = [t for t in tasks if not t["tu"].err]
    import irparse
    for u in tus.values():
        if u.err:
            continue
        _MODS[u.ll] = irparse.Module(u.ll)
    t_comp = time.time() - t_start
    log("compiled %d TUs in %.1fs" % (len(tus), t_comp))
    jobs = []
    for t in sorted(tasks, key=lambda t: -t.get("weight", 1)):
        tt = {k: v for k, v in t.items() if k != "tu"}
        jobs.append((t["name"], (t["tu"].ll, tt, a.tier, seed)))
    hard = 800 if a.tier == "quick" else 3000
    res = run_all(jobs, a.j, hard)
    # ---- collect
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    lines, viol, knownhit = [], [], []
    tot = {"paths": 0, "steps": 0, "queries": 0, "solver": 0.0, "obl": 0, "disch": 0, "unk": 0,
           "hits": 0, "trivial": 0, "forks": 0}
    funcs, mdls, incon, per, reach_missing, unconfirmed = set(), set(), nocompile, [], [], []
    samples, sample_jobs = [], []
    for t in tasks:
        r = res[t["name"]]
        if r.get("error"):
            incon.append("%s: %s" % (t["name"], r["error"].strip().split("\n")[0]))
            log(r["error"][-700:] if a.v > 1 else r["error"].split("\n")[0])
            per.append({"task": t["name"], "error": r["error"].strip().split("\n")[0]})
            continue
        s = r["stats"]
        tot["paths"] += s["paths"]
        tot["steps"] += s["steps"]
        tot["forks"] += s["forks"]
        tot["queries"] += r["queries"]
        tot["solver"] += r["solver_time"]
        funcs.update(r["functions"])
        mdls.update(r["models"])
        for x in sorted(set(s["incomplete"])):
            incon.append("%s: %s" % (t["name"], x))
        chk = {}
        for lab, c in sorted(r["checks"].items()):
            tot["obl"] += c["hit"]
            tot["hits"] += 1
            tot["disch"] += c["proved"] + c["trivial"]
            tot["unk"] += c["unknown"]
            if c["unknown"]:
                incon.append("%s: %s: %d of %d obligations undecided by the solver" % (
                    t["name"], lab, c["unknown"], c["hit"]))
            chk[lab] = {"obligations": c["hit"], "proved_by_solver": c["proved"],
                        "closed_by_simplifier": c["trivial"], "undecided": c["unknown"],
                        "violations": len(c["violations"]), "solver_s": round(c["time"], 2)}
            for i, v in enumerate(c["violations"]):
                tag = "%s-%s-%s" % (prop, re.sub(r"\W+", "_", t["name"]),
                                    hashlib.md5((lab + str(i)).encode()).hexdigest()[:6])
                kf = match_known(known, prop, t["name"], lab)
                if kf is not None and kf in knownhit:
                    continue
                path, why = replay(t["tu"], t, v, rdir, tag)
                if path is None:
                    unconfirmed.append("%s: %s (%s)" % (t["name"], lab, " < ".join(v["where"][:2])))
                    continue
                if kf is not None:
                    knownhit.append(kf)
                    break
                viol.append((t["name"], lab, path, why, v["where"]))
                break
        want = t.get("reach", ["end"])
        for w in want:
            if w not in r["reached"] and not any(c["violations"] for c in r["checks"].values()):
                reach_missing.append("%s: witness '%s' not reached" % (t["name"], w))
        per.append({"task": t["name"], "harness": t["src"], "entry": t["entry"],
                    "arithmetic": t.get("mode", "real"), "bounds": t.get("bounds", ""),
                    "paths": s["paths"], "path_ends": s["ended"], "ir_steps": s["steps"],
                    "queries": r["queries"], "solver_s": round(r["solver_time"], 2),
                    "wall_s": round(r["wall"], 2), "witnesses": r["reach_sat"], "checks": chk,
                    "second_solver": r["alt"], "feasibility_unknown": r["feas_unknown"]})
        for smp in r["samples"][:2]:
            sample_jobs.append((t, smp))
    # ---- translator validation: replay passing path models natively
    validated, disagree = 0, []
    if not viol and time.time() - t_start < 600:
        use = sample_jobs[:40]
        need = {t["tu"].id: t["tu"] for t, _ in use}
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda u: u.native("plain"), need.values()))

        def one(js):
            i, (t, smp) = js
            exe = t["tu"].native("plain")
            if not exe:
                return None
            path = os.path.join(bdir, "s%d.inputs" % i)
            write_inputs(path, smp)
            rc, out, err = native_run(exe, t["entry"], path, "plain")
            return t, smp, rc, out, err
        with ThreadPoolExecutor(8) as ex:
            for x in ex.map(one, enumerate(use)):
                if x is None:
                    continue
                t, smp, rc, out, err = x
                if rc == 77:
                    continue      # rounding of the model broke a precondition
                why = reproduced(rc, out, err, "plain")
                if why:
                    disagree.append("%s: %s" % (t["name"], why))
                    log("DISAGREE", t["name"], why, smp)
                else:
                    validated += 1
                    if len(samples) < 8:
                        samples.append({"task": t["name"], "inputs": smp[:12]})
    if not samples:
        samples = [{"task": t["name"], "inputs": s[:12]} for t, s in sample_jobs[:5]]
    decided = tot["disch"]
    for kf in knownhit:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["steps"],
            "traces_validated_against_impl": validated, "samples": samples or ["none"],
            "obligations": tot["obl"], "discharged": tot["disch"], "undecided": tot["unk"],
            "solver_queries": tot["queries"], "solver_seconds": round(tot["solver"], 2),
            "path_forks": tot["forks"],
            "meaning": "states = completed symbolic paths, transitions = LLVM IR instructions "
                       "executed symbolically, obligations = assertion instances reached",
            "functions_encoded": [x for x in demangle(sorted(funcs)) if not x.startswith("std::")][:400],
            "ir_sha256": {u.id: u.sha for u in {t["tu"].id: t["tu"] for t in tasks}.values()},
            "tasks": per, "inconclusive": sorted(set(incon)),
            "unconfirmed_counterexamples": unconfirmed, "replay_disagreements": disagree,
            "external_models": sorted(mdls), "bounds": spec.get("bounds", ""),
            "known_findings_seen": [k["what"] for k in knownhit],
        },
        "assumptions": spec.get("assumptions", []) + props_common_assumptions(tasks),
        "wall_s": round(time.time() - t_start, 2), "violations": len(viol),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d tasks, %d paths, %d obligations (%d discharged, %d undecided), %d queries, "
          "solver %.1fs, wall %.1fs, validated %d, violations %d" % (
              prop, a.tier, len(tasks), tot["paths"], tot["obl"], tot["disch"], tot["unk"],
              tot["queries"], tot["solver"], time.time() - t_start, validated, len(viol)))
    for x in sorted(set(incon))[:12]:
        print("  inconclusive:", x)
    for x in unconfirmed[:8]:
        print("  counterexample not reproduced (ignored):", x)
    for x in disagree[:8]:
        print("  replay disagreement:", x)
    for x in lines:
        print(x)
    for (tn, lab, path, why, where) in viol:
        print("  violated: %s / %s : %s  [%s]" % (tn, lab, why, " < ".join(demangle(where)[:2])))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][2]))
        return 1
    if decided == 0:
        print("error: no obligation was decided")
        return 2
    if reach_missing:
        for x in reach_missing:
            print("  vacuous:", x)
        if len(reach_missing) >= len(tasks):
            print("error: vacuous check")
            return 2
    return 0


def match_known(known, prop, task, label):
    for k in known.get("findings", []):
        if k["property"] == prop and fnmatch.fnmatch(task, k.get("task", "*")) and \
                fnmatch.fnmatch(label, k["label"]):
            return k
    return None


def props_common_assumptions(tasks):
    modes = {t.get("mode", "real") for t in tasks}
    out = ["Undefined-memory, out-of-bounds and use-after-free accesses are detected per path; "
           "allocation never fails; OpenMP pragmas are compiled out; logging macros are no-ops."]
    if "real" in modes:
        out.append("tasks with arithmetic 'real': double arithmetic is exact real arithmetic "
                   "(rounding, overflow and underflow outside the claim); exp/log/sin/cos/tanh/"
                   "non-rational powers are uninterpreted functions with sound axioms.")
    if "ieee" in modes:
        out.append("tasks with arithmetic 'ieee': IEEE-754 binary64/32, round-to-nearest-even.")
    return out


if __name__ == "__main__":
    main()
