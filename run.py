#!/usr/bin/env python3
"""Runner of the contract checks.

  run.py check <PROPERTY> [--tier quick|thorough] [--job NAME] [--keep] [-v]
  run.py list

For every job of a property (see jobs.py) it compiles the harness together with the real sources of
/repo's working tree (goto-cc), instruments the contracts (goto-instrument --dfcc) and discharges
every obligation with CBMC.  A refuted obligation is replayed natively (gcc + ASan/UBSan, the same
harness and the same real sources, inputs taken from the verifier's trace).

exit 0: every decided obligation holds; exit 1: VIOLATION line; exit 2: no answer (tool error)."""
import copy
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
SRC = os.path.join(REPO, "lib/src")
INCS = ["-I" + HARN, "-I" + os.path.join(REPO, "lib/vendors/axis-communications"), "-I" + SRC, "-I" + os.path.join(SRC, "includes"), "-I" + os.path.join(REPO, "lib/vendors"),
        "-I" + os.path.join(SRC, "legacy"), "-I" + os.path.join(REPO, "lib"), "-I" + REPO]
SV_DEFS = ["-DSIGNED_VIDEO_VERSION_STRING_UNUSED"]

CHECKS = {
    # memory safety and arithmetic of the code under contract
    "mem": ["--bounds-check", "--pointer-check", "--pointer-primitive-check", "--div-by-zero-check",
            "--undefined-shift-check", "--signed-overflow-check"],
    "func": ["--bounds-check", "--pointer-check"],
    "none": [],
}


class Job:
    def __init__(self, name, src, entry, props, defs=(), enforce=(), replace=(), unwind=8, unwindset=(),
                 max_unwind=None, checks="func", kind="proof", bound="", contracts=(), assumes=(), tier="quick",
                 timeout=600, flags=(), cost=10, internal=False, solver=(), restrict=(), srcs=(), calls=(), rfp=False, loops=(), alt=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def sh(cmd, timeout, cwd=None, mem_gb=12, env=None):
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        os.setsid()
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim if mem_gb else os.setsid, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        rc = -999
    return rc, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t0


def leaf_values(path, v, out):
    if v is None:
        return
    n = v.get("name")
    if n == "struct" or "members" in v:
        for m in v["members"]:
            if m["name"].startswith("$"):
                continue
            leaf_values(path + "." + m["name"], m["value"], out)
    elif n == "array" or "elements" in v:
        for e in v["elements"]:
            leaf_values("%s[%d]" % (path, e["index"]), e["value"], out)
    elif "binary" in v:
        b = v["binary"]
        x = int(b, 2)
        if v.get("name") == "float" or v.get("type", "").startswith("float"):
            return
        if (v.get("type", "").startswith("signed") or v.get("type") in ("char", "int", "int64_t", "int8_t", "int32_t")) and b[0] == "1":
            x -= 1 << len(b)
        out[path] = x


def trace_inputs(trace):
    vals = {}
    for s in trace:
        if s.get("stepType") != "assignment":
            continue
        l = s.get("lhs", "")
        if l == "IN" or l.startswith("IN.") or l.startswith("IN["):
            if "$pad" in l:
                continue
            l = re.sub(r"\[(\d+)[a-z]*\]", r"[\1]", l)
            leaf_values(l, s.get("value"), vals)
    return vals


def c_int(x):
    if x >= 0:
        return "%dULL" % x
    return "(-%dLL-1)" % (-x - 1)


class Result:
    pass


def slice_harness(job, wd):
    """The harness without the entry functions of other jobs (they may refer to functions that a
    change of the code renamed; that must not take this job down)."""
    txt = open(os.path.join(HARN, job.src)).read()

    def blank(m):
        return m.group(0) if m.group(1) == job.entry else "\n" * m.group(0).count("\n")
    txt = re.sub(r"^void\n(h_\w+)\(void\)\n\{\n.*?^\}\n", blank, txt, flags=re.S | re.M)
    p = os.path.join(wd, "sliced_" + job.src)
    with open(p, "w") as f:
        f.write('#line 1 "%s"\n' % job.src + txt)
    return p


def strip_c(s):
    """The same text with comments, strings and preprocessor lines blanked (positions are kept)."""
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|^[ \t]*#[^\n]*', lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S | re.M)


def match_close(s, i, op, cl):
    d = 0
    for j in range(i, len(s)):
        d += (s[j] == op) - (s[j] == cl)
        if d == 0:
            return j
    return -1


def annotate(job, wd):
    """Loop contracts: a copy of the current source in which the loop header gets its contract as a
    suffix; nothing else differs.  Returns an error text if there is no such loop (any more)."""
    files, ins = {}, {}
    for (f, fn, nth, contract) in job.loops:
        if f not in files:
            p = os.path.join(SRC, f)
            if not os.path.exists(p):
                p = os.path.join(REPO, "lib/vendors", f)
            if not os.path.exists(p):
                return "no file " + f
            files[f] = open(p, encoding="utf8").read()
            ins[f] = []
        s = strip_c(files[f])
        pos = None
        for m in re.finditer(r"^%s\(" % re.escape(fn), s, flags=re.M):
            e = match_close(s, m.end() - 1, "(", ")")
            b = re.compile(r"\s*\{").match(s, e + 1)
            if not b:
                continue
            end = match_close(s, b.end() - 1, "{", "}")
            heads = [match_close(s, w.end() - 1, "(", ")") + 1 for w in re.compile(r"\b(?:for|while)\s*\(").finditer(s, b.end(), end)]
            heads = [h for h in heads if re.compile(r"\s*\{").match(s, h)]
            if nth < len(heads):
                pos = heads[nth]
            break
        if pos is None:
            return "loop %d of %s not found" % (nth, fn)
        ins[f].append((pos, " " + " ".join(contract.split()) + " "))
    for f in files:
        for (pos, c) in sorted(ins[f], reverse=True):
            files[f] = files[f][:pos] + c + files[f][pos:]
    for f in files:
        os.makedirs(os.path.dirname(os.path.join(wd, f)), exist_ok=True)
        with open(os.path.join(wd, f), "w", encoding="utf8") as o:
            o.write(files[f])
    return None


def undeclared(job, wd):
    """Functions the job's harness uses that the sources no longer declare."""
    p = slice_harness(job, wd)
    rc, o, e, t = sh(["gcc", "-fsyntax-only", "-std=gnu11", "-Wimplicit-function-declaration", "-DVF_REPLAY"] + INCS + list(job.defs) + [p], 60, cwd=wd, mem_gb=0, env=dict(os.environ, LC_ALL="C"))
    res = set(re.findall(r"implicit declaration of function '(\w+)'", e))
    return sorted(f for f in res if not f.startswith(("vf_", "__CPROVER_")))


def compile_job(job, wd, extra=()):
    gb = os.path.join(wd, "a.gb")
    cmd = ["goto-cc", "-DVF_CBMC"] + INCS + list(job.defs) + list(extra) + ["--function", job.entry, slice_harness(job, wd)] + [os.path.join(REPO, x) for x in job.srcs] + ["-o", gb]
    rc, o, e, t = sh(cmd, 120, cwd=wd)
    if rc != 0:
        return None, cmd, o + e
    return gb, cmd, o + e


def has_body(gb, fns, declared=False):
    rc, o, e, t = sh(["goto-instrument", "--list-goto-functions", "--json-ui", gb], 60)
    res = {}
    try:
        for x in json.loads(o):
            for f in x.get("functions", []):
                res[f["name"]] = f.get("isBodyAvailable", False)
    except ValueError:
        return set(fns)
    return {f for f in fns if res.get(f) or declared and f in res}


def run_job(job, keep=False, verbose=False, tmo=None):
    r = Result()
    r.job, r.status, r.fails, r.log, r.obl, r.disch, r.solver_s, r.cmds, r.reach = job, "error", [], "", 0, 0, 0.0, [], 0
    r.kind = job.kind
    r.cex = []
    r.reach_fail = []
    wd = tempfile.mkdtemp(prefix="vf_%s_" % job.name, dir="/tmp")
    t0 = time.time()
    try:
        if job.loops:
            err = annotate(job, wd)
            if err:
                r.status = "uncompilable"
                r.log += err + "\n"
                return r
        gb, cmd, log = compile_job(job, wd)
        r.cmds.append(" ".join(cmd))
        r.log += log
        if gb is None:
            r.status = "uncompilable"
            return r
        if job.calls:
            # calls to a function of the same translation unit go to its contract stub
            gb2 = os.path.join(wd, "c.gb")
            cmd = ["goto-instrument"]
            if job.rfp:
                gb3 = os.path.join(wd, "d.gb")
                sh(["goto-instrument", "--remove-function-pointers", gb, gb3], 120, cwd=wd)
                gb = gb3
            names = [c.split(":")[0] for c in job.calls]
            have = has_body(gb, names, True)
            missing = [f for f in names if f not in have]
            if missing:
                r.status = "uncompilable"
                r.log += "callee(s) to replace by contract not found in the source: %s\n" % missing
                return r
            for c in job.calls:
                cmd += ["--replace-calls", c]
            rc, o, e, t = sh(cmd + [gb, gb2], 120, cwd=wd)
            r.cmds.append(" ".join(cmd))
            if rc != 0:
                r.status = "uncompilable"
                r.log += "no result: " + " ".join(re.findall(r"(?:error|ran out of memory)[^\"\n]*", o + e)[-3:]) + " rc=%d\n" % rc
                return r
            gb = gb2
        enforce = list(job.enforce)
        replace = list(job.replace)
        if enforce or replace or job.loops:
            have = has_body(gb, enforce)
            missing = [f for f in enforce if f not in have]
            if missing:
                r.status = "uncompilable"
                r.log += "function(s) under contract not found in the source: %s\n" % missing
                return r
            gb2 = os.path.join(wd, "b.gb")
            cmd = ["goto-instrument"]
            for x in job.restrict:
                cmd += ["--restrict-function-pointer", x]
            cmd += ["--dfcc", job.entry]
            for f in enforce:
                cmd += ["--enforce-contract", f]
            for f in replace:
                cmd += ["--replace-call-with-contract", f]
            if job.loops:
                cmd += ["--apply-loop-contracts"]
            cmd += [gb, gb2]
            rc, o, e, t = sh(cmd, 180, cwd=wd)
            r.cmds.append(" ".join(cmd))
            if rc != 0:
                r.status = "uncompilable"
                r.log += (o + e)[-4000:]
                return r
            gb = gb2
        unwind = job.unwind
        maxu = job.max_unwind or 2 * job.unwind
        while True:
            base = ["cbmc", "--json-ui", "--verbosity", "8", "--no-standard-checks", "--drop-unused-functions", "--unwinding-assertions", "--slice-formula", "--object-bits", "12"] + CHECKS[job.checks] + \
                ["--unwind", str(unwind)] + list(job.flags) + list(job.solver)
            for u in job.unwindset:
                base += ["--unwindset", u]
            cmd = base + [gb]
            rc, o, e, t = sh(cmd, tmo or job.timeout, cwd=wd, mem_gb=20)
            r.cmds.append(" ".join(cmd))
            if rc == -999:
                r.status = "timeout"
                return r
            try:
                js = json.loads(o)
            except ValueError:
                r.status = "error"
                r.log += "no result: " + " ".join(re.findall(r"(?:error|ran out of memory)[^\"\n]*", o + e)[-3:]) + " rc=%d\n" % rc
                return r
            res = None
            r.solver_s = 0.0
            for x in js:
                if "result" in x:
                    res = x["result"]
                mt = x.get("messageText", "")
                m = re.search(r"Runtime Solver: ([0-9.e+-]+)s", mt)
                if m:
                    r.solver_s += float(m.group(1))
                if x.get("messageType") == "ERROR":
                    r.log += mt + "\n"
            if res is None:
                r.status = "error"
                r.log += "no result: " + " ".join(re.findall(r"(?:error|ran out of memory)[^\"\n]*", o + e)[-3:]) + " rc=%d\n" % rc
                return r
            unw = [p for p in res if ".unwind." in p["property"] and p["status"] == "FAILURE"]
            reach = [p for p in res if p["description"].startswith("VFREACH:") and p.get("sourceLocation", {}).get("function", job.entry) == job.entry]
            obl = [p for p in res if not p["description"].startswith("VFREACH:")]
            nobody = [p for p in obl if p["status"] == "FAILURE" and p["description"].startswith("no body for callee")]
            fails = [p for p in obl if p["status"] == "FAILURE" and p not in nobody and ".unwind." not in p["property"] and ".recursion" not in p["property"]]
            if unw and not fails and unwind < maxu:
                unwind = min(maxu, unwind * 2)
                continue
            break
        r.unwind = unwind
        r.obl = len(obl)
        r.disch = sum(1 for p in obl if p["status"] == "SUCCESS")
        r.reach = sum(1 for p in reach if p["status"] == "FAILURE")
        r.reach_fail = [p["description"] for p in reach if p["status"] != "FAILURE"]
        r.fails = fails
        if job.src == "loops.c" and (unw or nobody or r.reach_fail or any(re.search(r"loop invariant|loop_assigns|is assignable|decreases|loop_step|variant", p["description"] + p["property"]) for p in fails)):
            # the loop is not the one the contract was written for: no answer from this job
            r.status = "unwound" if not fails else "uncompilable"
            r.log += "the contract of the loop does not fit the current code: %s\n" % [p["property"] + " " + p["description"] for p in fails + unw][:4]
            return r
        if fails or unw or r.reach_fail:
            und = undeclared(job, wd)
            if und:
                r.status = "uncompilable"
                r.log += "not declared in the current sources: %s\n" % und
                return r
        if not fails and unw:
            # more iterations than any execution of the unchanged code needs: does the real code terminate?
            p = unw[0]
            rc, o, e, t = sh(base + ["--trace", "--property", p["property"], gb], tmo or job.timeout, cwd=wd, mem_gb=20)
            try:
                for x in json.loads(o):
                    for q in x.get("result", []):
                        if q["property"] == p["property"] and "trace" in q:
                            ok, txt = native_replay(job, trace_inputs(q["trace"]), os.path.join(wd, "rep"))
                            if ok:
                                p["description"] = "loop terminates (%s)" % p["description"]
                                fails = [p]
            except ValueError:
                pass
            if fails:
                r.fails = fails
        if not fails and not unw and r.reach_fail:
            # a situation the contract speaks about can no longer occur
            fails = [dict(p, description="this can still occur: " + p["description"][8:]) for p in reach if p["status"] != "FAILURE"]
            r.fails = fails
            r.status = "refuted"
            r.cex = [(fails[0], None, None)]
            return r
        if fails:
            r.status = "refuted"
            # counterexample
            r.cex = []
            if job.src == "loops.c":  # the state in the trace is that of an arbitrary iteration, not an input
                r.cex = [(fails[0], None, None)]
                return r
            order = sorted(fails, key=lambda p: (0 if p["description"].startswith("VF:") else 1 if "ensures" in p["description"] else 2))
            for p in order[:3]:
                rc, o, e, t = sh(base + ["--trace", "--property", p["property"], gb], tmo or job.timeout, cwd=wd, mem_gb=20)
                tr = None
                try:
                    for x in json.loads(o):
                        for q in x.get("result", []):
                            if q["property"] == p["property"] and "trace" in q:
                                tr = q["trace"]
                except ValueError:
                    pass
                r.cex.append((p, trace_inputs(tr) if tr else None, tr))
        elif nobody:
            r.status = "error"
            r.log += "outside the verifier's reach: %s\n" % [p["description"] for p in nobody]
        elif unw:
            r.status = "unwound"
            r.log += "loops not fully unwound at %d: %s\n" % (unwind, [u["property"] for u in unw])
        elif r.reach_fail or (reach == [] and job.kind != "noreach"):
            r.status = "vacuous"
            r.log += "vacuity guard: %s\n" % r.reach_fail
        else:
            r.status = "ok"
        return r
    finally:
        r.wall = time.time() - t0
        if keep:
            print("kept", wd)
        else:
            shutil.rmtree(wd, ignore_errors=True)


def native_replay(job, vals, outdir):
    """Re-executes the counterexample on the real code. Returns (confirmed, text)."""
    os.makedirs(outdir, exist_ok=True)
    load = os.path.join(outdir, "inputs.inc")
    with open(load, "w") as f:
        f.write("/* inputs of the verifier's counterexample */\nvoid\nvf_load(void)\n{\n")
        for k in vals:
            if vals[k] != 0:
                f.write("  %s = %s;\n" % (k, c_int(vals[k])))
        f.write("}\n")
    main = os.path.join(outdir, "replay.c")
    with open(main, "w") as f:
        f.write('#include "sliced_%s"\n#include "inputs.inc"\nint\nmain(void)\n{\n  %s();\n  return 0;\n}\n' % (job.src, job.entry))
    slice_harness(job, outdir)
    exe = os.path.join(outdir, "replay.bin")
    cmd = ["gcc", "-w", "-g", "-O0", "-DVF_REPLAY", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-sanitize=alignment"] + INCS + list(job.defs) + [main] + [os.path.join(REPO, x) for x in job.srcs] + ["-o", exe, "-lm", "-Wl,--unresolved-symbols=ignore-all"] + list(getattr(job, "libs", []))
    rc, o, e, t = sh(cmd, 120, cwd=outdir, mem_gb=0)
    with open(os.path.join(outdir, "replay.sh"), "w") as f:
        f.write("#!/bin/bash\n# rebuilds the harness with the real sources and re-executes the counterexample\ncd \"$(dirname \"$0\")\"\n" +
                " ".join(cmd) + " && ASAN_OPTIONS=detect_leaks=0 ./replay.bin\n")
    if rc != 0:
        return False, "replay did not compile: " + e[-1500:]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    rc, o, e, t = sh([exe], 20, cwd=outdir, mem_gb=0, env=env)
    os.remove(exe)
    txt = (o + e)[-3000:]
    if rc == 77:
        return False, "inputs infeasible natively: " + txt
    if rc == -999:
        return True, "real code does not terminate within 20 s on this input\n" + txt
    if rc != 0:
        return True, txt
    return False, "native run did not fail: " + txt


def main():
    sys.path.insert(0, VERIF)
    import jobs as J
    args = sys.argv[1:]
    if not args or args[0] == "list":
        for j in J.JOBS:
            print(j.name, ",".join(j.props), j.kind, j.tier)
        return 0
    if args[0] == "native":  # developer tool: does every harness build and run natively?
        def nat(j):
            d = tempfile.mkdtemp(prefix="vfn_", dir="/tmp")
            ok, t = native_replay(j, {}, d)
            shutil.rmtree(d, ignore_errors=True)
            return j.name, ok, t
        with ThreadPoolExecutor(8) as ex:
            for n, ok, t in ex.map(nat, [j for j in J.JOBS if len(args) < 2 or j.src == args[1]]):
                if ok or "compile" in t:
                    print(n, ok, re.sub(r"\s+", " ", "".join(re.findall(r"error:[^\n]*|VF-[^\n]*|ERROR:[^\n]*", t)[:2]))[:200])
        return 0
    prop = args[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    keep = "--keep" in args
    verbose = "-v" in args
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = args[args.index("--job") + 1] if "--job" in args else None
    nw = int(os.environ.get("VF_WORKERS", "8"))
    tmax = int(os.environ.get("VF_TMO", "100000"))
    jobs = [j for j in J.JOBS if (prop in j.props or prop == "ALL" or prop == j.src) and (tier == "thorough" or j.tier == "quick") and (not only or re.fullmatch(only, j.name))]
    if not jobs:
        print("no jobs for", prop)
        return 2
    known = {"findings": []}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = json.load(open(kf))
    t0 = time.time()
    budget = 840 if tier == "quick" else 3 * 3600
    jobs.sort(key=lambda j: -j.cost)

    def go(j):
        left = budget - (time.time() - t0)
        if left < 5:
            r = Result()
            r.job, r.status, r.fails, r.log, r.obl, r.disch, r.solver_s, r.cmds, r.reach, r.wall, r.kind, r.reach_fail = j, "timeout", [], "out of time budget", 0, 0, 0.0, [], 0, 0, j.kind, []
            return r
        r = run_job(j, keep, verbose, tmo=min(tmax, j.timeout if tier == "quick" else 3600, left))
        if r.status in ("uncompilable", "error") and j.alt:
            # a function named in the harness is gone: go through its caller
            j2 = copy.copy(j)
            j2.defs = [x for x in j.defs if x != j.alt]
            r = run_job(j2, keep, verbose, tmo=min(tmax, j.timeout if tier == "quick" else 3600, max(5, budget - (time.time() - t0))))
        if verbose:
            print("%-34s %-12s obligations %5d discharged %5d  %6.1f s (solver %.1f s) %s" % (j.name, r.status, r.obl, r.disch, r.wall, r.solver_s, r.log[-1200:] if r.status not in ("ok", "refuted") else ""), flush=True)
        return r
    with ThreadPoolExecutor(nw) as ex:
        results = list(ex.map(go, jobs))
    rc = 0
    viol = []
    rdir = os.path.join(VERIF, "evidence", "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    for r in results:
        if r.status != "refuted":
            continue
        unknown = []
        for p in r.fails:
            k = None
            for f in known["findings"]:
                if f["property"] == prop and f["job"] == r.job.name and re.search(f["obligation"], p["description"] + " @ " + p.get("sourceLocation", {}).get("function", "")):
                    k = f
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                unknown.append(p)
        if not unknown:
            continue
        out = os.path.join(rdir, r.job.name)
        os.makedirs(out, exist_ok=True)
        confirmed = False
        txt = ""
        cexs = [c for c in r.cex if c[0] in unknown] or r.cex
        for (p, vals, tr) in cexs:
            if vals is None:
                continue
            ok, t = native_replay(r.job, vals, out)
            txt += "obligation %s (%s)\n%s\n" % (p["property"], p["description"], t)
            if ok:
                confirmed = True
                break
        rep = os.path.join(out, "report.txt")
        with open(rep, "w") as f:
            f.write("property %s, contract job %s (%s, entry %s)\nfailed obligations:\n" % (prop, r.job.name, r.job.src, r.job.entry))
            for p in unknown:
                sl = p.get("sourceLocation", {})
                f.write("  %s: %s [%s:%s in %s]\n" % (p["property"], p["description"], sl.get("file"), sl.get("line"), sl.get("function")))
            f.write("commands:\n  " + "\n  ".join(r.cmds) + "\nnative replay: %s\n%s\n" % ("CONFIRMED on the real code" if confirmed else "not confirmed", txt))
            for (p, vals, tr) in cexs[:1]:
                if vals:
                    f.write("inputs:\n" + "\n".join("  %s = %d" % kv for kv in vals.items() if kv[1]) + "\n")
        viol.append({"job": r.job.name, "obligations": [p["description"] for p in unknown][:20], "replay": rep, "confirmed": confirmed})
        print("  refuted in %s: %s" % (r.job.name, "; ".join("%s [%s]" % (p["description"], p.get("sourceLocation", {}).get("function")) for p in unknown[:4])))
        print("VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(rep, VERIF), "" if confirmed else " no-failing-input-found"))
        rc = 1
    bad = [r for r in results if r.status in ("error", "timeout", "vacuous", "unwound", "uncompilable")]
    decided = [r for r in results if r.status in ("ok", "refuted")]
    undec = []
    for r in bad:
        undec.append({"job": r.job.name, "status": r.status, "log": r.log[-600:]})
        print("UNDECIDED job=%s status=%s %s" % (r.job.name, r.status, r.log.strip().splitlines()[-1][:300] if r.log.strip() else ""))
    if rc == 0 and not decided:
        rc = 2  # nothing decided; otherwise the undecided contracts are listed in the evidence and not counted
    fns = sorted({f for r in decided for f in (r.job.contracts or r.job.enforce)})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "proof" if prop == "ALL" else J.LEVEL.get(prop, "proof"),
        "coverage": {
            "obligations": sum(r.obl for r in results), "discharged": sum(r.disch for r in results),
            "checker_cmd": "python3 run.py check %s --tier %s  (goto-cc; goto-instrument --dfcc --enforce-contract ...; cbmc)" % (prop, tier),
            "trusted_base": ["CBMC 6.11 front end, DFCC contract instrumentation and built-in C library models", "MiniSat / CaDiCaL SAT back end", "gcc include of the same source files for replay"],
            "functions_under_contract": fns,
            "jobs": [{"job": r.job.name, "status": r.status, "kind": r.kind, "bound": r.job.bound, "obligations": r.obl, "discharged": r.disch,
                      "reachability_guards_hit": r.reach, "solver_s": round(r.solver_s, 2), "wall_s": round(r.wall, 2),
                      "back_end": "cvc5" if "--cvc5" in r.job.solver else "cadical" if "cadical" in r.job.solver else "minisat2",
                      "contracts": list(r.job.contracts or r.job.enforce), "dfcc_enforced": list(r.job.enforce), "replaced_by_contract": list(r.job.replace)} for r in results],
            "solver_s": round(sum(r.solver_s for r in results), 2),
            "bounded_jobs": [r.job.name + ": " + r.job.bound for r in results if r.kind == "bounded"],
            "undecided": undec,
        },
        "assumptions": sorted({a for r in results for a in r.job.assumes} | set(J.COMMON_ASSUMPTIONS)),
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d jobs, %d/%d obligations discharged, %d refuted, %d undecided, %.1f s" % (prop, len(results), ev["coverage"]["discharged"], ev["coverage"]["obligations"], sum(1 for r in results if r.status == "refuted"), len(bad), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
