#!/usr/bin/env python3
"""Runs the contract obligations of one property against /repo's current tree.

usage: driver.py PROPERTY {quick|thorough}

exit 0: every obligation discharged (or reduced coverage, labelled in the evidence)
exit 1: VIOLATION line(s) printed
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GV_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "gv"))
sys.dont_write_bytecode = True

INCLUDES = [f"{VERIF}/spec", f"{REPO}", f"{REPO}/include", f"{REPO}/runtime",
            f"{REPO}/runtime/link/socket"]
NATIVE_FLAGS = ["-g", "-O0", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                "-fno-sanitize=alignment,shift", "-fno-omit-frame-pointer"]


# external functions whose effect does not matter (any answer, no effect on checked state)
KNOWN_EXTERNAL = {"nondet_gv_u64", "printf", "fprintf", "puts", "putchar"}


class Unit:
    def __init__(self, name, src, entry, functions, mode="plain", enforce=None, replace=(),
                 defines=(), unwind=None, unwindset=(), bound=None, cbmc=(), timeout=300,
                 tier="quick", loops=(), fallback=(), gi=(), what="", fallback_only=False,
                 objbits=None, gen=None, assumptions=(), solver=None, fp=None):
        self.name, self.src, self.entry = name, src, entry
        self.functions = list(functions)
        self.mode = mode
        self.enforce, self.replace = enforce, list(replace)
        self.defines = list(defines)
        self.unwind, self.unwindset = unwind, list(unwindset)
        self.bound = bound
        self.cbmc = list(cbmc)
        self.timeout = timeout
        self.tier = tier
        self.loops = list(loops)
        self.fallback = list(fallback)
        self.gi = list(gi)
        self.what = what
        self.fallback_only = fallback_only
        self.objbits = objbits
        self.gen = gen
        self.assumptions = list(assumptions)
        self.solver = solver
        self.fp = fp or {}


def sh(cmd, timeout, cwd=None, env=None):
    t = time.time()
    try:
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
            os.setsid()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                             preexec_fn=lim)
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return None, "", "timeout", time.time() - t
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace"), time.time() - t
    except Exception as ex:
        return -99, "", repr(ex), time.time() - t


def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        # cbmc can stop in the middle of the list
        try:
            return json.loads(out.rstrip().rstrip(",") + "]")
        except Exception:
            return []


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = "?"        # proved | failed | unattached | timeout
        self.obligations = 0
        self.discharged = 0
        self.failed = []         # (property, description, location)
        self.reach_ok = 0
        self.reach_missing = []
        self.seconds = 0.0
        self.solver_s = 0.0
        self.note = ""
        self.inputs = None
        self.replay = None       # dict when natively reproduced
        self.log = ""
        self.cmd = ""
        self.unwind_open = False
        self.nobody = set()      # called functions nothing is known about


def build(unit, work, log, extra_def=()):
    """compile the harness with goto-cc, instrument; returns goto binary or (None, reason)"""
    a = os.path.join(work, unit.name + ".gb")
    incs = []
    for d in unit_includes(unit, work):
        incs += ["-I", d]
    defs = ["-D" + d for d in unit.defines] + ["-DGV_CBMC"] + ["-D" + d for d in extra_def]
    if unit.mode == "dfcc":
        defs.append("-DGV_DFCC")
    cmd = ["goto-cc", "-std=gnu11"] + defs + incs + ["--function", unit.entry, os.path.join(VERIF, unit.src), "-o", a]
    rc, o, e, t = sh(cmd, 120, cwd=work)
    log.append("$ " + " ".join(cmd) + "\n" + o[-3000:] + e[-3000:])
    if rc != 0:
        return None, "harness does not compile against the current source: " + (e or o)[-600:]
    if unit.mode == "dfcc":
        b = os.path.join(work, unit.name + ".dfcc.gb")
        cmd = ["goto-instrument"] + unit.gi + ["--dfcc", unit.entry]
        if unit.enforce:
            cmd += ["--enforce-contract", unit.enforce]
        for r in unit.replace:
            cmd += ["--replace-call-with-contract", r]
        if unit.loops:
            cmd += ["--apply-loop-contracts"]
        cmd += [a, b]
        rc, o, e, t = sh(cmd, 300, cwd=work)
        log.append("$ " + " ".join(cmd) + "\n" + (o + e)[-2500:])
        if rc != 0:
            return None, "contract cannot be attached: " + (o + e)[-600:]
        a = b
    else:
        b = os.path.join(work, unit.name + ".p.gb")
        fp = fp_restrictions(unit, a, work) if unit.fp else []
        if fp:
            c = os.path.join(work, unit.name + ".f.gb")
            rc, o, e, t = sh(["goto-instrument"] + fp + [a, c], 120, cwd=work)
            log.append("$ goto-instrument " + " ".join(fp) + "\n" + (o + e)[-1500:])
            if rc == 0:
                a = c
        if unit.gi:
            c = os.path.join(work, unit.name + ".g.gb")
            rc, o, e, t = sh(["goto-instrument"] + unit.gi + [a, c], 120, cwd=work)
            log.append("$ goto-instrument " + " ".join(unit.gi) + "\n" + (o + e)[-1500:])
            if rc != 0:
                return None, "contract cannot be attached: " + (o + e)[-600:]
            a = c
        cmd = ["goto-instrument", "--drop-unused-functions", a, b]
        rc, o, e, t = sh(cmd, 120, cwd=work)
        if rc == 0:
            a = b
    return a, ""


def fp_restrictions(unit, gb, work):
    """Indirect calls in the real code go through members of operation tables. For the members
    a unit names, the possible targets are given; goto-instrument adds an obligation that the
    pointer is one of them, so a wrong target list can only fail, never hide anything."""
    rc, o, e, t = sh(["goto-instrument", "--show-goto-functions", gb], 120, cwd=work)
    rc2, sy, _, _ = sh(["goto-instrument", "--list-goto-functions", gb], 120, cwd=work)
    have = set(re.findall(r"\b(\w+)\b", sy))
    out, cur, n = [], None, 0
    for line in o.splitlines():
        m = re.match(r"^(\S+) /\* \S+ \*/$", line)
        if m:
            cur, n = m.group(1), 0
            continue
        m = re.match(r"^\s+CALL (?:\S+ := )?\*(.*)$", line)
        if not m:
            continue
        n += 1
        x = m.group(1)
        if x.startswith("("):
            d = 0
            for i, c in enumerate(x):
                d += (c == "(") - (c == ")")
                if d == 0:
                    break
            expr = x[:i + 1]
        else:
            expr = x.split("(")[0]
        ids = [w for w in re.findall(r"\w+", expr) if w in unit.fp]
        if ids:
            tg = [f for f in unit.fp[ids[-1]] if f in have]
            if tg:
                out += ["--restrict-function-pointer", f"{cur}.function_pointer_call.{n}/{','.join(tg)}"]
    return out


def unit_includes(unit, work):
    dirs = []
    if unit.loops:
        dirs.append(os.path.join(work, "x_" + unit.name))
    if unit.gen:
        dirs.append(os.path.join(work, "gen"))
    return dirs + INCLUDES


def cbmc_cmd(unit, gb, unwinding=True):
    cmd = ["cbmc", gb, "--json-ui", "--no-malloc-may-fail", "--verbosity", "8"]
    if unit.unwind:
        cmd += ["--unwind", str(unit.unwind)]
    if unit.unwindset:
        cmd += ["--unwindset", ",".join(unit.unwindset)]
    if not unwinding:
        cmd += ["--no-unwinding-assertions"]
    if unit.objbits:
        cmd += ["--object-bits", str(unit.objbits)]
    if unit.solver:
        cmd += unit.solver
    return cmd + unit.cbmc


TAG = re.compile(r"^GV:(C\d\d(?:,C\d\d)*): ")


def foreign(desc, prop=None):
    """an obligation that belongs to other properties only"""
    m = TAG.match(desc)
    return bool(m) and (prop or PROP) not in m.group(1).split(",")


PROP = ""


def classify(unit, data, res):
    results = None
    for x in data:
        if isinstance(x, dict) and "result" in x:
            results = x["result"]
        if isinstance(x, dict) and "messageText" in x:
            m = re.search(r"Runtime decision procedure: ([0-9.]+)s", x["messageText"])
            if m:
                res.solver_s += float(m.group(1))
            m = re.search(r"no body for function (\S+)", x["messageText"])
            if m and m.group(1) not in KNOWN_EXTERNAL:
                res.nobody.add(m.group(1))
            if x.get("messageType") == "ERROR":
                res.note += " cbmc: " + x["messageText"][:300]
    if results is None:
        return False
    res.obligations = res.discharged = 0
    res.failed, res.reach_missing, res.reach_ok = [], [], 0
    for r in results:
        d = r.get("description", "")
        loc = r.get("sourceLocation", {})
        if d.startswith("GV-REACH:"):
            if r["status"] == "FAILURE":
                res.reach_ok += 1
            else:
                res.reach_missing.append(d)
            continue
        if "unwind" in r["property"].split(".")[-2:-1] or d.startswith("unwinding assertion") or d.startswith("recursion unwinding"):
            if r["status"] != "SUCCESS":
                res.unwind_open = True
                res.failed.append((r["property"], d, "unwind"))
            else:
                res.discharged += 1
            res.obligations += 1
            continue
        if foreign(d) or d.startswith("arithmetic overflow on signed shl"):
            continue  # 1 << 31 on int: defined by the compilers used (two's complement)
        res.obligations += 1
        if r["status"] == "SUCCESS":
            res.discharged += 1
        else:
            res.failed.append((r["property"], d, "%s:%s (%s)" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"), loc.get("function", "?")), r["status"]))
    return True


def extract_inputs(data):
    for x in data:
        if not isinstance(x, dict) or "result" not in x:
            continue
        for r in x["result"]:
            if r.get("status") == "FAILURE" and "trace" in r:
                vals = []
                for st in r["trace"]:
                    if st.get("stepType") == "assignment" and st.get("lhs", "").split("!")[0] == "gv_rec" and not st.get("hidden"):
                        v = st.get("value", {})
                        b = v.get("binary")
                        if b is not None:
                            vals.append(int(b, 2))
                        else:
                            m = re.match(r"(\d+)", str(v.get("data", "0")))
                            vals.append(int(m.group(1)) if m else 0)
                return vals
    return None


def native_build(unit, work, log):
    exe = os.path.join(work, unit.name + ".native")
    if os.path.exists(exe):
        return exe
    incs = []
    for d in unit_includes(unit, work):
        if os.path.basename(d).startswith("x_"):
            continue
        incs += ["-I", d]
    cmd = ["gcc", "-std=gnu11"] + NATIVE_FLAGS + ["-D" + d for d in unit.defines] + incs + \
          [os.path.join(VERIF, unit.src), os.path.join(VERIF, "spec/native_main.c"),
           "-DGV_ENTRY=" + unit.entry, "-o", exe, "-lpthread"]
    rc, o, e, _ = sh(cmd, 120, cwd=work)
    log.append("$ " + " ".join(cmd) + "\n" + e[-1500:])
    return exe if rc == 0 else None


def native_run(exe, inputs, work, unit, limit=40):
    f = os.path.join(work, unit.name + ".inputs")
    with open(f, "w") as h:
        h.write("\n".join(str(v) for v in inputs) + "\n")
    env = dict(os.environ, GV_PROP=PROP, GV_ALARM=str(max(20, limit - 10)), ASAN_OPTIONS="exitcode=43:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096", UBSAN_OPTIONS="print_stacktrace=1")
    def lim():
        os.setsid()
    try:
        p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, cwd=work, env=env, preexec_fn=lim)
        return p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -14, "native replay timed out (does not terminate)"


def try_replay(unit, gb, failed, work, log, unwinding):
    """for the failed obligations, get a trace each and replay natively"""
    out = []
    exe = None
    names = [f[0] for f in failed if f[2] != "unwind"]
    # prefer postconditions / harness assertions over memory-safety obligations
    names.sort(key=lambda p: 0 if ("assertion" in p or "postcondition" in p) else 1)
    for p in names[:6]:
        cmd = cbmc_cmd(unit, gb, unwinding) + ["--property", p, "--trace"]
        rc, o, e, t = sh(cmd, unit.timeout)
        if rc is None:
            continue
        data = parse_json(o)
        inputs = extract_inputs(data)
        if inputs is None:
            continue
        if exe is None:
            exe = native_build(unit, work, log)
            if exe is None:
                return out
        rc, err = native_run(exe, inputs, work, unit)
        log.append(f"native replay of {p}: exit {rc}\n{err[-1500:]}")
        if rc not in (0, 3):
            out.append({"obligation": p, "inputs": inputs, "exit": rc, "stderr": err[-4000:], "unit": unit.name})
            return out
    return out


def run_native(unit, work, res, log):
    """bounded stand-in: the real code, compiled natively, on the finite set of histories the
    harness enumerates (never counted as proved)"""
    exe = native_build(unit, work, log)
    if exe is None:
        res.status, res.note = "unattached", "harness does not compile against the current source: " + log[-1][-600:]
        return res
    rc, err = native_run(exe, [], work, unit, unit.timeout)
    log.append(f"native run: exit {rc}\n{err[-2000:]}")
    res.cmd = exe
    if rc == 0:
        res.status, res.obligations, res.discharged = "proved", 1, 1
    elif rc == -14 and "timed out" in err:
        res.status, res.note = "timeout", err
    else:
        res.status, res.obligations = "failed", 1
        res.failed = [("native." + unit.name, err.strip()[-400:], unit.src)]
        res.replay = {"obligation": "native." + unit.name, "inputs": [], "exit": rc, "stderr": err[-4000:], "unit": unit.name}
    return res


def run_unit(unit, work):
    res = Result(unit)
    log = []
    t0 = time.time()
    try:
        if unit.mode == "native":
            return run_native(unit, work, res, log)
        if unit.loops:
            import inject
            ok, why = inject.apply(REPO, os.path.join(work, "x_" + unit.name), unit.loops)
            if not ok:
                res.status, res.note = "unattached", why
                return res
        gb, why = build(unit, work, log)
        if gb is None:
            res.status, res.note = "unattached", why
            return res
        cmd = cbmc_cmd(unit, gb)
        res.cmd = " ".join(cmd)
        rc, o, e, t = sh(cmd, unit.timeout)
        log.append("$ " + res.cmd + f"\nexit {rc} in {t:.1f}s")
        if rc is None:
            res.status, res.note = "timeout", f"no answer within {unit.timeout} s"
            return res
        data = parse_json(o)
        if not classify(unit, data, res):
            res.status, res.note = "unattached", "verifier gave no verdict: " + res.note + e[-300:] + o[-300:]
            return res
        unwinding = True
        if res.unwind_open:
            # more iterations than the stated complete bound: look at the bounded part only
            unwinding = False
            cmd = cbmc_cmd(unit, gb, False)
            rc, o, e, t = sh(cmd, unit.timeout)
            if rc is None:
                res.status, res.note = "timeout", "loop bound no longer complete; bounded rerun timed out"
                return res
            res2 = Result(unit)
            data2 = parse_json(o)
            if not classify(unit, data2, res2):
                res.status, res.note = "unattached", "bounded rerun gave no verdict"
                return res
            res.obligations, res.discharged, res.failed = res2.obligations, res2.discharged, res2.failed
            res.note = "loop bound not complete any more: bounded"
        hard = [f for f in res.failed if f[2] != "unwind"]
        undecided = [f for f in hard if len(f) > 3 and f[3] not in ("FAILURE",)]
        if hard and len(undecided) == len(hard):
            res.status, res.note = "unattached", "obligations undecided: " + str(hard[:3])
        elif hard and res.nobody:
            res.status, res.note = "unattached", "calls functions outside the contracts: " + ", ".join(sorted(res.nobody))
        elif hard:
            res.status = "failed"
            rp = try_replay(unit, gb, hard, work, log, unwinding)
            if rp:
                res.replay = rp[0]
        elif res.reach_missing:
            res.status, res.note = "unattached", "vacuous: unreachable " + ", ".join(res.reach_missing)
        elif res.obligations == 0:
            res.status, res.note = "unattached", "no obligations generated"
        elif res.unwind_open:
            res.status = "bounded"
        else:
            res.status = "proved"
            if res.nobody:
                res.note += "; arbitrary behaviour assumed for " + ", ".join(sorted(res.nobody))
        return res
    finally:
        res.seconds = time.time() - t0
        res.log = "\n".join(log)


def main():
    global PROP
    PROP = sys.argv[1]
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    import units
    P = units.PROPERTIES[prop]
    allu = P["units"]
    byname = {u.name: u for u in allu}
    base = os.path.join(VERIF, ".work")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "_", dir=base)
    code = 0
    try:
        code = run_property(prop, tier, P, allu, byname, work, t0)
    finally:
        if not os.environ.get("GV_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run_property(prop, tier, P, allu, byname, work, t0):
    genmsg = ""
    if any(u.gen for u in allu):
        import gengen
        genmsg = gengen.generate(REPO, VERIF, os.path.join(work, "gen"))
    sel = [u for u in allu if not u.fallback_only and (u.tier == "quick" or tier == "thorough")]
    only = os.environ.get("GV_UNIT")
    if only:
        sel = [u for u in allu if re.search(only, u.name)]
    jobs = int(os.environ.get("GV_JOBS", "6"))
    results = []
    done = set()

    def run_many(us):
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            for r in ex.map(lambda u: run_unit(u, work), us):
                results.append(r)
                done.add(r.unit.name)
                if os.environ.get("GV_VERBOSE"):
                    print(f"  {r.unit.name:34s} {r.status:10s} {r.discharged}/{r.obligations} reach={r.reach_ok} {r.seconds:.1f}s {r.note[:300]}", file=sys.stderr)
                    for f in r.failed[:8]:
                        print("      ", f, file=sys.stderr)
                    if r.replay:
                        print("       REPLAY exit", r.replay["exit"], r.replay["stderr"][:300].replace("\n", " | "), file=sys.stderr)
                    if os.environ.get("GV_VERBOSE") == "2":
                        print(r.log, file=sys.stderr)

    run_many(sel)
    # layered verdict: what could not be decided or replayed goes to the bounded stand-ins
    fb = []
    for r in results:
        if r.status != "proved" and not r.replay:
            for n in r.unit.fallback:
                if n not in done and n not in [u.name for u in fb]:
                    fb.append(byname[n])
    if fb:
        run_many(fb)

    # verdict
    violations = []
    rdir = os.path.join(VERIF, "replays")
    byres = {r.unit.name: r for r in results}
    reported = set()
    for r in results:
        if r.status == "failed" and r.replay:
            violations.append((r, r.replay))
    if not violations:
        for r in results:
            if r.status == "failed":
                violations.append((r, None))
    known = []
    for l in P.get("known", []):
        known.append(l)
    lines = []
    for i, (r, rp) in enumerate(violations):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{r.unit.name}.json")
        body = {
            "property": prop, "unit": r.unit.name, "checks": r.unit.what,
            "failed_obligations": [{"obligation": f[0], "text": f[1], "at": f[2]} for f in r.failed[:40]],
            "verifier_log": r.log[-6000:],
        }
        if rp:
            body["native_replay"] = {"obligation": rp["obligation"], "inputs": rp["inputs"], "exit": rp["exit"], "stderr": rp["stderr"],
                                     "how": f"gcc {' '.join(NATIVE_FLAGS)} {' '.join('-D' + d for d in r.unit.defines)} -I... {r.unit.src} spec/native_main.c -DGV_ENTRY={r.unit.entry}; run with a file of the inputs"}
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if rp else " no-failing-input-found"))
        first = r.failed[0] if r.failed else ("?", "?", "?")
        print(f"{prop}: unit {r.unit.name}: obligation {first[0]} failed: {first[1]} at {first[2]}")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")

    proved = [r for r in results if r.status == "proved"]
    full = [r for r in proved if not r.unit.bound]
    bnd = [r for r in results if (r.status == "proved" and r.unit.bound) or r.status == "bounded"]
    weak = [r for r in results if r.status in ("unattached", "timeout")]
    ob = sum(r.obligations for r in full)
    di = sum(r.discharged for r in full)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": P.get("level", "proof"),
        "coverage": {
            "obligations": sum(r.obligations for r in results if r.status not in ("unattached", "timeout") and not r.unit.bound),
            "discharged": di,
            "checker_cmd": "goto-cc; goto-instrument --dfcc --enforce-contract/--replace-call-with-contract [--apply-loop-contracts]; cbmc 6.11 (MiniSat2 SAT back end unless a unit names another)",
            "trusted_base": P.get("trusted", []) + ["goto-cc/goto-instrument/cbmc 6.11 and its SAT solver", "the contract predicates in /verif/spec and /verif/harness"],
            "functions_under_contract": sorted({f for r in results for f in r.unit.functions}),
            "units": [{
                "unit": r.unit.name, "what": r.unit.what, "status": r.status if not r.unit.bound or r.status != "proved" else "bounded-ok",
                "bound": r.unit.bound or ("none" if r.status == "proved" else ""), "mode": r.unit.mode,
                "functions": r.unit.functions, "obligations": r.obligations, "discharged": r.discharged,
                "reachability_guards_hit": r.reach_ok, "seconds": round(r.seconds, 2), "solver_seconds": round(r.solver_s, 2),
                "note": r.note[:400]} for r in results],
            "bounded_obligations": sum(r.obligations for r in bnd),
            "bounded_discharged": sum(r.discharged for r in bnd),
            "undecided_units": [{"unit": r.unit.name, "reason": r.note[:300]} for r in weak],
            "solver_seconds": round(sum(r.solver_s for r in results), 2),
        },
        "assumptions": sorted(set(P.get("assumptions", []) + [a for r in results for a in r.unit.assumptions])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    if P.get("explain"):
        ev["coverage"]["explanation"] = P["explain"]
    if genmsg:
        ev["coverage"]["generated_code"] = genmsg
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    if lines:
        return 1
    for r in weak:
        print(f"{prop}: note: unit {r.unit.name} not decided on this tree ({r.note[:160]})")
    if not proved and not bnd:
        print(f"{prop}: no unit could be decided on this tree")
        return 2
    print(f"{prop}: {len(proved)} units ok, {di}/{ob} unbounded obligations discharged, {sum(r.discharged for r in bnd)} bounded, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    main()
