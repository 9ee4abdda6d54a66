#!/usr/bin/env python3
"""Decides one property by bounded symbolic execution of the real library code.

  check.py <ID> [--tier quick|thorough]     run the check, rewrite evidence/<ID>.json
  check.py --replay <file>                  re-run a recorded counterexample natively

Every run recompiles the harnesses against /repo/include, so the encoding always
follows the current tree.  Exit 0: no violation on everything explored.  Exit 1: a
counterexample was found by the solver and reproduced natively.  Exit 2: the check
could not decide (compile error, vacuous harness, executor and program disagree).
States left unexplored (time budget, something the executor cannot follow) do not make
a verdict: they are listed on an INCOMPLETE line and in the evidence (exhaustive: false)."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
from specs import SPECS
SX = os.path.join(VERIF, "build", "sx")
CXX = "clang++"
BC = ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-w", "-emit-llvm", "-c", "-DSX_BC"]
NAT = ["-O1", "-g1", "-w", "-rdynamic", "-fno-omit-frame-pointer"]
JOBS = int(os.environ.get("VP_JOBS", "8"))

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Unit:
    def __init__(s, spec, tier, tmp):
        s.file = spec["file"]; s.kind = spec["kind"]; s.defs = list(spec.get("defs", [])); s.std = spec.get("std", "c++17")
        s.arena = spec.get("arena", False); s.entries = spec.get("entries", ["h_"]); s.twin = spec.get("twin", False)
        s.name = f"{s.file[:-4]}.k{s.kind}" + "".join("." + d.replace("=", "") for d in s.defs) + ("" if s.std == "c++17" else "." + s.std)
        s.flags = [f"-std={s.std}", f"-DKIND={s.kind}", f"-DTHOROUGH={1 if tier == 'thorough' else 0}", f"-I{REPO}/include", f"-I{VERIF}/harness"] + ["-D" + d for d in s.defs]
        s.src = os.path.join(VERIF, "harness", s.file); s.bc = os.path.join(tmp, s.name + ".bc"); s.exe = os.path.join(tmp, s.name + ".exe"); s.out = os.path.join(tmp, s.name + ".out")
    def compile_bc(s): return s.link_twin(BC, s.bc) if s.twin else sh([CXX] + s.flags + BC + [s.src, "-o", s.bc])
    def link_twin(s, opts, out): # the harness twice in one program, the second copy with everything but side1_do and the harness's globals private to it
        a, b = out + ".0", out + ".1"
        for side, o in ((0, a), (1, b)):
            r = sh([CXX] + s.flags + opts + [f"-DSIDE={side}", s.src, "-o", o])
            if r.returncode: return r
        g = sh(["llvm-nm", "--defined-only", "--format=posix", b]); pub = [l.split()[0] for l in g.stdout.splitlines() if re.match(r"(g|side1)_\w+ ", l)]
        r = sh(["opt", "-passes=internalize", "-internalize-public-api-list=" + ",".join(pub), b, "-o", b])
        return r if r.returncode else sh(["llvm-link", a, b, "-o", out])
    def compile_native(s):
        if s.twin:
            r = s.link_twin(["-O1", "-g1", "-w", "-emit-llvm", "-c"], s.exe + ".bc")
            return r if r.returncode else sh([CXX, "-std=" + s.std, f"-I{VERIF}/harness"] + NAT + [s.exe + ".bc", os.path.join(VERIF, "harness", "native.cpp"), "-o", s.exe, "-ldl"])
        san = ["-DARENA"] if s.arena else ["-fsanitize=address"]
        return sh([CXX] + s.flags + NAT + san + [s.src, os.path.join(VERIF, "harness", "native.cpp"), "-o", s.exe, "-ldl"])

def run_native(exe, entry, inputs, fill=None):
    env = dict(os.environ); o = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    if fill is not None: o += f":max_malloc_fill_size=4096:malloc_fill_byte={fill}"
    env["ASAN_OPTIONS"] = o
    try: p = subprocess.run([exe, entry] + (inputs.split(" ") if inputs else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, env=env)
    except subprocess.TimeoutExpired: return "hang", "timeout"
    out = p.stdout
    if p.returncode == 0:
        m = re.search(r"OBS ([0-9a-f]{16})", out); return "ok", m.group(1) if m else ""
    if p.returncode == 77: m = re.search(r"FAIL (.*)", out); return "fail", m.group(1) if m else out[-300:]
    if p.returncode == 99: m = re.search(r"AddressSanitizer: ([^\n]*)", out); return "fail", "AddressSanitizer: " + (m.group(1)[:160] if m else "")
    if p.returncode in (78, 79, 2): return "diverged", out[-300:]
    return "fail", f"process died with status {p.returncode}"

def known():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) unit=(\S+) entry=(\S+) match=(.*)$", l.strip())
            if m: r.append(m.groups())
    return r

def main():
    if sys.argv[1:2] == ["--replay"]:
        d = json.load(open(sys.argv[2])); tmp = tempfile.mkdtemp(prefix="vp_replay_")
        try:
            u = Unit(d["unit"], d["tier"], tmp); r = u.compile_native()
            if d["entry"] == "(compile)": print(r.stdout[-2000:] if r.returncode else "compiles"); return 1 if r.returncode else 0
            if r.returncode: print(r.stdout[-2000:]); return 2
            st, msg = run_native(u.exe, d["entry"], d["inputs"], d.get("fill")); print(st, msg); return 1 if st in ("fail", "hang") else 0
        finally: shutil.rmtree(tmp, ignore_errors=True)
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    spec = SPECS[pid]; budget = 780 if tier == "quick" else 6 * 3600
    b = sh(["bash", os.path.join(VERIF, "engine", "build.sh")])
    if b.returncode: print(b.stdout[-3000:]); print("ERROR cannot build the engine"); return 2
    tmp = tempfile.mkdtemp(prefix=f"vp_{pid}_", dir=os.environ.get("TMPDIR", "/tmp"))
    try: return decide(pid, tier, seed, t0, spec, budget, tmp, only)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def decide(pid, tier, seed, t0, spec, budget, tmp, only):
    verbose = "-v" in sys.argv
    units = [Unit(u, tier, tmp) for u in spec["units"] if tier == "thorough" or not u.get("thorough_only")]
    specs_by_name = {Unit(u, tier, tmp).name: u for u in spec["units"]}
    if only: units = [u for u in units if only in u.name]
    errors, vios, stats, covers, samples, fns, models, engerr = [], [], {}, {}, [], set(), set(), []
    incomplete = skipped = nerr = 0; rejected = []
    pool = cf.ThreadPoolExecutor(JOBS)
    bcs = {u: pool.submit(u.compile_bc) for u in units}; nats = {u: pool.submit(u.compile_native) for u in units}
    for u in units:
        r = bcs[u].result()
        if r.returncode:
            e = [l for l in r.stdout.splitlines() if "error" in l][:5]; rejected.append((u, " | ".join(e)[:1500])); continue
        left = max(20, budget - (time.time() - t0)); tu = time.time()
        p = sh([SX, "-j", str(JOBS), "-o", u.out, "-t", str(left), "-seed", str(seed), "-samples", "2"] + sum((["-e", e] for e in u.entries), []) + [u.bc])
        if p.returncode not in (0,) and not os.path.exists(u.out): errors.append(f"{u.name}: engine failed: {p.stdout[-500:]}"); continue
        ended = False
        for f in [u.out] + sorted(glob.glob(glob.escape(u.out) + ".*")):
            if not os.path.exists(f): continue
            for line in open(f, errors="replace"):
                c = line.rstrip("\n").split("\t")
                if c[0] == "STAT":
                    s = stats.setdefault((u.name, c[1]), [0] * 13); v = [int(x) if "." not in x else float(x) for x in c[2:]]
                    for i, x in enumerate(v): s[i] = max(s[i], x) if i in (8, 9) else s[i] + x
                elif c[0] == "COVER": covers.setdefault(u.file, set()).add(c[2])
                elif c[0] == "SAMPLE": samples.append((u, c[1], c[2], c[3] if len(c) > 3 else ""))
                elif c[0] == "FN": fns.add(c[1])
                elif c[0] == "MODEL": models.add(c[1])
                elif c[0] == "VIO": vios.append((u, c[1], c[2], c[3], c[4], c[5] if len(c) > 5 else ""))
                elif c[0] == "ERR": engerr.append(f"{u.name}:{c[1]}: {c[2]} at {c[3][:300]}")
                elif c[0] == "END": nerr += int(c[1]); incomplete += int(c[2]); skipped += int(c[3]); ended = True
        if not ended: errors.append(f"{u.name}: engine produced no result: {p.stdout[-500:]}")
        if os.environ.get("VP_FAST") and vios: # mutation runs: the first counterexample is enough
            for x in list(bcs.values()) + [n for k, n in nats.items() if k is not u]: x.cancel()
            units = [u]; break
        if verbose: print(f"  {u.name}: {time.time()-tu:.1f}s", {k[1]: v[:2] + [round(v[5], 2)] for k, v in stats.items() if k[0] == u.name}, flush=True)
    # --- counterexamples are replayed against the real code
    kf = known(); confirmed, unconfirmed, knownhit = [], [], set()
    seen = set(); rdir = os.path.join(VERIF, "evidence", "replays"); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "_"): os.unlink(os.path.join(rdir, f))
    for (u, entry, kind, msg, where, inputs) in vios:
        key = (u.name, entry, kind, msg)
        if key in seen or len(confirmed) >= 12: continue
        r = nats[u].result()
        if r.returncode: errors.append(f"replayer {u.name} does not compile: " + r.stdout[-400:]); seen.add(key); continue
        st = "ok"; fillused = None
        for fill in (None, 0, 255):
            st, nmsg = run_native(u.exe, entry, inputs, fill); fillused = fill
            if st in ("fail", "hang"): break
        if st in ("fail", "hang"):
            seen.add(key); hit = [k for k in kf if k[0] == pid and k[1] in (u.name, "*") and k[2] in (entry, "*") and k[3] in (msg + " :: " + nmsg)]
            if hit: knownhit.add(hit[0]); continue
            path = os.path.join(rdir, f"{pid}_{len(confirmed)}.json")
            json.dump({"property": pid, "unit": specs_by_name[u.name], "tier": tier, "entry": entry, "inputs": inputs, "fill": fillused, "engine": f"{kind}: {msg}", "native": nmsg, "where": where}, open(path, "w"), indent=1)
            confirmed.append((path, u.name, entry, kind, msg, nmsg, where, inputs))
        else: unconfirmed.append(f"{u.name}:{entry}: {kind}: {msg} [{inputs}] native: {st} {nmsg} at {where[:400]}")
    # --- a program the property speaks about, rejected by the compiler although plain use of the library is accepted
    if rejected:
        pr = sh([CXX] + rejected[0][0].flags + ["-fsyntax-only", os.path.join(VERIF, "harness", "probe.cpp")])
        for u, e in rejected:
            r = nats[u].result() if not nats[u].cancelled() else None
            if pr.returncode == 0 and r is not None and r.returncode == 1 and "error:" in r.stdout and e and len(confirmed) < 12:
                path = os.path.join(rdir, f"{pid}_{len(confirmed)}.json")
                json.dump({"property": pid, "unit": specs_by_name[u.name], "tier": tier, "entry": "(compile)", "inputs": "", "fill": None, "engine": "rejected by the compiler", "native": e, "where": u.file}, open(path, "w"), indent=1)
                confirmed.append((path, u.name, "(compile)", "rejected", "a program within the property's bounds no longer compiles", e, u.file, ""))
            else: errors.append(f"harness {u.name} does not compile: {e}")
    # --- sampled paths: the engine's prediction of every observation must match the real execution
    validated = 0; mism = []
    def val(x):
        u, entry, h, inp = x
        r = nats[u].result()
        if r.returncode: return ("compile", r.stdout[-400:], x)
        st, o = run_native(u.exe, entry, inp); return ("ok" if st == "ok" and o == h else "bad", f"{st} {o} expected {h}", x)
    bykey = {}
    for x in samples: bykey.setdefault((x[0].name, x[1]), []).append(x)
    todo = [x for v in bykey.values() for x in v[:3]]
    for st, m, x in pool.map(val, todo):
        if st == "ok": validated += 1
        else: mism.append(f"{x[0].name}:{x[1]} [{x[3]}]: {m}")
    # --- vacuity
    for f in {u.file for u in units}:
        text = open(os.path.join(VERIF, "harness", f)).read()
        for hname in re.findall(r'#include "(\w+\.inc)"', text): text += open(os.path.join(VERIF, "harness", hname)).read()
        want = set(re.findall(r'sx_reach\("([^"]+)"\)', text)) | {e for e in re.findall(r'^(?:ENTRY|HIST)\((\w+)[,)]', text, re.M) if any(k[1] == "h_" + e for k in stats)}; miss = want - covers.get(f, set()) - {v[1][2:] for v in vios}
        if miss and not confirmed and not only and not engerr and not incomplete: errors.append(f"vacuous: {f} never reaches {sorted(miss)}")
    for (n, e), s in stats.items():
        if s[0] == 0 and not confirmed and not incomplete and e != "(init)" and e not in {v[1] for v in vios}: errors.append(f"vacuous: {n}:{e} has no completed path")
    tot = [sum(s[i] for s in stats.values()) for i in range(13)]
    libfns = sorted(f for f in fns if "poly_collection" in f)
    try: dem = subprocess.run(["c++filt", "-p"], input="\n".join(libfns), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    except Exception: dem = libfns
    short = sorted({re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<.*>", "", x))) for x in dem})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
      "coverage": {"states": int(tot[0] + tot[1]), "transitions": int(tot[2]), "traces_validated_against_impl": validated,
        "samples": [{"entry": f"{u.name}:{e}", "inputs": i, "outcome_hash": h} for u, e, h, i in todo[:6]],
        "exhaustive": incomplete == 0 and not engerr and not errors,
        "explanation": "states = symbolic paths explored (each stands for all input values satisfying its path condition); transitions = LLVM instructions executed symbolically",
        "entries": {f"{n}:{e}": {"paths": int(s[0]), "assumed_away": int(s[1]), "instructions": int(s[2]), "forks": int(s[3]), "solver_queries": int(s[4]), "solver_s": round(s[5], 3), "assertions": int(s[6]), "assertions_by_solver": int(s[7]), "max_fork_depth": s[8], "max_symbolic_inputs": s[9]} for (n, e), s in sorted(stats.items())},
        "solver_queries": int(tot[4]), "solver_sat": int(tot[10]), "solver_unsat": int(tot[11]), "solver_s": round(tot[5], 3), "decided_by_finite_domain_propagation": int(tot[12]), "assertions_checked": int(tot[6]), "assertions_needing_solver": int(tot[7]),
        "library_functions_encoded": len(libfns), "library_functions": short[:120], "functions_encoded_total": len(fns), "environment_models": sorted(models), "bounds": spec["bounds"], "outside_bounds": spec.get("outside", ""),
        "unexplored_states": incomplete, "paths_not_followed": nerr, "not_followed": engerr[:8]},
      "assumptions": ["clang 18 -O1 IR of the harness and headers represents the program (other compilers/optimisation levels not encoded)", "models of operator new/delete, exception unwinding, type_info, libstdc++ rehash policy as implemented in engine/", "Z3 4.8.12 (QF_BV) answers are correct"] + spec.get("assumptions", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(knownhit): print(f"KNOWN-FINDING: property={pid} {k[1]} {k[2]} {k[3]}")
    for c in confirmed:
        print(f"VIOLATION property={pid} replay={c[0]}"); print(f"  {c[1]}:{c[2]} {c[3]}: {c[4]}\n  native: {c[5]}\n  where: {c[6][:600]}\n  inputs: {c[7]}")
    print(f"{pid} {tier}: {int(tot[0])} paths ({int(tot[1])} assumed away), {int(tot[2])} instructions, {int(tot[4])} solver queries in {tot[5]:.1f}s, {int(tot[6])} assertions, {validated} traces validated, {len(fns)} functions, {time.time()-t0:.1f}s")
    if confirmed: return 1
    undecided = [f"engine: {e}" for e in engerr[:8]]
    if incomplete: undecided.append(f"time budget exhausted with {incomplete} states unexplored")
    if nerr > tot[0]: errors.append("most paths could not be followed")
    errors += [f"unconfirmed counterexample: {e}" for e in unconfirmed[:8]] + [f"trace mismatch: {e}" for e in mism[:8]]
    for e in undecided: print("INCOMPLETE", e)
    if errors:
        for e in errors: print("ERROR", e)
        return 2
    return 0
if __name__ == "__main__": sys.exit(main())
