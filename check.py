#!/usr/bin/env python3
"""Decides one property on /repo's current working tree: contract proofs of the real code, plus the bounded native oracle.
usage: check.py ID [--tier quick|thorough] [--replay FILE] [-v] [--only PROOF]
exit 0: the property held on everything explored; exit 1 with a VIOLATION line otherwise."""
import hashlib, importlib.util, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
import multiprocessing as mp

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
sys.path.insert(0, V + "/contracts")

IRFLAGS = ["-std=c++23", f"-I{REPO}/include", f"-I{V}/harness", "-c", "-emit-llvm", "-O1", "-g", "-w", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-D_GLIBCXX_ASSERTIONS",
           "-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,return,float-cast-overflow,bool", "-fsanitize-trap=all"]
NATFLAGS = ["-std=c++23", f"-I{REPO}/include", f"-I{V}/native", f"-I{V}/harness", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
            "-fno-omit-frame-pointer", "-pthread"]

TRUSTED = [
    "clang 18 front end and irdump: the verified text is the LLVM IR clang emits for /repo's headers, before any optimisation pass",
    "irv: this verification condition generator (memory model, loop cutting, candidate invariant filter)",
    "z3 4.8.12, z3-new and cvc5 as decision procedures (an obligation counts when one of them answers unsat)",
    "contracts assumed for libstdc++ and libc functions (irv/models.py), listed per run in coverage.library_contracts",
]
ASSUME = [
    "objects are smaller than 2^47 bytes and a loop runs fewer than 2^60 iterations; distinct inputs do not alias",
    "operator new never fails; the C locale is in force for ctype functions",
    "partial correctness: termination is not proved (a watchdog in the native oracle looks for non-termination)",
    "x86-64 data layout; machine integers are bit vectors of their real width, never mathematical integers",
]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def ensure_tools():
    if not os.path.exists(V + "/build/irdump") or os.path.getmtime(V + "/build/irdump") < os.path.getmtime(V + "/irv/irdump.cpp"):
        r = sh(["bash", V + "/setup.sh"])
        if r.returncode:
            print(r.stdout)
            return False
    return True


class Native:
    """bounded stand-in: builds the oracle of the property from /repo's headers and searches for a failing input"""

    def __init__(self, pid, spec, work, seconds, seed, jobs):
        self.pid, self.spec, self.work, self.seconds, self.seed, self.jobs = pid, spec, work, seconds, seed, jobs
        self.exe = work + "/oracle"
        self.fail = None
        self.evals = self.distinct = 0
        self.samples = []
        self.error = None
        self.built = threading.Event()
        self.thread = threading.Thread(target=self.go, daemon=True)

    def go(self):
        try:
            r = sh(["clang++-18"] + NATFLAGS + self.spec.get("flags", []) + [V + "/native/" + self.spec["src"], "-o", self.exe])
            if r.returncode:
                self.error = "the native oracle does not compile against the current tree: " + r.stdout[:2000]
                return
            self.built.set()
            self.search(self.seconds, self.seed)
        except Exception as x:
            self.error = f"{type(x).__name__}: {x}"
        finally:
            self.built.set()

    def search(self, seconds, seed):
        procs = []
        for j in range(self.jobs):
            out = f"{self.work}/fail{seed}_{j}.in"
            procs.append((out, subprocess.Popen([self.exe, "--search", str(seconds), str(seed * 1000 + j), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=self.work)))
        for out, p in procs:
            try:
                text = p.communicate(timeout=seconds + 60)[0].decode(errors="replace")
            except subprocess.TimeoutExpired:
                p.kill()
                self.error = "the native search did not end"
                continue
            m = re.search(r"^ORACLE-FAIL (.*)", text, re.M)
            if m and os.path.exists(out) and self.fail is None:
                self.fail = (open(out, "rb").read(), m.group(1), text[-3000:])
            m = re.search(r"^ORACLE-EVALS (\d+) (\d+)", text, re.M)
            if m:
                self.evals += int(m.group(1))
                self.distinct += int(m.group(2))
            elif p.returncode and not self.fail:
                self.error = "the native search ended without a verdict: " + text[-500:]
            self.samples += re.findall(r"^ORACLE-SAMPLE (.*)", text, re.M)

    def replay(self, data):
        """the verdict of the oracle on one input: text of the failure, or None"""
        if not os.path.exists(self.exe):
            return None
        f = tempfile.NamedTemporaryFile(dir=self.work, delete=False)
        f.write(data)
        f.close()
        try:
            r = subprocess.run([self.exe, "--input", f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=ENV, cwd=self.work)
        except subprocess.TimeoutExpired:
            return "does not terminate"
        text = r.stdout.decode(errors="replace")
        m = re.search(r"^ORACLE-FAIL (.*)", text, re.M)
        return m.group(1) if m else None


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=0")


def prove_one(q, modpath, mod, idx, deadline, verbose):
    """one contract proof in its own process"""
    os.setpgid(0, 0)
    import resource
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    out = dict(name="?", ok=False, limit=None, failures=[], undecided=[])
    try:
        from irv.ir import Module
        from irv.run import run_proof
        m = Module(modpath)
        p = mod.proofs(m)[idx]
        out.update(name=p.name, fn=p.fn)
        r = run_proof(m, p, deadline, verbose)
        e = r.e
        out.update(ok=r.ok, limit=r.limit, wall=r.wall, stats=e.stats, covers=e.covers, wins=e.solver_wins, obls={n: v for n, v in e.obl_names.items()},
                   inlined=sorted(e.inlined), modelled=sorted(e.modelled), contracts=sorted(e.contracts_used))
        for f, dst in [(f, "failures") for f in e.failures] + [(f, "undecided") for f in e.undecided]:
            w = None
            if f.model is not None and p.witness:
                try:
                    w = p.witness(e, f.state, f.model)
                except Exception as x:
                    w = None
            out[dst].append(dict(name=f.name, where=f.where, kind=f.kind, detail=f.detail, result=f.result, stack=f.stack[-8:], cond=str(f.cond)[:2000], model=str(f.model)[:3000] if f.model is not None else None,
                                 witness=w))
    except MemoryError:
        out["limit"] = "out of memory"
    except BaseException as x:
        import traceback
        out["limit"] = f"internal error {type(x).__name__}: {x}"
        if verbose:
            traceback.print_exc()
    q.put((idx, out))
    q.close()
    q.join_thread()
    os._exit(0)


def run_proofs(mod, modpath, nproofs, names, seconds, verbose, only):
    q = mp.Queue()
    deadline = time.time() + seconds
    todo = [i for i in range(nproofs) if not only or only == names[i]]
    live, res = {}, {}
    maxp = max(1, min(6, (os.cpu_count() or 2) - 2))
    while todo or live:
        while todo and len(live) < maxp:
            i = todo.pop(0)
            p = mp.Process(target=prove_one, args=(q, modpath, mod, i, deadline, verbose))
            p.start()
            live[i] = p
        try:
            i, out = q.get(timeout=0.5)
            res[i] = out
        except Exception:
            pass
        for i, p in list(live.items()):
            if i in res:
                p.join(5)
                kill(p)
                del live[i]
            elif not p.is_alive():
                try:
                    while True:
                        j, out = q.get(timeout=0.5)
                        res[j] = out
                except Exception:
                    pass
                if i not in res:
                    res[i] = dict(name=names[i], ok=False, limit="the prover process ended", failures=[], undecided=[])
            elif time.time() > deadline + 40:
                kill(p)
                res[i] = dict(name=names[i], ok=False, limit="time limit", failures=[], undecided=[])
    return [res[i] for i in sorted(res)]


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    try:
        p.kill()
    except Exception:
        pass


def known(pid):
    """known findings of the property: list of (regex on the failure text, what)"""
    out = []
    path = V + "/known_findings.txt"
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    verbose = "-v" in a
    only = a[a.index("--only") + 1] if "--only" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = importlib.util.spec_from_file_location(pid.lower(), f"{V}/contracts/{pid.lower()}.py")
    mod = importlib.util.module_from_spec(spec)
    sys.modules[pid.lower()] = mod
    os.makedirs(V + "/build", exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/replay", exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "_", dir=V + "/build")
    try:
        spec.loader.exec_module(mod)
        return decide(pid, mod, tier, seed, work, t0, verbose, only, a)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, mod, tier, seed, work, t0, verbose, only, a):
    thorough = tier == "thorough"
    notes = []
    nat = None
    nspec = getattr(mod, "NATIVE", None)
    secs = (nspec or {}).get("seconds", 6) * (40 if thorough else 1)
    if nspec and not only:
        nat = Native(pid, nspec, work, secs, seed, 6 if thorough else 2)
        if "--replay" in a:
            nat.seconds = 0
            nat.go()
            r = nat.replay(open(a[a.index("--replay") + 1], "rb").read())
            print("FAILS: " + r if r else "holds")
            return 1 if r else 0
        nat.thread.start()
    # --- contract proofs on the IR of the current tree
    results = []
    harness = getattr(mod, "HARNESS", None)
    if harness and ensure_tools():
        r = sh(["clang++-18"] + IRFLAGS + getattr(mod, "IRCFLAGS", []) + [V + "/harness/" + harness, "-o", work + "/h.bc"])
        if r.returncode:
            notes.append("the harness does not compile against the current tree: " + r.stdout[:1500])
        else:
            r = sh([V + "/build/irdump", work + "/h.bc", work + "/h.jsonl"])
            if r.returncode:
                notes.append("irdump: " + r.stdout[:500])
            else:
                from irv.ir import Module
                try:
                    names = [p.name for p in mod.proofs(Module(work + "/h.jsonl"))]
                except Exception as x:          # a function under contract is gone or has another shape: not decided
                    names = []
                    notes.append(f"the contracts do not fit the current tree: {type(x).__name__}: {x}")
                results = run_proofs(mod, work + "/h.jsonl", len(names), names, (600 if not thorough else 3000) if not hasattr(mod, "SECONDS") else mod.SECONDS, verbose, only)
    if nat:
        nat.thread.join(secs + 400)
    # --- verdict
    violations = []          # (name, text, input or None, report)
    kn = known(pid)
    knhit = []

    def found(name, text, data, rep):
        for rx, what in kn:
            if rx.search(name + " " + text):
                if what not in knhit:
                    knhit.append(what)
                return
        violations.append((name, text, data, rep))

    if nat and nat.fail:
        found("native oracle", nat.fail[1], nat.fail[0], nat.fail[2])
    for r in results:
        for f in r["failures"]:
            rep = json.dumps({k: v for k, v in f.items() if k != "witness"}, indent=1)
            w = f.get("witness")
            txt = None
            if w is not None and nat:
                nat.built.wait(300)
                txt = nat.replay(w)
            print(f"refuted: {r['name']}: {f['name']}")
            found(f"{r['name']}: {f['name']}", txt or f"obligation refuted ({f['result']})", w if txt else None, rep)
        if r["limit"]:
            notes.append(f"{r['name']}: {r['limit']}")
        for f in r["undecided"]:
            notes.append(f"{r['name']}: undecided obligation {f['name']} ({f['result']})")
    if violations and nat and not any(v[2] is not None for v in violations) and os.path.exists(nat.exe) and not nat.fail:
        nat.search(20, seed + 7)          # a refuted obligation without input: look longer
        if nat.fail:
            found("native oracle", nat.fail[1], nat.fail[0], nat.fail[2])
    if nat and nat.error:
        notes.append(nat.error)
    for w in knhit:
        print(f"KNOWN-FINDING: property={pid} {w}")
    rc = 0
    if violations:
        rc = 1
        best = next((v for v in violations if v[2] is not None), violations[0])
        rp = f"{V}/replay/{pid}-{hashlib.sha1((best[0] + best[1]).encode()).hexdigest()[:10]}"
        if best[2] is not None:
            open(rp + ".in", "wb").write(best[2])
            with open(rp + ".txt", "w") as f:
                f.write(f"property {pid}\nfailure: {best[0]}: {best[1]}\ninput: {rp}.in\nreplay: python3-vt check.py {pid} --replay {rp}.in\n\n{best[3]}\n")
            print(f"{best[0]}: {best[1]}")
            print(f"VIOLATION property={pid} replay={rp}.in")
        else:
            with open(rp + ".txt", "w") as f:
                f.write(f"property {pid}\nfailed obligations (no failing input found):\n")
                for v in violations:
                    f.write(f"\n{v[0]}: {v[1]}\n{v[3]}\n")
            print(f"failed obligation: {best[0]}")
            print(f"VIOLATION property={pid} replay={rp}.txt no-failing-input-found")
    # --- evidence
    level = getattr(mod, "LEVEL", "proof")
    obl = sum(r.get("stats", {}).get("obl", 0) for r in results)
    dis = obl - sum(len(r["failures"]) + len(r["undecided"]) for r in results)
    per = []
    for r in results:
        s = r.get("stats", {})
        per.append(dict(proof=r["name"], function=r.get("fn"), status="proved" if r["ok"] else "failed" if r["failures"] else "not decided", limit=r["limit"], obligations=s.get("obl", 0),
                        trivial=s.get("obl_trivial", 0), named_obligations=len(r.get("obls", {})), queries=s.get("queries", 0), solver_s=round(s.get("time", 0), 1), wall_s=round(r.get("wall", 0), 1), paths=s.get("paths", 0),
                        loops_cut=s.get("loops_cut", 0), invariant_checks=s.get("inv_checks", 0), solver_answers=r.get("wins", {}), covers=r.get("covers", {})))
    cov = dict(obligations=obl, discharged=dis, checker_cmd=f"python3-vt check.py {pid} --tier {tier}", trusted_base=TRUSTED,
               functions_under_contract=[f"{r.get('fn')} ({r['name']})" for r in results], proofs=per,
               solver_time_s=round(sum(x["solver_s"] for x in per), 1),
               inlined_functions=sorted({x for r in results for x in r.get("inlined", [])})[:400], library_contracts=sorted({x for r in results for x in r.get("modelled", [])})[:400],
               bounded_not_proved=getattr(mod, "BOUNDED", []), notes=[n[:600] for n in notes])
    if nat:
        cov.update(evaluations=nat.evals, distinct_nontrivial=nat.distinct, rule=nspec.get("rule", "seeded random inputs around the boundaries of the property; non-trivial: longer than one byte, distinct by hash"), samples=nat.samples[:5])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []) + ASSUME, wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not only:
        tmp = f"{V}/evidence/.{pid}.{os.getpid()}"
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, f"{V}/evidence/{pid}.json")
    for n in notes:
        print("note:", n[:1500 if verbose else 300])
    for x in per:
        print(f"{x['proof']}: {x['status']} ({x['obligations']} obligations, {x['queries']} queries, {x['wall_s']} s)")
    if nat:
        print(f"native oracle (bounded): {nat.evals} inputs")
    print(f"{pid} {'VIOLATED' if rc else 'held'} in {time.time() - t0:.1f} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
