#!/usr/bin/env python3
"""Decides one property on /repo's current source.  usage: check.py <ID>   (VERIF_SEED, VERIF_TIER)

1. rustc's typed intermediate representation of /repo is dumped, and vx extracts every function under contract into one
   Verus file, merged with the contracts (a function that can no longer be extracted is left out and named: undecided).
2. Verus has to discharge every obligation.  Each one that fails is traced back to the function and the clause.
3. The reference model and the real crate are run side by side on generated worlds (bounded; supplies failing inputs).
Exit 0 / 1 (with a VIOLATION line)."""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
C = os.path.join(V, ".cache")
T0 = time.time()

def run(cmd, timeout=None, **kw):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", **kw.pop("env", {}))
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, e.stdout or b"", e.stderr or b"")

def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(f for f in glob.glob(r + "/**/*", recursive=True) if os.path.isfile(f))
        for f in fs:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]

def note(*a):
    print("  ..", *a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- builds (serialised, kept in .cache)
def stamp(name):
    try: return open(os.path.join(C, name)).read()
    except OSError: return ""
def set_stamp(name, v):
    with open(os.path.join(C, name), "w") as f: f.write(v)

def build_vx():
    d = os.path.join(C, "vx")
    h = tree_hash(V + "/vx/src", V + "/vx/Cargo.toml")
    if stamp("vx.stamp") != h or not os.path.exists(d + "/release/vx"):
        r = run(["cargo", "build", "--release", "--offline"], cwd=V + "/vx", env={"CARGO_TARGET_DIR": d})
        if r.returncode: return None, r.stderr.decode()[-2000:]
        set_stamp("vx.stamp", h)
    return d + "/release/vx", ""

def repo_hash():
    fs = [REPO + "/src"] + [f for f in (REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/build.rs") if os.path.exists(f)]
    return tree_hash(*fs)

def build_hx(rh):
    d = os.path.join(C, "hx")
    h = tree_hash(V + "/hx/src", V + "/hx/Cargo.toml") + rh
    if stamp("hx.stamp") != h or not os.path.exists(d + "/release/hx"):
        # never trust time stamps: the crate under test is rebuilt from what it is now
        run(["cargo", "clean", "--release", "--offline", "-p", "nodejs-resolver"], cwd=V + "/hx", env={"CARGO_TARGET_DIR": d})
        r = run(["cargo", "build", "--release", "--offline"], cwd=V + "/hx", env={"CARGO_TARGET_DIR": d})
        if r.returncode: return None, r.stderr.decode()[-3000:]
        set_stamp("hx.stamp", h)
    return d + "/release/hx", ""

def dump_thir(rh):
    out = os.path.join(C, "thir.txt")
    if stamp("thir.stamp") != rh or not os.path.exists(out):
        d = os.path.join(C, "thir")
        run(["cargo", "+nightly", "clean", "--release", "--offline", "-p", "nodejs-resolver"], cwd=REPO, env={"CARGO_TARGET_DIR": d})
        with open(out, "wb") as f:
            r = subprocess.run(["cargo", "+nightly", "rustc", "--lib", "--release", "--offline", "--", "-Zunpretty=thir-tree"], cwd=REPO, stdout=f, stderr=subprocess.PIPE, env=dict(os.environ, CARGO_TARGET_DIR=d))
        if r.returncode or os.path.getsize(out) < 1000: return None, r.stderr.decode()[-3000:]
        set_stamp("thir.stamp", rh)
    return out, ""

TOOLCHAIN = "1.98.1"   # the compiler Verus is built on
def build_run(rh, vx, thir):
    """compiles the extracted text - the very text the verifier reads, with the bodies of the assumed contracts (the real
    std functions) - into a program that runs it side by side with the real crate"""
    d = os.path.join(C, "hxr"); out = os.path.join(C, "extracted")
    h = tree_hash(V + "/hx/src", V + "/hx/Cargo.toml", V + "/vx/src", V + "/contracts") + rh
    if stamp("extracted.stamp") == h and os.path.exists(out): return out, ""
    gen, mp = os.path.join(C, "gen_run.rs"), os.path.join(C, "gen_run.json")
    r = run([vx, "gen", "--thir", thir, "--src", REPO + "/src", "--contracts", V + "/contracts", "--out", gen, "--map", mp, "--run"], timeout=120)
    if r.returncode: return None, "extraction failed"
    m = json.load(open(mp))
    ext = [f["key"] for f in m["functions"] if f["external"]] + m["missing"]
    if ext: return None, "not extracted: " + ", ".join(ext)
    env = {"CARGO_TARGET_DIR": d, "RUSTUP_TOOLCHAIN": TOOLCHAIN}
    run(["cargo", "clean", "--release", "--offline", "-p", "nodejs-resolver"], cwd=V + "/hx", env=env)
    r = run(["cargo", "build", "--release", "--offline", "--lib"], cwd=V + "/hx", env=env, timeout=300)
    if r.returncode: return None, r.stderr.decode()[-1000:]
    r = run(["verus", gen, "--no-verify", "--compile", "--crate-type", "bin", "--extern", "hx=" + d + "/release/libhx.rlib", "-L", "dependency=" + d + "/release/deps", "-o", out], cwd=C, timeout=300)
    if r.returncode or not os.path.exists(out): return None, "does not compile: " + r.stderr.decode()[-1500:]
    set_stamp("extracted.stamp", h)
    return out, ""

def run_extracted(rh, seed, secs, box):
    """a difference here means that the extractor or the body of an assumed contract misrepresents the code"""
    try:
        vx, e = build_vx()
        thir, e = dump_thir(rh) if vx else (None, e)
        x, e = build_run(rh, vx, thir) if thir else (None, e)
        if not x: box["why"] = e; return
        out = os.path.join(C, "extracted-%d.json" % os.getpid())
        run([x, str(secs), str(seed), out], timeout=secs + 100)
        if os.path.exists(out): box["result"] = json.load(open(out)); os.unlink(out)
        else: box["why"] = "no result"
        run([x, "std", out], timeout=100)
        if os.path.exists(out): box["std"] = json.load(open(out)); os.unlink(out)
    except Exception as e: box["why"] = repr(e)[:300]

# ---------------------------------------------------------------- the verifier
PROOF = ["postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic", "decreases not satisfied", "could not prove termination", "possible division by zero", "unable to show", "loop ensures not satisfied", "possible bit shift", "might not be allowed", "assertion", "failed precondition", "constructed value may fail", "requirement not satisfied", "ensures not satisfied", "not satisfied", "may be out of bounds"]
LIMIT = ["rlimit", "Resource limit", "resource limit", "timeout", "solver"]

class Verifier:
    def __init__(self, vx, thir, work):
        self.vx, self.thir, self.work = vx, thir, work
        self.external = {}   # key -> why
        self.gen = os.path.join(work, "gen.rs"); self.map = os.path.join(work, "map.json")
        self.cmd = ""

    def generate(self, extra=()):
        cmd = [self.vx, "gen", "--thir", self.thir, "--src", REPO + "/src", "--contracts", V + "/contracts", "--out", self.gen, "--map", self.map, *extra]
        if self.external: cmd += ["--external", ",".join(sorted(self.external))]
        r = run(cmd, timeout=120)
        if r.returncode: return r.stderr.decode()[-2000:] or "vx failed"
        self.gen_lines = None
        self.m = json.load(open(self.map))
        self.funcs = {f["key"]: f for f in self.m["functions"]}
        return ""

    def at(self, line):
        for f in self.m["functions"]:
            if f["start"] <= line <= f["end"]: return f
        return None

    def reach(self, pid):
        """the functions carrying the property, and every function under contract their bodies call (by name: an over-approximation)"""
        src = open(self.gen).read().split("\n")
        last = {}
        for f in self.m["functions"]: last.setdefault(f["key"].split("::")[-1], []).append(f["key"])
        todo = [f["key"] for f in self.m["functions"] if pid in f["props"] or any(pid in c["tags"] for c in f["clauses"])]
        seen = set(todo)
        while todo:
            f = self.funcs[todo.pop()]
            for ty, w in set(re.findall(r"(?:\b([A-Z]\w*)(?:::<[^>]*>)?::)?\b([a-z_]\w*)\s*(?:::<[^>]*>)?\s*\(", "\n".join(src[f["body"] - 1:f["end"]]))):
                for k in last.get(w, ()):
                    if k not in seen and (ty in ("", "Self") or k == ty + "::" + w): seen.add(k); todo.append(k)
        return seen
    def is_lemma(self, line):
        """is this line part of the statement of a lemma"""
        if not self.gen_lines: self.gen_lines = open(self.gen).read().split("\n")
        for k in range(line - 1, max(line - 40, 0), -1):
            l = self.gen_lines[k]
            if re.match(r"\s*(pub |broadcast |#\[[^\]]*\] )*(proof|axiom) fn ", l): return True
            if re.match(r"\s*(#\[[^\]]*\] )*(pub |open |closed )*(spec )?fn ", l) or l.startswith("}"): return False
        return False

    def lifted(self, key):
        f = self.funcs[key]
        ls = open(self.gen).read().split("\n")[f["start"] - 1:f["end"]]
        return [m.group(1) for l in ls for m in [re.search(r"\bfn (\w+_closure\d+)\(", l)] if m]

    def verus(self, timeout, rlimit=60, log=None, seed=None, extra=(), threads=8):
        cmd = ["verus", self.gen, "--multiple-errors", "20", "--num-threads", str(threads), "--rlimit", str(rlimit), "--output-json", "--time-expanded", "--error-format=json", "--triggers-mode", "silent", *extra]
        if log: cmd += ["--log-dir", log, "--log", "air"]
        if seed is not None: cmd += ["-V", "smt-option", "-V", "smt.random_seed=%d" % seed] if False else ["--smt-option", "smt.random_seed=%d" % seed]
        if not extra: self.cmd = "verus gen.rs --rlimit %d" % rlimit
        t = time.time()
        r = run(cmd, timeout=timeout, cwd=self.work)
        self.wall = time.time() - t
        diags = []
        for l in r.stderr.decode(errors="replace").splitlines():
            if l.startswith("{"):
                try: d = json.loads(l)
                except ValueError: continue
                if d.get("level", "").startswith("error") and not d["message"].startswith("aborting"): diags.append(d)
        try: out = json.loads(r.stdout.decode(errors="replace"))
        except ValueError: out = {}
        return r.returncode, out, diags, r.stderr.decode(errors="replace")

    def classify(self, diags):
        """-> failures [(function or None, kind, tags, text)], compile errors [(function or None, text)]"""
        fails, comp, limits = [], [], []
        for d in diags:
            msg = d["message"]
            spans = d.get("spans", [])
            lines = [s["line_start"] for s in spans if s["file_name"].endswith("gen.rs")]
            prim = [s["line_start"] for s in spans if s.get("is_primary") and s["file_name"].endswith("gen.rs")]
            fs = [self.at(l) for l in prim + lines]
            f = next((x for x in fs if x), None)
            if any(x in msg for x in LIMIT):
                limits.append((f, msg)); continue
            if d.get("code") or not any(x in msg for x in PROOF):   # an error code: rejected by the compiler, nothing was proved or refuted
                comp.append((f, msg + " @" + str(prim))); continue
            clause = None
            if "postcondition" in msg or "precondition" in msg:
                # the clause is the span inside a list of clauses; the function is where it fails
                for l in prim + lines:
                    g = self.at(l)
                    if not g: continue
                    for c in g["clauses"]:
                        if c["start"] <= l <= c["end"]: clause = (g, c)
                if "precondition" in msg:
                    # the call site is the other span
                    body = [self.at(l) for l in prim + lines if self.at(l) and l >= self.at(l)["body"]]
                    if body: f = body[0]
            hint = "precondition" in msg and not clause and any(self.is_lemma(l) for l in prim + lines)
            if clause and clause[1]["tags"]: tags = list(clause[1]["tags"])
            elif clause and "postcondition" in msg: tags = list(clause[0]["props"])
            elif hint: tags = list(f["props"]) if f else []   # a lemma the argument rests on does not apply
            elif "precondition" in msg and not clause: tags = ["C22"]
            elif "arithmetic" in msg or "out of bounds" in msg or "division" in msg: tags = ["C22"]
            elif "decreases" in msg or "termination" in msg: tags = ["C26"]
            else:
                tags = list(f["props"]) if f else []
                k = re.search(r"invariant\s+i(\d+) <= it\1\b", " ".join(x["text"] for s in spans for x in s.get("text", [])))
                if f and "invariant" in msg and k: tags = list((f.get("looptags") or {}).get(k.group(1), tags))
            if f and not tags: tags = list(f["props"])
            text = "; ".join(s["text"][0]["text"].strip() for s in spans if s.get("text"))[:600]
            fails.append((f["key"] if f else None, msg, tags, clause[1]["text"] if clause else text, d.get("rendered", "")[:2000]))
        return fails, comp, limits

def obligations(logdir):
    """assertions sent to the solver, per function, from the verifier's own log of this run"""
    n = {}
    for f in glob.glob(logdir + "/*.air"):
        cur = None
        for l in open(f, errors="replace"):
            if l.startswith(";; "):
                m = re.match(r";; Function-(?:Def|Recommends|Termination|Decl-Check-Recommends|Specs|Axioms)? ?(\S+)", l)
                cur = re.sub(r"^gen::", "", m.group(1)) if l.startswith(";; Function-Def") or l.startswith(";; Function-Termination") else (None if l.startswith(";; Function") else cur)
            elif cur and re.match(r"\s+\(assert$", l.rstrip()): n[cur] = n.get(cur, 0) + 1
    return n

def trust_scan(gen):
    """everything the proof takes on trust"""
    t = open(gen).read()
    ext = re.findall(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:proof )?(?:fn|struct) (\w+)", t)
    ax = re.findall(r"axiom fn (\w+)", t)
    un = re.findall(r"uninterp spec fn (\w+)", t)
    asm = re.findall(r"\b(?:assume|admit)\s*\(", t)
    return ext, ax, un, asm

def proof(rh, tier, log):
    res = {"ok": False, "why": "", "fails": [], "external": {}, "limits": []}
    vx, e = build_vx()
    if not vx: res["why"] = "extractor does not build: " + e; return res
    thir, e = dump_thir(rh)
    if not thir: res["why"] = "no typed representation of the source: " + e; return res
    work = os.path.join(C, "work-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    v = Verifier(vx, thir, work)
    res["v"] = v; res["work"] = work
    for attempt in range(12):
        e = v.generate()
        if e: res["why"] = "extraction failed: " + e; return res
        for f in v.m["functions"]:
            if f["errors"]: v.external[f["key"]] = "; ".join(f["errors"])[:300]
        logd = os.path.join(work, "log"); shutil.rmtree(logd, ignore_errors=True)
        rc, out, diags, raw = v.verus(400, log=logd)
        fails, comp, limits = v.classify(diags)
        if comp:
            new = {f["key"]: t for f, t in comp if f and f["key"] not in v.external}
            if not new: res["why"] = "the verifier rejects the extracted text: " + str(comp[0][1])[:500]; return res
            for k, t in new.items(): v.external[k] = t[:300]
            note("not verifiable as written now:", ", ".join(new)); continue
        break
    else:
        res["why"] = "too many functions outside the verifier's reach"; return res
    vr = out.get("verification-results") or {}
    if not vr: res["why"] = "no answer of the verifier: " + raw[-500:]; return res
    if fails or limits:
        # a second opinion on each function, on its own and with more resources, before anything is called failed
        keys = sorted({f[0] for f in fails if f[0]} | {f["key"] for f, _ in limits if f})
        rest = [f for f in fails if not f[0]], [l for l in limits if not l[0]]
        def again(k):
            # the function itself and the closures lifted out of it: each has to be accepted
            F, L = [], []
            for name in [k] + v.lifted(k):
                done = False
                for seed in (0, 7):
                    rc2, out2, diags2, _ = v.verus(150, rlimit=240, seed=seed, extra=["--verify-root", "--verify-function", name], threads=1)
                    f2, c2, l2 = v.classify(diags2)
                    done = (out2.get("verification-results") or {}).get("verified", 0) == 1 and not f2 and not c2 and not l2 and rc2 == 0
                    if done or (f2 and not l2): break
                if done: continue
                if not out2.get("verification-results") or c2 or not (f2 or l2): return [f for f in fails if f[0] == k], [l for l in limits if l[0] and l[0]["key"] == k]
                F += f2; L += l2
            return F, L
        with concurrent.futures.ThreadPoolExecutor(6) as ex: got = list(ex.map(again, keys[:12]))
        fails = rest[0] + [x for g in got for x in g[0]] + [f for f in fails if f[0] in keys[12:]]
        limits = rest[1] + [x for g in got for x in g[1]]
    res["obl"] = obligations(logd)
    res["ok"] = True; res["fails"] = fails; res["limits"] = limits; res["external"] = dict(v.external)
    res["verified"] = vr.get("verified"); res["errors"] = vr.get("errors")
    res["smt_ms"] = ((out.get("times-ms") or {}).get("smt") or {}).get("total")
    res["wall"] = v.wall
    res["missing"] = v.m["missing"]
    res["tables"] = v.m.get("errors")
    return res

def vacuity(v, work):
    """assert(false) behind the precondition of every function under contract has to fail"""
    e = v.generate(("--vacuity",))
    if e: return None
    rc, out, diags, raw = v.verus(300)
    fails, comp, limits = v.classify(diags)
    if comp: return None
    hit = {f[0] for f in fails}
    want = [f["key"] for f in v.m["functions"] if not f["external"]]
    v.generate()
    return [k for k in want if k not in hit]

# ---------------------------------------------------------------- main
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(C, exist_ok=True)
    lock = open(os.path.join(C, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    cfg = json.load(open(V + "/tools/levels.json"))[pid]
    rh = repo_hash()
    hx, hxerr = build_hx(rh)
    quick = tier != "thorough"
    secs = 25 if quick else 300
    hout = os.path.join(C, "hx-%s-%d.json" % (pid, os.getpid()))
    hp = None
    if hx:
        hp = subprocess.Popen([hx, "run", pid, str(secs), str(seed), hout], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, HX_WORKERS="6"))
    X = {}
    vx0, _ = build_vx()
    if vx0: dump_thir(rh)
    xt = threading.Thread(target=run_extracted, args=(rh, seed, 5 if quick else 120, X), daemon=True); xt.start()
    P = proof(rh, tier, None)
    P["X"] = X
    if hp:
        try: hp.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired: hp.kill()
    H = None
    if os.path.exists(hout): H = json.load(open(hout)); os.unlink(hout)
    xt.join(timeout=300)
    mine = [f for f in P["fails"] if pid in f[2]]
    vac = None
    if P["ok"] and not P["fails"]: vac = vacuity(P["v"], P["work"])
    near = []
    if P["ok"]:
        # functions this property rests on (its own and everything they call) that are not proved on this run,
        # although no clause of the property itself fails
        v = P["v"]
        lost = {f[0] for f in P["fails"]} | {x[0]["key"] for x in P["limits"] if x[0]} | {k for k in P["external"] if not v.funcs[k]["trusted"]}
        near = sorted((v.reach(pid) & lost) | set(P["missing"]) | ({"?"} if None in lost else set()))
    P["near"] = near
    if (mine or near or not P["ok"]) and hx and not (H and H["difference"]):
        # look harder for a concrete input
        note("not everything proved; searching for an input:", ", ".join(near) or P["why"])
        for k in range(1, 4 if mine else 3):
            r = run([hx, "run", pid, "40", str(seed + 1000 * k), hout], timeout=240)
            if os.path.exists(hout):
                h2 = json.load(open(hout)); os.unlink(hout)
                if h2["difference"]: H = h2; break
    diff = H["difference"] if H else None
    known = load_known(pid)
    os.makedirs(V + "/replays", exist_ok=True)
    violation = None
    if diff and not is_known(diff, known):
        p = "%s/replays/%s-%d.json" % (V, pid, seed)
        json.dump({**diff, "replay_with": "cd /verif && .cache/hx/release/hx replay " + p, "failed_obligations": [{"function": f[0], "kind": f[1], "clause": f[3]} for f in mine]}, open(p, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s" % (pid, p)
    elif mine:
        p = "%s/replays/%s-%d-obligation.json" % (V, pid, seed)
        json.dump({"property": pid, "failed_obligations": [{"function": f[0], "kind": f[1], "clause": f[3], "verifier": f[4]} for f in mine], "searched": H["stats"] if H else None}, open(p, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p)
    evidence(pid, tier, seed, cfg, P, H, hxerr, mine, vac, violation)
    if P.get("work"): shutil.rmtree(P["work"], ignore_errors=True)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violation: print(violation); sys.exit(1)
    print("%s holds on everything explored" % pid)
    sys.exit(0)

def load_known(pid):
    out = []
    try: lines = open(V + "/known-findings.txt").read().splitlines()
    except OSError: lines = []
    for l in lines:
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
        if m and m.group(1) == pid: out.append({"id": m.group(2), "what": m.group(3)})
    return out
def is_known(diff, known): return False

def evidence(pid, tier, seed, cfg, P, H, hxerr, mine, vac, violation):
    cov = {}
    assum = []
    level = cfg["level"]
    if P["ok"]:
        v = P["v"]
        fs = [f for f in v.m["functions"] if pid in f["props"] or any(pid in c["tags"] for c in f["clauses"])]
        proved = [f["key"] for f in fs if not f["external"]]
        outside = {f["key"]: (f["trusted_why"] if f["trusted"] else P["external"].get(f["key"], "")) for f in fs if f["external"]}
        nob = sum(P["obl"].get(k, 0) for k in proved)
        bad = {f[0] for f in P["fails"] + [(x[0]["key"] if x[0] else None,) for x in P["limits"]]}
        clauses = [{"function": f["key"], "clause": c["text"]} for f in fs if not f["external"] for c in f["clauses"] if c["kind"] == "ensures" and (pid in c["tags"] or not c["tags"])]
        ext, ax, un, asm = trust_scan(v.gen)
        cov.update({
            "obligations": nob, "discharged": nob - len(mine) if mine else (nob if not bad & set(proved) else nob - sum(P["obl"].get(k, 0) for k in bad & set(proved))),
            "checker_cmd": v.cmd + "   (gen.rs: vx gen, from /repo/src and the contracts in /verif/contracts, on this run)",
            "back_end": "Verus 0.2026.09.13, Z3",
            "functions_under_contract": proved,
            "functions_not_proved": outside,
            "contract_clauses": clauses,
            "whole_file": {"verified": P["verified"], "errors": P["errors"], "functions_without_contract_inlined_or_outside": v.m["without_contract"]},
            "solver_time_ms": P["smt_ms"], "verifier_wall_s": round(P["wall"], 2),
            "vacuous_preconditions": vac if vac is not None else "not checked on this run",
            "lost_functions": P["missing"],
            "not_proved_on_this_run": P["near"],
            "resource_limits": [x[1] for x in P["limits"]],
            "trusted_base": ["rustc's typed IR and the extractor vx (rules in DESIGN.md)", "Verus, Z3",
                             "assumed contracts of std/dependencies (external_body): " + ", ".join(sorted(set(ext))),
                             "axioms: " + ", ".join(sorted(set(ax))), "uninterpreted functions: " + ", ".join(sorted(set(un))),
                             "assume/admit: %d" % len(asm)],
        })
        X = P.get("X") or {}
        r = X.get("result")
        if r: cov["extracted_text_executed"] = {"what": "the verified text, compiled and run side by side with the real crate on generated worlds of every property: answers compared to the letter, error messages included", "worlds": r["worlds"], "operations": r["operations"], "files_found": r["found"], "differences": r["differences"]}
        else: cov["extracted_text_executed"] = "not on this run: " + X.get("why", "not finished")
        if X.get("std"):
            cov["assumed_contracts_checked"] = {"what": "bounded: the assumed contracts of strings and paths, their defining specification functions made executable from their own text, against std on every text over a small alphabet up to a length of 4 to 8", **X["std"]}
            if X["std"]["differences"]: assum.append("an assumed contract of std does not hold on this run"); level = "exploration"
        if r and r["differences"]:
            assum.append("the extracted text does not behave like the code on this run: the proof is not counted")
            level = "exploration"
        if outside: assum.append("not proved, covered by the bounded comparison only: " + ", ".join(outside))
        if not nob or (P["missing"]): assum.append("functions under contract not found in the source: " + ", ".join(P["missing"]))
        if level == "proof" and (outside or P["limits"] or P["missing"] or P["near"] or not nob): level = "exploration"   # on this run
    else:
        level = "exploration"
        cov["proof"] = "undecided on this run: " + P["why"]
        assum.append("the proof was not available on this run: " + P["why"])
    if H:
        cov.update({"evaluations": H["stats"].get("evaluations", 0), "distinct_nontrivial": H["stats"].get("distinct_nontrivial", 0),
                    "rule": "generated worlds (files, options, sequence of operations) for this property; the real crate against the executable reference model. Non-trivial: distinct, and some operation found a file, was ignored, gave a specific error, or looked at more than one place",
                    "samples": [H["sample"]], "bounded_comparison": H["stats"]})
    else:
        cov["bounded_comparison"] = "not run: " + hxerr[-500:]
    assum += cfg.get("assumptions", [])
    assum += ["the file system does not change during a resolution", "strings are shorter than 2^30 bytes"]
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump({"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov, "assumptions": assum, "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)

if __name__ == "__main__": main()
