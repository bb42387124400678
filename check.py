#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current tree.

1. extract the functions under contract from /repo/src (extractor/), splice in contracts/*.vc,
   verify the result with Verus (every obligation, every function, no bounds)
2. in parallel run the bounded stand-in (harness/): the real crate against a brute-force reading of
   the definitions; it covers what is not under contract and looks for a concrete failing input
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
ENV = ". /opt/vp/env.sh >/dev/null 2>&1; "
CONF = json.load(open(os.path.join(V, "props.json")))
VERUS_THREADS = "6"


def sh(cmd, timeout=600, cwd=None, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd, errors="replace", **kw)


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build_extractor():
    exe = os.path.join(V, "extractor/target/release/vextract")
    src = [os.path.join(V, "extractor/src", f) for f in os.listdir(os.path.join(V, "extractor/src"))]
    if not os.path.exists(exe) or os.path.getmtime(exe) < max(map(os.path.getmtime, src)):
        r = sh(ENV + f"cd {V}/extractor && cargo build --release --offline")
        if r.returncode:
            raise SystemExit("extractor does not build:\n" + r.stderr[-3000:])
    return exe


def build_harness():
    tgt = os.path.join(BUILD, "harness")
    os.makedirs(tgt, exist_ok=True)
    stamp = os.path.join(tgt, "tree.sha")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    env = ENV + f"cd {V}/harness && export CARGO_TARGET_DIR={tgt}; "
    if have and have != want:
        # file times are not trusted: a changed tree is rebuilt whatever they say
        sh(env + "cargo clean --offline -p fbas_analyzer")
    r = sh(env + "cargo build --offline", timeout=800)
    if r.returncode:
        return None, r.stderr
    open(stamp, "w").write(want)
    return os.path.join(tgt, "debug/vharness"), ""


# ------------------------------------------------------------------ proofs

def closure(units):
    U, out = CONF["units"], []

    def go(u):
        for d in U[u].get("deps", []):
            go(d)
        if u not in out:
            out.append(u)
    for u in units:
        go(u)
    return out


PROBE_MSG = "assertion failed"


def modules(lines):
    """the module each line is in (line number -> name or None), by counting braces outside of comments and literals"""
    res, stack, depth, block = {}, [], 0, 0
    for i, l in enumerate(lines):
        m = re.match(r"\s*(?:pub(?:\([^)]*\))? )?mod (\w+) \{", l)
        if m and not block:
            stack.append((m.group(1), depth))
        res[i + 1] = "::".join(n for n, _ in stack) or None
        for t in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.[^\']*|[^\'\\])\'|//.*|/\*|\*/|[{}]', l):
            t = t.group(0)
            if t == "/*":
                block += 1
            elif t == "*/":
                block -= 1
            elif not block and t == "{":
                depth += 1
            elif not block and t == "}":
                depth -= 1
                if stack and stack[-1][1] == depth:
                    stack.pop()
    return res


class Proof:
    def __init__(self, units, work, probe=False):
        self.units = closure(units)
        self.work = work
        self.probe = probe
        self.degraded = {}      # function -> why it is not decided by proof on this tree
        self.failed = []        # obligations the verifier rejects
        self.res = {}
        self.map = {}
        self.cmd = ""
        self.err = None
        self.output = ""
        self.reseeded = 0       # extra verifier runs with another solver seed

    def files(self, kind):
        U, out = CONF["units"], []
        for u in self.units:
            for f in U[u].get(kind, []):
                p = os.path.join(V, "spec" if kind == "spec" else "contracts", f)
                if p not in out:
                    out.append(p)
        return out

    def owner(self, line):
        for s in self.map["segments"]:
            if s["from"] <= line <= s["to"]:
                return s
        return None

    def run(self, exe):
        gen, mp = os.path.join(self.work, "gen.rs"), os.path.join(self.work, "map.json")
        t0 = time.time()
        for attempt in range(12):
            cmd = [exe, "--repo", REPO, "--specs", ",".join(self.files("spec")), "--contracts", ",".join(self.files("contracts")), "--out", gen, "--map", mp, "--shapes", os.path.join(V, "contracts/shapes.json")]
            if self.degraded:
                cmd += ["--degrade", ",".join(self.degraded)]
            if self.probe:
                cmd += ["--probe", "1"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                self.err = "extraction failed: " + r.stderr[-2000:]
                return
            self.map = json.load(open(mp))
            for l in self.map["lost"]:
                n = l["name"] if isinstance(l, dict) else str(l)
                self.degraded.setdefault(n, "lost anchor or construct outside the verifier's subset: " + (l.get("why", "") if isinstance(l, dict) else ""))
            self.shape()
            if any(f["name"] in self.degraded and not f["degraded"] for f in self.map["functions"]):
                continue
            rl = str(CONF.get("rlimit", 30))
            self.cmd = f"verus {gen} --triggers-mode silent --rlimit {rl} --num-threads {VERUS_THREADS} --output-json --time-expanded --error-format=json"
            try:
                r = subprocess.run(["verus", gen, "--triggers-mode", "silent", "--rlimit", rl, "--num-threads", VERUS_THREADS, "--output-json", "--time-expanded", "--error-format=json"] + (["--multiple-errors", "200"] if self.probe else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, cwd=self.work)
            except subprocess.TimeoutExpired:
                self.err = "verifier ran out of its 600 s"
                return
            try:
                d = json.loads(r.stdout[r.stdout.index("{"):])
            except Exception:
                self.err = "verifier gave no result: " + (r.stdout + r.stderr)[-2000:]
                return
            diags = []
            for line in r.stderr.splitlines():
                if line.startswith("{"):
                    try:
                        x = json.loads(line)
                    except Exception:
                        continue
                    if x.get("level") == "error" and x.get("spans"):
                        diags.append(x)
            vr = d["verification-results"]
            self.output = "\n".join(x.get("rendered", "") for x in diags)
            proving = vr.get("verified", 0) + vr.get("errors", 0) > 0 and not vr.get("encountered-vir-error")
            if not proving:
                # the copied text does not type-check in the verifier's subset: give up those functions only
                new = {}
                for x in diags:
                    for s in sorted(x["spans"], key=lambda s: not s["is_primary"]):
                        o = self.owner(s["line_start"])
                        if o and o["kind"] == "fn" and o["name"] not in self.degraded:
                            new[o["name"]] = "outside the verifier's subset: " + x["message"][:200]
                            break
                if not new:
                    self.err = "verifier cannot read the extracted text: " + (self.output or r.stderr)[-3000:]
                    return
                self.degraded.update(new)
                continue
            self.failed = []
            heads = [i + 1 for i, l in enumerate(open(gen).read().splitlines()) if re.match(r"\s*(pub |open |closed |broadcast |proof |spec |const |unsafe |\(crate\) )*fn ", l)]
            for x in diags:
                o = None
                # the failing function is the one whose body is being checked
                for s in x["spans"]:
                    c = self.owner(s["line_start"])
                    if c and c["kind"] == "fn":
                        if o is None or s["is_primary"]:
                            o = c
                names = [c["name"] for c in (self.owner(s["line_start"]) for s in x["spans"]) if c and c["kind"] == "fn"]
                at = next((s["line_start"] for s in x["spans"] if s["is_primary"]), 0)
                ob = {"function": self.blame(x), "key": max([h for h in heads if h <= at], default=0), "obligation": x["message"], "rendered": x.get("rendered", "")[:3000], "spans": [(s["line_start"], (s.get("label") or "")) for s in x["spans"]], "involves": names}
                ob["limit"] = "rlimit" in x["message"].lower() or "resource limit" in x["message"].lower()
                ob["lemma"] = next((self.owner(s["line_start"])["kind"] == "spec" for s in x["spans"] if s["is_primary"] and self.owner(s["line_start"])), False)
                self.failed.append(ob)
            self.res = d
            if self.failed and not self.probe:
                self.again(gen, rl, vr, t0)
            # a function that exhausts the solver under every seed is not decided by proof; neither is a lemma (its text does not come from the repository)
            new = {o["function"]: "verifier resource limit" for o in self.failed if o["limit"] and not o["lemma"] and o["function"] not in self.degraded}
            # nor does a failure count in a function whose text has lost the place of some of its annotations
            soft = {f["name"]: f["soft"] for f in self.map["functions"] if f.get("soft") and not f["degraded"]}
            for o in self.failed:
                if o["function"] in soft and not o["lemma"] and o["function"] not in self.degraded:
                    new[o["function"]] = "annotations do not fit any more: " + "; ".join(soft[o["function"]])[:200]
                    o["limit"] = True
            for o in self.failed:
                if o["lemma"]:
                    self.degraded["lemma in " + str(o["function"])] = "not accepted by the solver: " + o["obligation"][:200]
            self.failed = [o for o in self.failed if not o["limit"] and not o["lemma"]]
            if new and not self.failed and not self.probe:
                self.degraded.update(new)
                continue
            return
        self.err = self.err or "too many rounds of degradation"

    def again(self, gen, rl, vr, t0):
        """a function accepted under any solver seed is proved: try the rejected ones alone, with other seeds"""
        lines = open(gen).read().splitlines()
        keys = sorted({o["key"] for o in self.failed})
        if len(keys) > 10:
            return
        mods = modules(lines)
        for seed in (7, 14, 21):
            for k in list(keys):
                if time.time() - t0 > 330:
                    return
                name = re.search(r"\bfn (\w+)", lines[k - 1])
                if not name:
                    continue
                where = ["--verify-only-module", mods[k]] if mods[k] else ["--verify-root"]
                try:
                    r = subprocess.run(["verus", gen, "--triggers-mode", "silent", "--smt-option", f"smt.random_seed={seed}", "--rlimit", rl, "--num-threads", VERUS_THREADS, "--output-json", "--error-format=json", *where, "--verify-function", "*" + name.group(1)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240, cwd=self.work)
                    d = json.loads(r.stdout[r.stdout.index("{"):])["verification-results"]
                except Exception:
                    continue
                if r.returncode == 0 and d["verified"] > 0 and d["errors"] == 0 and not d.get("encountered-vir-error"):
                    keys.remove(k)
                    self.failed = [o for o in self.failed if o["key"] != k]
                    vr["verified"] += 1
                    vr["errors"] -= 1
                    self.reseeded = max(self.reseeded, seed // 7)
            if not keys:
                return

    def blame(self, x):
        """the function whose body the failed query belongs to"""
        spans = x["spans"]
        msg = x["message"]
        cand = []
        for s in spans:
            c = self.owner(s["line_start"])
            if c:
                cand.append((s, c))
        if "precondition" in msg:
            # one span is the call site, the other the callee's requires clause
            for s, c in cand:
                if s["is_primary"] and c["kind"] == "fn":
                    return c["name"]
        for s, c in cand:
            if c["kind"] == "fn" and "failed" not in (s.get("label") or ""):
                return c["name"]
        for s, c in cand:
            if c["kind"] == "fn":
                return c["name"]
        return cand[0][1]["name"] if cand else None

    def shape(self):
        """a function whose loop structure is not the annotated one cannot carry its invariants"""
        base = CONF.get("shapes", {})
        for f in self.map["functions"]:
            b = base.get(f["name"])
            if b is not None and b != f["loops"] and not f["degraded"]:
                self.degraded.setdefault(f["name"], f"loop structure changed ({f['loops']} loops instead of {b})")


def kani(jobs, work, out):
    pass


# ------------------------------------------------------------------ bounded stand-in

def harness(prop, exe, seconds, seed, work, bigger=0, threads=8):
    sc = os.path.join(work, "cur")
    os.makedirs(sc, exist_ok=True)
    try:
        r = subprocess.run([exe, "--property", prop, "--seed", str(seed), "--seconds", str(seconds), "--threads", str(threads), "--scratch", sc, "--bigger", str(bigger), "--hang", "60"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=seconds + 240, cwd=work)
    except subprocess.TimeoutExpired:
        return {"error": "harness timed out"}
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        pass
    # the process died (abort, stack overflow, out of memory): find the input that kills it
    for f in sorted(os.listdir(sc)):
        try:
            c = json.load(open(os.path.join(sc, f)))
        except Exception:
            continue
        rf = os.path.join(work, "crash.json")
        json.dump({"property": prop, "case": c}, open(rf, "w"))
        try:
            q = subprocess.run([exe, "replay", rf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, cwd=work)
        except subprocess.TimeoutExpired:
            continue
        if q.returncode not in (0, 1) or "VIOLATED" in q.stdout:
            return {"property": prop, "evaluations": 0, "violation": {"case": c, "message": f"the process is killed by this input (exit {q.returncode}): {q.stderr[-300:]}"}}
    return {"error": f"harness ended with {r.returncode}: {r.stderr[-500:]}"}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CONF["properties"][prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"run.{prop}.", dir=BUILD)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    try:
        return decide(prop, tier, seed, cfg, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, cfg, work, t0):
    vx = build_extractor()
    proof = Proof(cfg["units"], work)
    th = threading.Thread(target=lambda: guard(proof, vx))
    th.start()
    exe, berr = build_harness()
    th.join()
    if exe is None:
        log("the bounded stand-in does not build against /repo's current tree:\n" + berr[-3000:])
    decided = not proof.failed and not proof.degraded and not proof.err
    secs = cfg.get("seconds", 10) if tier == "quick" else cfg.get("thorough_seconds", 240)
    hr = harness(prop, exe, secs, seed, work, cfg.get("bigger", 0) if tier == "quick" else cfg.get("thorough_bigger", 2)) if exe else {"error": "does not build"}
    if exe and not hr.get("violation") and not hr.get("error") and not decided:
        # something is no longer decided by proof: look harder for a failing input
        extra = harness(prop, exe, 45 if tier == "quick" else 240, seed + 1, work, 1)
        if extra.get("violation"):
            hr = extra
        else:
            for k in ("evaluations", "sub_evaluations", "distinct_nontrivial"):
                if isinstance(extra.get(k), int):
                    hr[k] = hr.get(k, 0) + extra[k]
    viol = hr.get("violation")
    if viol and "no answer within" in viol.get("message", ""):
        # confirm alone on the machine
        rf = os.path.join(work, "hang.json")
        json.dump({"property": prop, "case": viol["case"]}, open(rf, "w"))
        try:
            q = subprocess.run([exe, "replay", rf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=150, cwd=work)
            viol = viol if q.returncode else None
        except subprocess.TimeoutExpired:
            pass
    probe = None
    if tier == "thorough" and decided:
        probe = Proof(cfg["units"], work, probe=True)
        guard(probe, vx)

    vr = proof.res.get("verification-results", {})
    nob, nver = vr.get("verified", 0) + vr.get("errors", 0), vr.get("verified", 0)
    if not proof.err and nob == 0:
        proof.err = "no obligations were generated"
    for f, why in proof.degraded.items():
        log(f"DEGRADED {f}: {why} (bounded stand-in only on this tree)")
    if proof.err:
        log("PROOF-UNAVAILABLE " + proof.err)
    log(f"{prop}: {nver}/{nob} obligations discharged, {hr.get('evaluations', 0)} bounded cases, {time.time()-t0:.1f} s")

    known = known_findings(prop)
    nviol = 0
    code = 0
    rp = os.path.join(BUILD, "replay", f"{prop}.json")
    if viol:
        nviol = 1
        json.dump({"property": prop, "case": viol["case"], "message": viol["message"], "fbas_json": viol.get("fbas_json"), "how": f"{exe} replay {rp}", "failed_obligations": proof.failed[:5]}, open(rp, "w"), indent=1)
        log(viol["message"][:2000])
        log(json.dumps(viol["case"])[:2000])
        for o in proof.failed[:5]:
            log(f"failed obligation: {o['function']}: {o['obligation']}")
        log(f"VIOLATION property={prop} replay={rp}")
        code = 1
    elif proof.failed:
        nviol = len(proof.failed)
        json.dump({"property": prop, "failed_obligations": proof.failed, "verifier_output": proof.output[:20000], "checker_cmd": proof.cmd, "note": "the verifier rejects these obligations; no concrete failing input was found within the bounded search"}, open(rp, "w"), indent=1)
        for o in proof.failed[:8]:
            log(f"failed obligation: {o['function']}: {o['obligation']}\n{o['rendered'][:600]}")
        log(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        code = 1
    evidence(prop, tier, seed, cfg, proof, hr, probe, nob, nver, time.time() - t0, nviol)
    for k in known:
        log(f"KNOWN-FINDING: property={prop} {k}")
    if code == 0 and hr.get("error") and (proof.err or proof.degraded):
        log("neither the proof nor the bounded stand-in gave an answer: " + str(hr["error"]))
        return 2
    if code == 0 and exe is None:
        return 2
    return code


def guard(p, vx):
    try:
        p.run(vx)
    except Exception as e:  # an error of the machinery is reported as such, not as a proof
        import traceback
        p.err = "internal: " + traceback.format_exc()[-1500:]


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def scan_trusted(files):
    """every assumption in the specification files: external_body, assume_specification, assume, admit"""
    out = []
    for f in files:
        txt = open(f).read().splitlines()
        for i, l in enumerate(txt):
            if re.search(r"external_body|assume_specification|\bassume\(|\badmit\(|axiom fn|uninterp", l):
                nxt = next((x.strip() for x in txt[i:i + 6] if re.search(r"\bfn\b|assume_specification|struct|assume\(|admit", x)), l.strip())
                out.append(f"{os.path.basename(f)}:{i+1}: {nxt[:110]}")
    return sorted(set(out))


def evidence(prop, tier, seed, cfg, proof, hr, probe, nob, nver, wall, nviol):
    fns = proof.map.get("functions", [])
    times = proof.res.get("times-ms", {})
    smt = times.get("smt", {})
    rest = proof.map.get("rewrite_notes", [])
    trusted = scan_trusted(proof.files("spec") + proof.files("contracts"))
    cov = {
        "obligations": nob,
        "discharged": nver,
        "checker_cmd": "vextract (mechanical extraction from /repo/src) then " + re.sub(r"/\S*/gen.rs", "gen.rs", proof.cmd),
        "back_end": "Verus " + str(proof.res.get("verus", {}).get("version", "")) + " (Z3)",
        "solver_ms": smt.get("total"),
        "runs_with_other_solver_seeds": proof.reseeded,
        "functions_under_contract": [{"name": f["name"], "file": f["file"], "line": f["line"], "loops": f["loops"], "rewrites": f["rewrites"], "status": "degraded" if f["degraded"] else "assumed" if f["trusted"] else "verified"} for f in fns],
        "functions_verified": sum(1 for f in fns if not f["degraded"] and not f["trusted"]),
        "functions_assumed": [f["name"] for f in fns if f["trusted"]],
        "functions_degraded": proof.degraded,
        "trusted_base": ["Verus and Z3", "rustc", "the extractor (extractor/src/main.rs): syntactic copy of the named functions with the rewrites listed per function", *trusted],
        "failed_obligations": [{"function": o["function"], "obligation": o["obligation"]} for o in proof.failed],
        "bounded_stand_in": {
            "label": "bounded, never counted as proved",
            "covers": cfg.get("bounded", ""),
            "evaluations": hr.get("evaluations", 0),
            "sub_evaluations": hr.get("sub_evaluations", 0),
            "distinct_nontrivial": hr.get("distinct_nontrivial", 0),
            "bound": f"at most {hr.get('max_nodes', '?')} nodes per case, random cases until the time is used",
            "tags": hr.get("tags", {}),
            "samples": hr.get("samples", [])[:2],
            "error": hr.get("error"),
        },
        "evaluations": hr.get("evaluations", 0),
        "distinct_nontrivial": hr.get("distinct_nontrivial", 0),
        "rule": "cases are generated from the seed: small FBASs (nested, repeated members, odd thresholds) plus a derived query; non-trivial as defined per property in harness/src/props.rs",
        "samples": hr.get("samples", [])[:2],
        "explanation": cfg.get("note", ""),
    }
    if proof.err:
        cov["proof_unavailable"] = proof.err[:2000]
    if probe is not None:
        cov["vacuity_probe"] = probe_result(probe)
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": CONF.get("assumptions", []) + cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(V, "evidence", f"{prop}.json"), "w"), indent=1)


def probe_result(p):
    """with `assert(false)` at the start of every body, every body must be rejected; else its contract is vacuous"""
    bad = {o["function"] for o in p.failed}
    fns = [f["name"] for f in p.map.get("functions", []) if not f["trusted"] and not f["degraded"]]
    vac = [f for f in fns if f not in bad]
    if vac:
        log("VACUOUS contracts: " + ", ".join(vac))
    return {"functions_probed": len(fns), "rejected_as_expected": len(fns) - len(vac), "vacuous": vac, "error": p.err}


if __name__ == "__main__":
    sys.exit(main())
