#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree.

1. Extract the functions under contract from /repo/src (mechanically) and let Verus discharge every obligation of the
   modules the property depends on. The decision is Verus's.
2. Beside it, replay the property on the real code with generated inputs (bounded): this supplies failing inputs for
   the obligations that fail, and stands in (labelled bounded) for functions outside the verifier's reach.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: no answer (a tool is missing, or the code does not build for the replay
and the proof leaves something open).
"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)
CFG = json.load(open(os.path.join(ROOT, "checks", "config.json")))
T0 = time.time()


def note(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=kw.pop("env", ENV), **kw)


def build_tools():
    """extractor, and the replay harness against /repo's current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "extract"), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "extract")))
        if r.returncode != 0:
            raise NoAnswer("the extractor does not build:\n" + r.stderr[-3000:])
        r = run(["cargo", "build", "--offline", "-q", "--features", "hooks"], cwd=os.path.join(ROOT, "harness"),
                env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "harness_hooks"), RUSTFLAGS="--cfg typelalr_verif"))
        if r.returncode == 0:
            return os.path.join(BUILD, "harness_hooks", "debug", "harness"), True
        r = run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "harness"), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "harness")))
        if r.returncode != 0:
            note("the replay harness does not build against /repo:\n" + r.stderr[-3000:])
            return None, False
        return os.path.join(BUILD, "harness", "debug", "harness"), False


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Replay:
    """runs the harness in shards; collects coverage and the first violation"""

    def __init__(self, exe, prop, work):
        self.exe, self.prop, self.work = exe, prop, work
        self.cases = self.distinct = 0
        self.samples, self.violation, self.problems = [], None, []

    def explore(self, secs, seed, shards):
        if self.exe is None:
            return
        ps = []
        for i in range(shards):
            out = os.path.join(self.work, "h%d.%d.json" % (seed, i))
            cmd = [self.exe, "run", self.prop, "--seed", str(seed), "--shard", "%d/%d" % (i, shards), "--secs", str(secs), "--out", out]
            ps.append((out, subprocess.Popen(cmd, cwd=self.work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, preexec_fn=limits)))
        end = time.time() + secs + 150
        for out, p in ps:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            d = {}
            if os.path.exists(out):
                d = json.load(open(out))
                self.cases += d["cases"]
                self.distinct += d["distinct_nontrivial"]
                self.samples += d["samples"]
            if rc == 0:
                continue
            if rc == 1 and d.get("violation"):
                v = d["violation"]
            elif os.path.exists(out + ".case"):
                try:
                    case = json.load(open(out + ".case"))
                except ValueError:
                    continue
                what = "does not answer within 30 s" if rc in (3, "timeout") else "ends the process (%s)" % rc
                v = {"property": self.prop, "case": case, "message": what}
            else:
                self.problems.append("shard ended with %s" % rc)
                continue
            if self.violation is None or len(json.dumps(v["case"])) < len(json.dumps(self.violation["case"])):
                if self.confirm(v) is False:
                    self.problems.append("not reproduced: " + v["message"][:200])
                    continue
                self.violation = v

    def confirm(self, v):
        """True: the case fails again when replayed alone"""
        if self.exe is None:
            return False
        f = os.path.join(self.work, "confirm.json")
        json.dump(v, open(f, "w"))
        try:
            r = subprocess.run([self.exe, "replay", f], cwd=self.work, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=90, env=ENV, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return True
        return r.returncode != 0


class Proof:
    """extraction and verification of the property's modules"""

    def __init__(self, prop, work):
        self.prop, self.work = prop, work
        self.conf = CFG[prop]
        self.failed = []      # (function id, message) obligations that fail with anchors intact
        self.undecided = []   # (function id or None, why)
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.funcs = []
        self.report = {}
        self.cmd = ""
        self.output = ""
        self.vacuous = []
        self.vac_points = 0
        self.done = False

    def extract(self, external, vacuity=False):
        out, rep = os.path.join(self.work, "vx.rs"), os.path.join(self.work, "vx.json")
        cmd = [os.path.join(BUILD, "extract", "debug", "extract"), "--src", os.path.join(REPO, "src"), "--contracts", os.path.join(ROOT, "contracts"), "--out", out, "--report", rep]
        loc = os.path.join(ROOT, "contracts", "locals.json")
        if os.path.exists(loc):
            cmd += ["--locals", loc]
        if external:
            cmd += ["--external", "|".join(sorted(external))]
        if vacuity:
            cmd += ["--vacuity"]
        r = run(cmd, timeout=120)
        if r.returncode != 0:
            return "extraction failed: " + r.stderr[-1500:]
        self.report = json.load(open(rep))
        return None

    def verus(self, mods, threads, timeout, extra=(), errors=3):
        cmd = ["verus", os.path.join(self.work, "vx.rs"), "--triggers-mode", "silent", "--num-threads", str(threads), "--output-json", "--time", "--multiple-errors", str(errors), *extra]
        for m in mods:
            cmd += ["--verify-only-module", m]
        cmd += ["--", "--error-format=json"]
        self.cmd = " ".join(cmd)
        try:
            r = run(cmd, timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            return None, None
        diags = []
        for l in r.stderr.splitlines():
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            js = json.loads(r.stdout[r.stdout.index("{"):])
        except ValueError:
            js = {}
        return js, diags

    def owner(self, d):
        """the extracted function a diagnostic belongs to"""
        lines = [(not s["is_primary"], s["line_start"]) for s in d["spans"] if s["file_name"].endswith("vx.rs")]
        best = None
        for _, l in sorted(lines):
            for f in self.report["functions"]:
                if f.get("start") and f["start"] <= l <= f["end"]:
                    if best is None or (f["end"] - f["start"]) < (best["end"] - best["start"]):
                        best = f
            if best:
                return best
        return None

    def decide(self, threads=8, timeout=600):
        mods = self.conf["modules"]
        if not mods:
            self.done = True
            return
        external = set()
        end = time.time() + timeout
        for attempt in range(5):
            e = self.extract(external)
            if e:
                self.undecided.append((None, e))
                break
            js, diags = self.verus(mods, threads, max(20, end - time.time()))
            if js is None:
                self.undecided.append((None, "the verifier did not finish in %d s" % timeout))
                break
            errs = [d for d in diags if d.get("level") == "error" and d.get("spans")]
            self.output = "\n".join(d.get("rendered") or d["message"] for d in errs)
            vr = js.get("verification-results", {})
            # a diagnostic with a code is rustc's: the extraction does not compile (a ghost name that is gone, ..)
            if vr.get("encountered-vir-error") or "verified" not in vr or any(d.get("code") for d in errs):
                new = set()
                for d in errs:
                    f = self.owner(d)
                    if f and f["id"] not in external:
                        new.add(f["id"])
                        self.undecided.append((f["id"], "outside the verifier's language: " + d["message"][:300]))
                if not new:
                    self.undecided.append((None, "the extracted crate is not accepted: " + (self.output or json.dumps(vr))[:600]))
                    break
                external |= new
                continue
            self.verified, self.errors = vr["verified"], vr["errors"]
            self.smt_ms = js.get("times-ms", {}).get("smt", {}).get("total", 0) if isinstance(js.get("times-ms"), dict) else 0
            for d in errs:
                f = self.owner(d)
                msg = d["message"]
                if "rlimit" in msg or "Resource limit" in msg or "timed out" in msg or "canceled" in msg:
                    self.undecided.append((f and f["id"], msg))
                elif f is None:
                    self.undecided.append((None, "a lemma over the contracts is not accepted: " + (d.get("rendered") or msg)[:400]))
                elif f["module"] in mods:
                    self.failed.append((f["id"], d.get("rendered") or msg))
            break
        else:
            self.undecided.append((None, "no extraction the verifier accepts"))
        # invariants belong to loops: where a function has other loops (or writes other texts) than those
        # its contract is annotated for, a failed annotation decides nothing
        shapes = json.load(open(os.path.join(ROOT, "contracts", "shapes.json")))
        now = {f["id"]: f.get("shape", []) for f in self.report.get("functions", [])}
        other = {i for i, _ in self.failed if now.get(i) != shapes.get(i, [])}
        for i, m in self.failed:
            if i in other:
                self.undecided.append((i, "its loops or texts are not those it is annotated for: " + m[:300]))
        self.failed = [x for x in self.failed if x[0] not in other]
        self.done = True
        inmods = [f for f in self.report.get("functions", []) if f["module"] in mods]
        self.funcs = [f["id"] for f in inmods if f["status"] == "body"]
        want = json.load(open(os.path.join(ROOT, "contracts", "traits.json")))
        for i in self.report.get("items", []):
            if i["module"] in mods and i.get("traits", {}) != want.get(i["name"], {}):
                self.undecided.append((None, "the comparison or hashing of %s is not the one the contracts assume: %s" % (i["name"], json.dumps(i.get("traits")))))
        for f in inmods:
            if f["status"] in ("external", "missing") and not f.get("trusted"):
                why = "; ".join(map(str, f.get("unsupported") or [])) or f["status"]
                if f["id"] not in [u[0] for u in self.undecided]:
                    self.undecided.append((f["id"], why))

    def vacuity(self, threads=8):
        """no contract may make a function's start, the end of one of its loop bodies or its end unreachable:
        an unprovable assertion is put there, and has to fail"""
        mods = self.conf["modules"]
        if not mods or self.failed or self.undecided:
            return
        keep, cmd = self.report, self.cmd
        e = self.extract(set(), vacuity=True)
        if e:
            self.undecided.append((None, e))
            return
        js, diags = self.verus(mods, threads, 600, errors=60)
        self.cmd = cmd
        text = open(os.path.join(self.work, "vx.rs")).read().split("\n")
        points = {}
        for f in self.report["functions"]:
            if f["module"] in mods and f["status"] == "body":
                for n in range(f["start"] - 1, f["end"]):
                    for k in re.findall(r"vac_pt\((\d+)\)", text[n]):
                        points.setdefault((f["id"], k), set()).add(n + 1)
        self.report = keep
        if js is None:
            return
        bad = {s["line_start"] for d in diags if d.get("level") == "error" for s in d.get("spans", [])}
        self.vac_points = len(points)
        self.vacuous = sorted("%s %s" % (i, {"0": "start", "999": "end"}.get(k, "loop %s end" % k)) for (i, k), ns in points.items() if not ns & bad)


def known(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) case=(\{.*?\}) -- (.*)$", l.strip())
        if m and m.group(1) == prop:
            out.append((json.loads(m.group(2)), m.group(3)))
    return out


def trusted(proof):
    base = ["Verus 0.2026.09.13 and its vstd axioms; Z3", "contracts/shim*.rs: assumed contracts on std/indexmap/bit-vec/regex-syntax items (external_body)",
            "the extraction (/verif/extract): see DESIGN.md for the rewrites it makes", "panics, stack depth and memory are outside the contracts unless a precondition excludes them"]
    n = 0
    for f in sorted(os.listdir(os.path.join(ROOT, "contracts"))):
        t = open(os.path.join(ROOT, "contracts", f)).read()
        n += len(re.findall(r"external_body|\badmit\(|\bassume\(", t))
    base.append("external_body/assume/admit in /verif/contracts, counted on this run: %d" % n)
    for f in proof.report.get("functions", []):
        if f["module"] in proof.conf["modules"] and f.get("trusted"):
            base.append("assumed contract: " + f["id"])
    return base


def main():
    prop = sys.argv[1]
    conf = CFG[prop]
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    viol = 0
    try:
        exe, hooks = build_tools()
        note("tools built, hooks", hooks)
        thorough = TIER == "thorough"
        proof, rep = Proof(prop, work), Replay(exe, prop, work)
        have_proof = bool(conf["modules"])
        th = threading.Thread(target=lambda: rep.explore(240 if thorough else conf.get("secs", 25), SEED, 3 if have_proof and not thorough else 6))
        th.start()
        try:
            proof.decide(threads=5, timeout=1500 if thorough else 480)
        except Exception as e:
            proof.failed = []
            proof.undecided.append((None, "the proof could not be run: %r" % e))
        note("proof: verified", proof.verified, "errors", proof.errors, "undecided", len(proof.undecided))
        if thorough:
            proof.vacuity(threads=8)
        th.join()
        note("replay: cases", rep.cases, "nontrivial", rep.distinct)
        if exe is None and not proof.failed and (proof.undecided or not have_proof):
            raise NoAnswer("neither the proof nor the replay decides: " + json.dumps(proof.undecided)[:2000])
        if not rep.violation and (proof.failed or proof.undecided):
            # an obligation of the changed code is open: look longer for an input
            rep.explore(120 if not thorough else 300, SEED + 100, 8)
            note("longer replay: cases", rep.cases)
        for case, what in known(prop):
            v = {"property": prop, "case": case, "message": what}
            if rep.confirm(v):
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
        replay = None
        tail = ""
        if rep.violation:
            d = dict(rep.violation, failed_obligations=[f for f, _ in proof.failed], verifier_output=proof.output[-6000:],
                     how="/verif/checks/replay.sh <this file>")
            replay = d
        elif proof.failed:
            replay = {"property": prop, "failed_obligations": [{"function": f, "obligation": m} for f, m in proof.failed], "verifier_output": proof.output[-20000:], "checker_cmd": proof.cmd}
            tail = " no-failing-input-found"
        if replay:
            viol = 1
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", prop + ".json")
            json.dump(replay, open(path, "w"), indent=1, ensure_ascii=False)
            note((replay.get("message") or proof.output)[:1500])
            for f, m in proof.failed:
                note("failed obligation in", f)
            print("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
        evidence(prop, conf, proof, rep, hooks, viol)
        sys.exit(viol)
    except (NoAnswer, OSError, ValueError, KeyError) as e:
        note(str(e))
        sys.exit(2)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(prop, conf, proof, rep, hooks, viol):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    degraded = [{"function": f, "why": w[:300]} for f, w in proof.undecided]
    level = conf["level"]
    cov = {
        "evaluations": rep.cases,
        "distinct_nontrivial": rep.distinct,
        "rule": "replay of the property on the real code with generated cases (fixed corpus, then seeded random until the time is up); nontrivial: both outcomes of the property's case distinction occur (see harness/src/props.rs)",
        "samples": rep.samples[:3] or ["none"],
        "hooks": hooks,
        "bounded_stand_in": conf.get("bounded", ""),
    }
    if conf["modules"]:
        cov.update({
            "obligations": proof.verified + proof.errors,
            "discharged": proof.verified,
            "checker_cmd": proof.cmd or "verus",
            "trusted_base": trusted(proof),
            "functions_under_contract": proof.funcs,
            "goals": conf["goals"],
            "back_end": "Verus / Z3",
            "solver_ms": proof.smt_ms,
            "failed": [f for f, _ in proof.failed],
            "degraded_to_bounded": degraded,
            "vacuity_points_checked": proof.vac_points,
            "vacuous_points": proof.vacuous,
        })
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": viol}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)


if __name__ == "__main__":
    main()
