#!/usr/bin/env python3
"""Decides one property of /repo: check.py <property> [quick|thorough].

1. govc generates the proof obligations of the property's contracts from the
   current source of /repo and the solvers discharge them (the deciding step).
2. The property's harness runs the real code against a brute-force oracle: it
   looks for the concrete failing input of a violation, and stands in, with a
   bound, for the functions no contract reaches.

Exit 0: held. Exit 1, with a VIOLATION line: broken.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"


def env():
    e = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout.decode()
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                e[k] = v
    e["GOFLAGS"] = (e.get("GOFLAGS", "") + " -buildvcs=false").strip()
    e["GOWORK"] = "off"
    return e


ENV = env()


def run(cmd, cwd=None, timeout=None, **extra):
    e = dict(ENV)
    e.update(extra)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return 124, out.decode(errors="replace")


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="verif-" + prop + "-")
        self.start = time.time()
        self.notes = []

    # --- the proof -------------------------------------------------------
    def prove(self):
        govc = os.path.join(self.dir, "govc")
        rc, out = run(["go", "build", "-o", govc, "."], cwd=os.path.join(VERIF, "govc"), timeout=300)
        if rc != 0:
            print(out)
            raise RuntimeError("cannot build govc")
        js = os.path.join(self.dir, "proof.json")
        cmd = [govc, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-props", self.prop, "-json", js,
               "-work", os.path.join(self.dir, "smt"), "-timeout", "120" if self.thorough else "45", "-maxfail", "40" if self.thorough else "10",
               "-probe", "5000" if self.thorough else "400"]
        os.makedirs(os.path.join(self.dir, "smt"), exist_ok=True)
        rc, out = run(cmd, timeout=2400 if self.thorough else 560)
        self.prooflog = out
        self.checker = "govc -repo /repo -contracts /verif/contracts -props " + self.prop
        try:
            d = json.load(open(js))
        except Exception:
            d = None
        if d is None or rc not in (0, 1):
            why = "govc ended with %d: %s" % (rc, out[-1500:])
            d = d or {"functions": [], "lemmas": [], "obligations": 0, "discharged": 0, "probes": 0, "probes_ok": 0, "by_solver": {}, "solver_ms": 0, "trusted": [], "axioms": []}
            d["failed"] = (d.get("failed") or []) + [{"name": self.prop + "/generation", "kind": "error", "pos": "", "status": "error", "why": why}]
        d["failed"] = d.get("failed") or []
        return d

    # --- the harness -----------------------------------------------------
    def build_harness(self):
        """Builds the harness into /repo's module through an overlay; files that no longer compile are left out."""
        src = {}
        for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            if f.endswith(".go"):
                src[REPO + "/internal/verifharness/" + f] = os.path.join(VERIF, "harness", f)
        if self.prop == "C22":
            src[REPO + "/internal/verifharness/c22.go"] = os.path.join(VERIF, "harness22", "c22.go")
            src[REPO + "/internal/tui/zz_verif_shim.go"] = os.path.join(VERIF, "harness22", "shim.go")
        exe = os.path.join(self.dir, "harness")
        ov = os.path.join(self.dir, "overlay.json")
        for _ in range(6):
            json.dump({"Replace": src}, open(ov, "w"))
            rc, out = run(["go", "build", "-overlay", ov, "-o", exe, "./internal/verifharness"], cwd=REPO, timeout=300)
            if rc == 0:
                return exe, ""
            bad = set(re.findall(r"internal/verifharness/(\w+\.go):\d+", out)) | set(re.findall(r"harness(?:22)?/(\w+\.go):\d+", out))
            bad.discard("main.go")
            drop = [k for k in src if os.path.basename(k) in bad]
            if not drop:
                break
            for k in drop:
                self.notes.append("harness file left out, it does not compile against the current tree: " + os.path.basename(k))
                del src[k]
        return None, out

    def search(self, exe, secs, procs, salt):
        work = os.path.join(self.dir, "work%d" % salt)
        ps = []
        for i in range(procs):
            w = os.path.join(work, str(i))
            os.makedirs(w)
            o = os.path.join(w, "out.json")
            seed = self.seed * 1000003 + salt * 7919 + i
            e = dict(ENV)
            e["VERIF_BBN_CLI"] = os.path.join(self.dir, "bbn")
            e["GOMAXPROCS"] = "2"
            log = open(os.path.join(w, "log"), "w+")
            p = subprocess.Popen([exe, "-prop", self.prop, "-seed", str(seed), "-secs", str(secs), "-out", o, "-work", w],
                                 cwd=w, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            ps.append((p, o, log, seed))
        tot = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "failures": []}
        for p, o, log, seed in ps:
            try:
                rc = p.wait(timeout=secs + 90)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = 124
            log.seek(0)
            text = log.read()
            try:
                r = json.load(open(o))
            except Exception:
                r = None
            if r is None:
                if "no harness for" in text:
                    return None
                tot["failures"].append({"key": "", "input": "harness run with -seed %d" % seed, "seed": seed,
                                        "msg": "the run ended with %s: %s" % (rc, (text[:1500] + " ... " + text[-500:]) if len(text) > 2000 else text)})
                continue
            tot["evaluations"] += r["evaluations"]
            tot["distinct_nontrivial"] += r["distinct_nontrivial"]
            tot["rule"] = r["rule"]
            tot["samples"] += (r.get("samples") or [])[:2]
            for f in r.get("failures") or []:
                f["seed"] = seed
                tot["failures"].append(f)
        return tot

    # --- the verdict -----------------------------------------------------
    def known(self):
        """key -> description, of the open findings of this property."""
        k = {}
        with open(os.path.join(VERIF, "known_findings.txt")) as fh:
            for line in fh:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    k[m.group(2)] = m.group(3)
        return k

    def main(self):
        known = self.known()
        rc, out = run(["go", "build", "./..."], cwd=REPO, timeout=300)
        buildlog = out if rc != 0 else ""
        proof = self.prove()
        if self.prop == "C18":
            run(["go", "build", "-o", os.path.join(self.dir, "bbn"), "./cmd/bbn"], cwd=REPO, timeout=300)
        exe, hlog = self.build_harness()
        secs = float(os.environ.get("VERIF_SECS") or (150 if self.thorough else 14))
        procs = 4
        res = None
        if exe:
            res = self.search(exe, secs, procs, 0)
        pfail, pknown = [], []
        for f in proof["failed"]:
            hit = [k for k in known if k in f["name"]]
            (pknown if hit else pfail).append(f)
        hfail = [f for f in (res or {}).get("failures", []) if f["key"] not in known]
        hknown = [f for f in (res or {}).get("failures", []) if f["key"] in known]
        if pfail and not hfail and exe and res is not None:
            # an obligation fails: look harder for an input that shows it
            r2 = self.search(exe, 60 if self.thorough else 45, 7, 1)
            if r2:
                for k in ("evaluations", "distinct_nontrivial"):
                    res[k] += r2[k]
                hfail += [f for f in r2["failures"] if f["key"] not in known]
        if res is None:
            self.notes.append("no concrete search in this run: " + (hlog[-800:] if not exe else "the property's harness is not available"))
        for k, what in known.items():
            if any(k in f["name"] for f in pknown) or any(f["key"] == k for f in hknown):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        bad = bool(pfail or hfail or buildlog)
        if res is None and not bad and proof["obligations"] == 0:
            bad = True
        self.evidence(proof, res, pfail, hfail)
        code = 0
        if bad:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", self.prop + ".json")
            json.dump({
                "property": self.prop, "tier": self.tier, "seed": self.seed,
                "failing_inputs": hfail[:10],
                "replay": ["build: go build -overlay of /verif/harness as /repo/internal/verifharness (see check.py)"] +
                          ["harness -prop %s -seed %s -secs %g" % (self.prop, f.get("seed"), secs) for f in hfail[:3]],
                "failed_obligations": pfail[:20],
                "verifier_output": self.prooflog[-6000:],
                "build": buildlog[-3000:], "harness_build": "" if exe else hlog[-3000:], "notes": self.notes,
            }, open(path, "w"), indent=1)
            for f in pfail[:5]:
                print("failed obligation: %s (%s) %s %s" % (f["name"], f.get("pos", ""), f.get("status", ""), (f.get("why") or "")[:200]))
            for f in hfail[:2]:
                print("failing input: %s\n  %s" % (f["input"][:1500], f["msg"][:1500]))
            if buildlog:
                print("the repository does not build:\n" + buildlog[-1500:])
            line = "VIOLATION property=%s replay=%s" % (self.prop, path)
            if not hfail:
                line += " no-failing-input-found"
            print(line)
            code = 1
        else:
            print("%s held: %d/%d obligations discharged over %d functions and %d lemmas, %d vacuity probes; bounded search: %s evaluations; %.1f s" % (
                self.prop, proof["discharged"], proof["obligations"], len(proof["functions"] or []), len(proof["lemmas"] or []), proof["probes"],
                res["evaluations"] if res else "none", time.time() - self.start))
        return code

    def evidence(self, proof, res, pfail, hfail):
        lv = "exploration"
        with open(os.path.join(VERIF, "MANIFEST.json")) as fh:
            for c in json.load(fh)["checks"]:
                if c["property"] == self.prop:
                    lv = c["level"]
        fns = proof.get("functions") or []
        assumptions = list(TRUST) if fns else []
        assumptions += proof.get("trusted") or []
        assumptions += proof.get("axioms") or []
        if proof.get("assumed"):
            assumptions.append("modular: the contracts of these callees are used here and discharged by the checks of other properties: " + ", ".join(proof["assumed"]))
        stated = {}
        try:
            stated = json.load(open(os.path.join(VERIF, "contracts", "scope.json"))).get(self.prop, {})
        except Exception:
            pass
        cov = {
            "obligations": proof["obligations"], "discharged": proof["discharged"],
            "checker_cmd": self.checker,
            "trusted_base": assumptions or ["none: no contract of this property is proved"],
            "functions_under_contract": [{"name": f["name"], "obligations": f["obligations"], "discharged": f["discharged"], "solver_ms": f["ms"]} for f in fns],
            "lemmas": [{"name": f["name"], "obligations": f["obligations"], "discharged": f["discharged"]} for f in proof.get("lemmas") or []],
            "discharged_by_back_end": proof.get("by_solver") or {},
            "solver_s": round((proof.get("solver_ms") or 0) / 1000.0, 2),
            "vacuity_probes": proof.get("probes", 0), "vacuity_probes_ok": proof.get("probes_ok", 0),
            "slowest_obligations": [{"name": s["name"], "ms": s["ms"], "solver": s["solver"]} for s in (proof.get("slow") or [])[:3]],
            "failed_obligations": [f["name"] for f in pfail[:20]],
            "proved_scope": stated.get("proved", ""),
            "bounded_scope": stated.get("bounded", ""),
        }
        if res is not None:
            cov.update({"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": "bounded, not proved: " + res["rule"],
                        "samples": res["samples"] or ["(none)"], "failing_inputs": len(hfail)})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": lv, "coverage": cov,
              "assumptions": assumptions + self.notes, "wall_s": round(time.time() - self.start, 2), "violations": len(pfail) + len(hfail)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)


TRUST = [
    "govc, the condition generator in /verif/govc (its reading of the Go subset), and the solvers z3 and cvc5",
    "int is treated as mathematical: no 64-bit overflow",
    "float64 is treated as real arithmetic: no rounding, NaN or infinity except where a contract names them",
    "partial correctness: a loop is shown to end only where its contract has a decreases clause",
]

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier if tier in ("quick", "thorough") else "quick")
    try:
        code = c.main()
    except Exception:
        import traceback
        text = traceback.format_exc()
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", prop + ".json")
        json.dump({"property": prop, "error": text}, open(path, "w"), indent=1)
        print(text)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        code = 1
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(code)
