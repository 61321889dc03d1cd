#!/usr/bin/env python3
"""check.py CXX [--replay-only] : decide one property on /repo's working tree.

1. govc reads the Go source of /repo, generates every obligation of the
   contracts tagged with the property (and of every contract those rely on) and
   discharges them with the SMT portfolio.  This step decides.
2. the executable form of the property (/verif/falsify) is run against the real
   code through a go test overlay: it turns a failed obligation into a concrete
   failing input, and validates the contracts against the running code.
Exit 0: every obligation discharged and nothing refuted.  Exit 1: VIOLATION.
"""
import glob, json, os, re, subprocess, sys, tempfile, time, hashlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "claims.py")).read())
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()

def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0",
             VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    return e

def build_govc():
    b = os.path.join(V, "bin", "govc")
    srcs = glob.glob(os.path.join(V, "govc", "*.go")) + glob.glob(os.path.join(V, "govc", "go.*"))
    if os.path.exists(b) and all(os.path.getmtime(b) >= os.path.getmtime(s) for s in srcs):
        return b
    os.makedirs(os.path.dirname(b), exist_ok=True)
    tmp = b + ".%d" % os.getpid()
    p = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(V, "govc"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout)
        sys.exit(3)
    os.replace(tmp, b)
    return b

def known(prop):
    fs = []
    path = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                fs.append((m.group(2), m.group(3)))
    return fs

def run_govc(prop, work, refuted):
    out = os.path.join(work, "report.json")
    cmd = [build_govc(), "-repo", REPO, "-specs", os.path.join(V, "contracts"), "-prop", prop, "-json", out,
           "-timeout", "20" if TIER == "quick" else "60",
           # with a concrete refutation in hand the failed obligations only add detail
           "-deadline", "120" if refuted else "640" if TIER == "quick" else "2800", "-retry", "0" if refuted else "8"]
    try:
        p = subprocess.run(cmd, cwd=V, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=740 if TIER == "quick" else 3000)
        text = p.stdout
    except subprocess.TimeoutExpired as ex:
        return None, "govc timed out\n" + str(ex.stdout or "")[-4000:]
    if not os.path.exists(out):
        return None, text
    return json.load(open(out)), text

PKGS = {"mp4": ".", "bitio": "internal/bitio", "util": "internal/util"}

def run_falsify(prop, work):
    """executable contracts; returns (evaluations, failures, note)"""
    evals, distinct, samples, fails, notes = 0, 0, [], [], []
    for pkg, d in PKGS.items():
        files = sorted(glob.glob(os.path.join(V, "falsify", pkg, prop.lower() + "*_test.go")))
        if not files:
            continue
        common = sorted(glob.glob(os.path.join(V, "falsify", pkg, "common*_test.go")))
        ov = {"Replace": {}}
        for f in files + common:
            ov["Replace"][os.path.join(REPO, d, "zzverif_" + os.path.basename(f))] = f
        # the repository's own tests are left out: only the harness is compiled
        for f in glob.glob(os.path.join(REPO, d, "*_test.go")):
            ov["Replace"].setdefault(f, "")
        ovf = os.path.join(work, "overlay_%s.json" % pkg)
        json.dump(ov, open(ovf, "w"))
        lim = 180 if TIER == "quick" else 1500
        cmd = ["go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", "%ds" % lim, "-v",
               "-run", "^TestVerif" + prop, "./" + d]
        e = env()
        e["VERIF_WORK"] = work
        e["VERIF_LAYOUTS"] = os.path.join(V, "contracts", "layouts.txt")
        try:
            p = subprocess.run(["bash", "-c", "ulimit -v 40000000; exec \"$@\"", "x"] + cmd, cwd=REPO, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               timeout=lim + 60)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else str(ex.stdout or ""), 1
            out += "\npanic: harness killed after time limit"
        for m in re.finditer(r"VERIF-EVALS (\d+) (\d+)", out):
            evals += int(m.group(1)); distinct += int(m.group(2))
        for m in re.finditer(r"VERIF-SAMPLE (.*)", out):
            if len(samples) < 6:
                samples.append(m.group(1)[:300])
        if rc != 0:
            if "[build failed]" in out or "[setup failed]" in out:
                notes.append("harness of package %s does not compile against this tree: %s" % (pkg, out[:600]))
                continue
            got = re.findall(r"VERIF-FALSIFIED (\S+) (.*)", out)
            for k, w in got:
                fails.append((k, w, out))
            if not got:
                fails.append(("crash", "the harness crashed or hung: " + out[-1500:], out))
    return evals, distinct, samples, fails, notes

def main():
    prop = sys.argv[1]
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rd = os.path.join(V, "replays")
    os.makedirs(rd, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    kn = known(prop)
    evals, distinct, samples, fails, notes = run_falsify(prop, work)
    rep, text = run_govc(prop, work, any("case:" + f[0] not in ["%s" % k for k, _ in kn] for f in fails))
    violations, lines = [], []
    nf = []
    if rep is None:
        nf.append({"func": "govc", "name": "generator", "detail": "no report: " + text[-3000:]})
    else:
        nf += rep.get("failed") or []
        for m in rep.get("missing") or []:
            nf.append({"func": m, "name": "contract target", "detail": "the function under contract is not in the tree: " + m})
        for f in rep["functions"]:
            if f.get("error"):
                nf.append({"func": f["name"], "name": "generation", "detail": f["error"]})
        if rep["total"] == 0:
            nf.append({"func": prop, "name": "vacuity", "detail": "no obligation was generated"})
    used = set()
    def is_known(key):
        for k, w in kn:
            if k == key:
                used.add(k)
                return True
        return False
    knf = [o for o in nf if is_known("obl:%s:%s" % (o["func"].replace("github.com/abema/go-mp4", "mp4"), o["name"]))]
    nf = [o for o in nf if o not in knf]
    fails = [f for f in fails if not is_known("case:" + f[0])]
    for k, w in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if fails:
        for i, (k, w, out) in enumerate(fails[:5]):
            path = os.path.join(rd, "%s_%d.txt" % (prop, i))
            with open(path, "w") as fh:
                fh.write("property %s refuted on the real code\ncase: %s\ninput: %s\n\n" % (prop, k, w))
                for o in nf[:10]:
                    fh.write("failed obligation: %s %s at %s\n%s\n%s\n\n" % (o["func"], o["name"], o.get("pos", ""), o.get("detail", ""), o.get("model", "")))
                fh.write("\nreproduce: cd /verif && tools/check.py %s\n\n--- harness output ---\n%s\n" % (prop, out[-8000:]))
            violations.append(path)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            print("  refuted: %s %s" % (k, w[:400]))
    elif nf:
        path = os.path.join(rd, "%s_obligations.txt" % prop)
        with open(path, "w") as fh:
            fh.write("property %s: obligations that no longer hold (no concrete failing input was found)\n\n" % prop)
            for o in nf:
                fh.write("failed obligation: %s %s at %s\n%s\nstatus: %s\n%s\n\n" % (o["func"], o["name"], o.get("pos", ""), o.get("detail", ""), o.get("status", ""), o.get("model", "")))
            fh.write("\n".join(notes))
            fh.write("\n--- verifier output ---\n" + text[-20000:])
        violations.append(path)
        for o in nf[:20]:
            print("  failed obligation: %s %s %s" % (o["func"], o["name"], o.get("pos", "")))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    for n in notes:
        print("  note: " + n.replace("\n", " ")[:400])
    cov = {}
    assumptions = []
    if rep is not None:
        fn = [f for f in rep["functions"] if f["kind"] != "lemma"]
        cov = {
            "obligations": rep["total"] - len(knf), "discharged": rep["discharged"],
            "known_finding_obligations": ["%s %s" % (o["func"], o["name"]) for o in knf],
            "checker_cmd": "bin/govc -repo %s -specs contracts -prop %s" % (REPO, prop),
            "trusted_base": ["govc (condition generator over go/ssa, /verif/govc)", "golang.org/x/tools/go/ssa", "z3, z3-new, cvc5"]
                + ["assumed contract: " + t for t in rep.get("trusted") or []] + ["axiom: " + a for a in rep.get("axioms") or []],
            "functions_under_contract": [f["name"].replace("github.com/abema/go-mp4", "mp4") for f in fn],
            "functions_inlined": sorted({i.replace("github.com/abema/go-mp4", "mp4") for f in rep["functions"] for i in f.get("inlined") or []}),
            "lemmas": [f["name"] for f in rep["functions"] if f["kind"] == "lemma"],
            "bounded": [{"function": f["name"], "bound": f["bounded"]} for f in rep["functions"] if f.get("bounded")],
            "obligations_by_kind": rep["by_kind"], "discharged_by": rep["by_solver"], "solver_time_s": rep["solver_time"],
            "executable_contract_evaluations": evals,
        }
        for f in rep["functions"]:
            for n in f.get("notes") or []:
                a = "%s: %s" % (f["name"].replace("github.com/abema/go-mp4", "mp4"), n)
                if a not in assumptions:
                    assumptions.append(a)
    if samples:
        cov["samples"] = samples
        cov["rule"] = "executable form of the contracts, run on the real code with seeded random and boundary inputs; %d distinct" % distinct
    if not cov:
        cov = {"obligations": 0, "discharged": 0, "checker_cmd": "govc", "trusted_base": ["none: the generator gave no report"]}
    level = "proof"
    if prop in LEVELS:
        level, cov["explanation"] = LEVELS[prop]
        cov["bounded"] = cov.get("bounded", []) + [{"function": "see explanation", "bound": "%d generated cases, %d distinct, seed %d" % (evals, distinct, SEED)}]
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    subprocess.run(["rm", "-rf", work])
    if rep is not None:
        print("%s: %d/%d obligations over %d functions and lemmas, %d executable evaluations, %.1fs" % (
            prop, rep["discharged"], rep["total"], len(rep["functions"]), evals, time.time() - T0))
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)

main()
