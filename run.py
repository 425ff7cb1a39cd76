#!/usr/bin/env python3
"""Decides the properties of /verif/properties.jsonl for the working tree of /repo.

usage: run.py <property id> <quick|thorough>
       run.py setup
       run.py replay <replay file>

For every property: TLC explores the specification modules of the property (checking
their invariants and printing the predicted behaviours), the Go driver (built from the
working tree of /repo) replays every behaviour against the real code, and, where a
trace specification exists, TLC validates traces recorded from the real code.

exit 0: held on everything explored; exit 1 with a VIOLATION line: the real code
diverged from the specification; anything else: the machinery itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from plan import PLAN, LEVEL_NOTES  # noqa: E402

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.27.3"
NCPU = os.cpu_count() or 8


class Broken(Exception):
    """the machinery (not the code under check) failed"""


def go_env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), PATH=GO + "/bin:/usr/local/bin:/usr/bin:/bin",
             GOROOT=GO, GOTOOLCHAIN="local", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    return e


def sh(cmd, cwd=None, env=None, timeout=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise Broken("%s failed (%d):\n%s" % (what or cmd[0], p.returncode, p.stdout[-4000:]))
    return p.stdout


def build_driver(work, race=False):
    """builds the driver against the working tree of /repo in a scratch module"""
    mod = os.path.join(work, "harness")
    if not os.path.isdir(mod):
        shutil.copytree(os.path.join(VERIF, "harness"), mod)
    out = os.path.join(work, "drive" + ("-race" if race else ""))
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "./drive"]
    sh(cmd, cwd=mod, env=go_env(), timeout=600, what="build of the driver")
    return out


def cfg_text(stage, tier):
    st = stage.get(tier, {})
    consts = dict(stage.get("consts", {}))
    consts.update(st.get("consts", {}))
    lines = ["SPECIFICATION " + stage.get("spec", "Spec")]
    if consts:
        lines.append("CONSTANTS")
        lines += ["  %s = %s" % kv for kv in consts.items()]
    inv = list(stage.get("invariants", []))
    if inv:
        lines.append("INVARIANTS " + " ".join(inv))
    if stage.get("properties") and not st.get("simulate"):
        lines.append("PROPERTIES " + " ".join(stage["properties"]))
    for k in ("constraint", "view"):
        if stage.get(k):
            lines.append("%s %s" % (k.upper(), stage[k]))
    lines.append("CHECK_DEADLOCK FALSE")
    return "\n".join(lines) + "\n"


def run_tlc(work, stage, tier, seed, index):
    """returns (behaviours file, stats)"""
    d = os.path.join(work, "tlc%d" % index)
    os.makedirs(d)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    mod = stage["module"]
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write(cfg_text(stage, tier))
    st = stage.get(tier, {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx%s" % st.get("heap", "6g"), "-Xss64m", "-cp", TLA_CP,
           "tlc2.TLC", "-config", "MC.cfg", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
    sim = st.get("simulate")
    if sim:
        cmd += ["-simulate", "num=%d" % sim["num"], "-depth", str(sim["depth"]), "-seed", str(seed),
                "-workers", str(sim.get("workers", 1))]
    else:
        cmd += ["-workers", str(NCPU)]
    cmd.append(mod + ".tla")
    out_path = os.path.join(d, "behaviours.ndjson")
    stats = {"module": mod, "states": 0, "transitions": 0, "behaviours": 0}
    tail = []
    env = dict(os.environ)
    env.update(stage.get("env", {}))
    seen = set()
    t0 = time.time()
    with open(out_path, "w") as out:
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace")
        for line in p.stdout:
            if line.startswith('"B '):
                b = json.loads(line)[2:]
                if sim:
                    h = hash(b)
                    if h in seen:
                        continue
                    seen.add(h)
                out.write(b + "\n")
                stats["behaviours"] += 1
                continue
            tail.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct", line)
            if m:
                stats["transitions"], stats["states"] = int(m.group(1)), int(m.group(2))
            m = re.search(r"The number of states generated: (\d+)", line)
            if m:
                stats["transitions"] = stats["states"] = int(m.group(1))
        rc = p.wait()
    stats["tlc_s"] = round(time.time() - t0, 1)
    if rc != 0:
        raise Broken("TLC on %s failed (%d):\n%s" % (mod, rc, "".join(tail)[-4000:]))
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return out_path, stats


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def drive(driver, kind, inp, seed, work, index, extra=(), cwd=None, timeout=840):
    out = os.path.join(work, "result%d.json" % index)
    cmd = [driver, "-kind", kind, "-in", inp, "-seed", str(seed), "-out", out] + list(extra)
    p = subprocess.run(cmd, cwd=cwd or work, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", timeout=timeout)
    if p.returncode != 0 or not os.path.exists(out):
        # a crash that Go can't recover from (stack overflow, fatal concurrency error) is
        # a behaviour of the code under check, unless the harness itself said it failed
        if p.returncode == 3 or "drive:" in p.stderr.splitlines()[:1]:
            raise Broken("driver %s failed:\n%s" % (kind, p.stderr[-3000:]))
        return {"replayed": 0, "observations": 0, "violated": 1, "violations": [{
            "index": -1, "message": "the process crashed (exit %d): %s" % (p.returncode, p.stderr[:3000]),
            "behavior": None, "seed": seed, "kind": kind}]}
    with open(out) as f:
        return json.load(f)


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    plan = PLAN[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "observations": 0,
           "samples": [], "stages": []}
    violations = []
    known_seen = []
    try:
        driver = build_driver(work)
        ctx = {"work": work, "driver": driver, "tier": tier, "seed": seed, "run_tlc": run_tlc, "drive": drive,
               "go_env": go_env, "sh": sh, "Broken": Broken, "verif": VERIF, "build_driver": build_driver,
               "ncpu": NCPU, "TLA_CP": TLA_CP}
        for i, stage in enumerate(plan["stages"]):
            if tier not in stage.get("tiers", ("quick", "thorough")):
                continue
            custom = stage.get("custom")
            if custom:
                import custom as custom_mod
                res, stats = getattr(custom_mod, custom)(ctx, stage, i)
            else:
                inp, stats = run_tlc(work, stage, tier, seed, i)
                if stats["behaviours"] == 0 and stage["kind"]:
                    raise Broken("no behaviours generated by %s" % stage["module"])
                res = {"replayed": 0, "observations": 0, "violated": 0, "violations": []}
                rounds = stage.get(tier, {}).get("rounds", stage.get("rounds", 1))
                exe = driver if not stage.get("race") else build_driver(work, race=True)
                for r in range(rounds if stage["kind"] else 0):
                    one = drive(exe, stage["kind"], inp, seed * 1000 + r, work, i)
                    for k in ("replayed", "observations", "violated"):
                        res[k] += one[k]
                    res["violations"] += one.get("violations") or []
                    res.setdefault("sample", one.get("sample"))
                    if one["violated"]:
                        break
                os.remove(inp)
            cov["states"] += stats.get("states", 0)
            cov["transitions"] += stats.get("transitions", 0)
            cov["traces_validated_against_impl"] += res["replayed"]
            cov["observations"] += res["observations"]
            st = dict(stats)
            st.update(kind=custom or stage["kind"] or "model only", replayed=res["replayed"], observations=res["observations"],
                      divergences=res["violated"])
            cov["stages"].append(st)
            if res.get("sample") is not None and len(cov["samples"]) < 4:
                s = json.dumps(res["sample"])
                cov["samples"].append(s if len(s) < 1500 else s[:1500] + "...")
            violations += res.get("violations") or []
            if res["violated"]:
                break
        # listed findings: demonstrate that they still are there
        for k in known_findings(prop):
            msg = replay_known(ctx, k)
            if msg:
                known_seen.append((k, msg))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    ev = {"property": prop, "tier": tier, "seed": seed, "level": plan.get("level", "model_checking"),
          "wall_s": round(time.time() - t0, 2), "coverage": cov,
          "violations": len(violations), "assumptions": plan.get("assumptions", [])}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, msg in known_seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        rdir = os.path.join(ev_dir, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, seed))
        with open(rp, "w") as f:
            json.dump({"property": prop, "violations": violations[:25]}, f, indent=1)
        for v in violations[:5]:
            print("  " + v["message"][:1500].replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s tier=%s behaviours=%d observations=%d states=%d wall=%.1fs" % (
        prop, tier, cov["traces_validated_against_impl"], cov["observations"], cov["states"], ev["wall_s"]))
    return 0


def replay_known(ctx, k):
    """returns a non-empty message if the listed finding is still there"""
    work = ctx["work"]
    inp = os.path.join(work, "known.ndjson")
    with open(inp, "w") as f:
        f.write(json.dumps(k["behavior"]) + "\n")
    res = drive(ctx["driver"], k["kind"], inp, 1, work, 999)
    if res["violated"]:
        return res["violations"][0]["message"]
    return ""


def replay(path):
    with open(path) as f:
        data = json.load(f)
    work = tempfile.mkdtemp(prefix="verif-replay-")
    bad = 0
    try:
        driver = build_driver(work)
        for v in data["violations"]:
            if v.get("behavior") is None:
                print("not replayable on its own:", v["message"])
                continue
            inp = os.path.join(work, "in.ndjson")
            # the concretisation depends on the index of the behaviour
            with open(inp, "w") as f:
                f.write("null\n" * 0 + json.dumps(v["behavior"]) + "\n")
            if v["kind"] in ("generated", "tool"):
                import custom
                ctx = {"work": work, "go_env": go_env, "sh": sh, "Broken": Broken, "verif": VERIF, "seed": v["seed"]}
                res = (custom.replay_tool(ctx, [v["behavior"]], bad, {}) if v["kind"] == "tool" else
                       custom.replay_generated(ctx, inp, bad, {}, rounds=50))
            else:
                res = drive(driver, v["kind"], inp, v["seed"], work, 0, extra=["-base", str(v["index"])])
            if res["violated"]:
                bad += 1
                print(res["violations"][0]["message"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build_driver(work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("setup ok")
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[1] not in PLAN or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    return check(sys.argv[1], sys.argv[2])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("MACHINERY-FAILED: %s" % e, file=sys.stderr)
        sys.exit(2)
