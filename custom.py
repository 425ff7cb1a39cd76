"""Stages of run.py which need more than one run of the driver."""
import json, os, re, shutil, subprocess

from tool import tool, replay_tool  # noqa: F401


def merged(stats, one):
    for k in ("states", "transitions", "behaviours"):
        stats[k] = stats.get(k, 0) + one.get(k, 0)
    stats["tlc_s"] = round(stats.get("tlc_s", 0) + one.get("tlc_s", 0), 1)


def violation(kind, message, behavior=None):
    return {"index": -1, "message": message, "behavior": behavior, "seed": 0, "kind": kind}


def generated(ctx, stage, index):
    """Types of the behaviours are rendered as Go packages, the generator of the working
    tree writes code for them, and the behaviours are replayed against this code."""
    work, tier = ctx["work"], ctx["tier"]
    inp = os.path.join(work, "generated%d.ndjson" % index)
    stats = {"module": "Generated", "families": []}
    with open(inp, "w") as out:
        for j, m in enumerate(stage["models"]):
            if tier not in m:
                continue
            st = dict(m, module="Generated")
            path, one = ctx["run_tlc"](work, st, tier, ctx["seed"], 1000 * (index + 1) + j)
            if not one["behaviours"]:
                raise ctx["Broken"]("no behaviours of %s" % m)
            merged(stats, one)
            stats["families"].append(m["consts"]["Family"].strip('"'))
            with open(path) as f:
                shutil.copyfileobj(f, out)
            os.remove(path)
    rounds = stage.get(tier, {}).get("rounds", 1)
    return replay_generated(ctx, inp, index, stats, stage.get("replay", True), rounds), stats


def replay_generated(ctx, inp, index, stats, replay=True, rounds=1):
    work, env = ctx["work"], ctx["go_env"]()
    mod = os.path.join(work, "generated%d" % index)
    shutil.copytree(os.path.join(ctx["verif"], "harness"), mod)
    res = {"replayed": 0, "observations": 0, "violated": 0, "violations": []}
    n = ctx["sh"](["go", "run", "./gengo", "-in", inp, "-dir", "."], cwd=mod, env=env, timeout=300, what="writing of types")
    stats["types"] = int(n.split()[-1])
    failures = json.loads(ctx["sh"](["go", "run", "./gen/boot"], cwd=mod, env=env, timeout=600, what="running of the generator").splitlines()[-1])
    if failures:
        for f in failures[:20]:
            decl = declaration(mod, f["engine"], f["root"])
            res["violations"].append(violation("generated", "%s: no code for a supported type: %s\n%s" % (f["engine"], f["err"], decl)))
        res["violated"] = len(failures)
        return res
    exe = os.path.join(work, "replay%d" % index)
    p = subprocess.run(["go", "build", "-o", exe, "./gen/replay"], cwd=mod, env=env, timeout=600, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        bad = re.findall(r"gen/(\w+)/p\d+/(R\d+)_yamly\.go", p.stdout)
        if not bad:
            raise ctx["Broken"]("build of generated code failed:\n" + p.stdout[-3000:])
        res["violated"] = len(set(bad))
        res["violations"].append(violation("generated", "generated code does not compile:\n%s\n%s" % (
            p.stdout[:1500], declaration(mod, *bad[0]))))
        return res
    # methods of generated types
    if replay:
        out = os.path.join(work, "generated%d.json" % index)
        p = subprocess.run([exe, "-in", inp, "-out", out, "-seed", str(ctx["seed"]), "-rounds", str(rounds)], cwd=work, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=840)
        if p.returncode != 0 or not os.path.exists(out):
            if p.returncode == 3:
                raise ctx["Broken"]("replay of generated code failed:\n" + p.stderr[-3000:])
            res["violated"] = 1
            res["violations"].append(violation("generated", "the process crashed (exit %d): %s" % (p.returncode, p.stderr[:3000])))
            return res
        with open(out) as f:
            res = json.load(f)
        res["violations"] = res.get("violations") or []
    else:
        res["replayed"] = stats["types"]
        res["observations"] = 2 * stats["types"]
    shutil.rmtree(mod, ignore_errors=True)
    return res


def declaration(mod, engine, root):
    base = os.path.join(mod, "gen", engine)
    for pkg in sorted(os.listdir(base)):
        with open(os.path.join(base, pkg, "types.go")) as f:
            text = f.read()
        m = re.search(r"(?s)^type %s\b.*?^func init" % root, text, re.M)
        if m:
            return m.group(0)[:1500]
    return root
