"""Replay of Tool.tla: invocations of yamlygen (built from the working tree) in scratch packages."""
import json, os, random, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

TYPES = """package pkg

//go:generate echo types of Tool.tla

type Flat struct {
	A int
	B string `yaml:"b,omitempty"`
	C *bool
}

type UserData struct {
	Flat Flat
	List []Flat `yaml:"list"`
	Ptr  *Flat  `yaml:"ptr,omitempty"`
	Map  map[string]Flat
}

type HTTPLoop struct {
	Next  *HTTPLoop
	User  UserData
	Users map[string]*UserData `yaml:"users"`
}

type Bad struct {
	A  int
	Ch chan int
}

type Deep struct {
	A int
	B []map[string]struct{ F func() }
}
"""
EXTRA = {
    # files which are in the directory, but not in the package
    "tool.go": "//go:build ignore\n\npackage main\n\nfunc main() {}\n",
    "pkg_test.go": "package pkg_test\n",
    "notes.txt": "package broken\n",
}
BROKEN = "package pkg\n\nvar broken int = \"broken\"\n"
NAMES = {"Flat": "flat_yamly.go", "UserData": "user_data_yamly.go", "HTTPLoop": "http_loop_yamly.go"}
# plays the go command for yamlygen: kills yamlygen before or after the generator runs
FAKE_GO = """#!/bin/sh
if [ "$1" = run ]; then
  if [ "$VERIF_KILL" = after ]; then VERIF_KILL= %(go)s "$@"; fi
  kill -9 "$PPID"
  exit 1
fi
exec %(go)s "$@"
"""
IFACES = {"goyaml": "gopkg.in/yaml.v3", "yayamls": "github.com/KSpaceer/yamly/engines/yayamls"}


class Divergence(Exception):
    pass


class Tool:
    def __init__(self, ctx, index):
        self.ctx, self.env = ctx, ctx["go_env"]()
        self.mod = os.path.join(ctx["work"], "tool%d" % index)
        os.makedirs(self.mod)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(ctx["verif"], "harness", f), self.mod)
        with open(os.path.join(self.mod, "keep.go"), "w") as f:
            f.write('package tool\n\nimport (\n\t_ "github.com/KSpaceer/yamly/engines/goyaml"\n\t_ "github.com/KSpaceer/yamly/engines/yayamls"\n\t_ "github.com/KSpaceer/yamly/generator"\n)\n')
        self.exe = os.path.join(ctx["work"], "yamlygen%d" % index)
        ctx["sh"](["go", "build", "-o", self.exe, "github.com/KSpaceer/yamly/cmd/yamlygen"], cwd=self.mod, env=self.env, timeout=300,
                  what="build of yamlygen")
        self.fake = os.path.join(ctx["work"], "fake%d" % index)
        os.makedirs(self.fake)
        with open(os.path.join(self.fake, "go"), "w") as f:
            f.write(FAKE_GO % {"go": shutil.which("go", path=self.env["PATH"])})
        os.chmod(os.path.join(self.fake, "go"), 0o755)
        self.local = threading.local()
        self.lock = threading.Lock()
        self.count, self.runs = 0, 0
        self.contents, self.locks, self.built = {}, {}, {}

    def package(self):
        """directory of a package of the calling thread"""
        if not hasattr(self.local, "dir"):
            with self.lock:
                self.count += 1
                self.local.dir = os.path.join(self.mod, "w%d" % self.count, "pkg")
            os.makedirs(self.local.dir)
            for f in ("go.mod", "go.sum", "keep.go"):
                # modules of the same name: names in generated code derive from the path of the package
                shutil.copy(os.path.join(self.mod, f), os.path.dirname(self.local.dir))
        return self.local.dir

    def fill(self, files, broken=False):
        d = self.package()
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        for name, text in [("types.go", TYPES)] + list(EXTRA.items()) + ([("broken.go", BROKEN)] if broken else []) + list(files.items()):
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        return d

    def listing(self, d):
        res = {}
        for name in sorted(os.listdir(d)):
            with open(os.path.join(d, name)) as f:
                res[name] = f.read()
        return res

    def run(self, d, r, kill=None):
        env, cwd, tail = dict(self.env), d, []
        env.pop("GOFILE", None)
        if r["dir"] == "arg":
            cwd, tail = os.path.dirname(d), ["pkg"]
        elif r["dir"] == "abs":
            cwd, tail = os.path.dirname(d), [d + "/"]
        elif r["dir"] == "long":
            cwd, tail = os.path.dirname(d), [os.path.dirname(d) + "//./pkg/../pkg"]
        elif r["dir"] == "env":
            cwd = os.path.dirname(d)
            env["GOFILE"] = "pkg/types.go"
        elif r["dir"] == "missing":
            tail = ["nowhere"]
        elif r["dir"] == "file":
            tail = ["types.go"]
        elif r["dir"] == "two":
            tail = [".", "."]
        cmd = [self.exe, "-engine", r["e"]]
        if r["t"]:
            cmd += ["-type", r["t"]]
        if r["out"] != "default":
            cmd += ["-output", r["out"]]
        if r["tag"]:
            cmd += ["-build-tags", r["tag"]]
        if r["fl"] == "all":
            cmd += ["-omitempty", "-disallow-unknown-fields", "-encode-pointer-receiver", "-inline-embedded"]
        if kill:
            env["PATH"] = self.fake + ":" + env["PATH"]
            env["VERIF_KILL"] = kill
        with self.lock:
            self.runs += 1
        p = subprocess.run(cmd + tail, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=300)
        self.said = p.stdout
        return p.returncode, p.stdout[-800:]

    def content(self, name, rec):
        """what the generator writes for a file of the model, in a package with nothing but the types it calls"""
        key = json.dumps([name, rec], sort_keys=True)
        with self.lock:
            lock = self.locks.setdefault(key, threading.Lock())
        with lock:
            if key in self.contents:
                if self.contents[key] is None:
                    raise Divergence("%s can not be generated in a package of its own" % key)
                return self.contents[key]
            self.contents[key] = None
            others = {}
            for t in rec["calls"]:
                # called types don't call others here
                others[NAMES[t] if NAMES[t] != name else "z_" + NAMES[t]] = self.content(
                    NAMES[t] if NAMES[t] != name else "z_" + NAMES[t], {"t": t, "e": rec["e"], "fl": "none", "tag": "", "calls": []})
            d = self.fill(others)
            req = {"t": rec["t"], "e": rec["e"], "fl": rec["fl"], "tag": rec["tag"], "out": name, "dir": "cwd"}
            code, said = self.run(d, req)
            after = self.listing(d)
            if code != 0 or name not in after:
                raise Divergence("yamlygen %s in a package with %s: exit %d\n%s" % (req, sorted(others), code, said))
            self.contents[key] = after[name]
            return after[name]

    def files(self, fs):
        return {m: self.content(m, rec) for m, rec in fs.items() if rec["t"] != "none"}

    def builds(self, fs, tag, expected):
        """does the package with these files compile, as a user of the interfaces?"""
        key = json.dumps([fs, tag], sort_keys=True)
        with self.lock:
            if key in self.built:
                return
            self.built[key] = True
        files = self.files(fs)
        asserts, imports = [], {}
        for m, rec in fs.items():
            if rec["t"] == "none" or (rec["tag"] and rec["tag"] != tag):
                continue
            imports[rec["e"]] = IFACES[rec["e"]]
            value = "(*%s)(nil)" % rec["t"] if rec["fl"] == "all" else "%s{}" % rec["t"]
            asserts += ["var _ yamly.MarshalerYamly = " + value, "var _ yamly.UnmarshalerYamly = (*%s)(nil)" % rec["t"]]
            asserts += ["var _ %s.Marshaler = %s" % (rec["e"], value), "var _ %s.Unmarshaler = (*%s)(nil)" % (rec["e"], rec["t"])]
        if asserts and expected:
            files["zz_use.go"] = "package pkg\n\nimport (\n\t\"github.com/KSpaceer/yamly\"\n" + "".join(
                '\t%s "%s"\n' % kv for kv in sorted(imports.items())) + ")\n\n" + "\n".join(asserts) + "\n"
        d = self.fill(files)
        p = subprocess.run(["go", "build", "-tags", tag, "."], cwd=d, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=300)
        if (p.returncode == 0) != expected:
            raise Divergence("package with %s, build tags %r: compiles: %s, expected: %s\n%s" % (
                brief(fs), tag, p.returncode == 0, expected, p.stdout[:1500]))

    def replay(self, b):
        """returns the number of observations"""
        op, r = b["op"], b["r"]
        if op in ("delete", "edit"):
            return 0
        pre = dict(b["pre"])
        broken = b["src"] == "broken"
        before = self.files(pre)
        post = self.files(b["post"])
        d = self.fill(before, broken)
        static = {k: v for k, v in self.listing(d).items() if k not in before}
        name = r["out"] if r["out"] != "default" else NAMES.get(r["t"], "other_yamly.go")
        where = "yamlygen %s in a package with %s" % (json.dumps(r), brief(pre))
        if op != "invoke":
            code, said = self.run(d, r, op[len("kill-"):])
            after = self.listing(d)
            for m, text in list(before.items()) + list(static.items()):
                if m != name and after.get(m) != text:
                    raise Divergence("%s, killed: %s changed" % (where, m))
            return 1
        if b["killed"] != "no":
            self.run(d, r, ("before", "after")[len(json.dumps(b)) % 2])
            left = set(self.listing(d)) - set(static) - set(before) - {name}
            where += ", after a killed invocation"
        code, said = self.run(d, r)
        after = self.listing(d)
        if (code == 0) != b["ok"]:
            raise Divergence("%s: exit %d, expected success: %s\n%s" % (where, code, b["ok"], said))
        if not b["ok"] and not said.strip():
            raise Divergence("%s: exit %d without an explanation" % (where, code))
        want = dict(static)
        want.update(post)
        if b["killed"] != "no":
            # what the killed process left there may stay
            after = {k: v for k, v in after.items() if k not in left}
        for m in sorted(set(want) | set(after)):
            if m not in after:
                raise Divergence("%s: %s is gone" % (where, m))
            if m not in want:
                raise Divergence("%s: %s is left behind:\n%s" % (where, m, after[m][:600]))
            if after[m] != want[m]:
                raise Divergence("%s: %s has not the content it has when generated alone:\n%s" % (where, m, difference(want[m], after[m])))
        if not broken:
            for tag, k in (("", "plain"), ("foo", "foo")):
                self.builds(b["post"], tag, b["builds"][k])
        return 4


def difference(want, got):
    import difflib
    return "".join(list(difflib.unified_diff(want.splitlines(True), got.splitlines(True), "expected", "got", n=1))[:30])


def brief(fs):
    return {m: "%s/%s/%s/%s%s" % (r["t"], r["e"], r["fl"], r["tag"], sorted(r["calls"])) for m, r in fs.items() if r["t"] != "none"} or "no generated files"


def tool(ctx, stage, index):
    path, stats = ctx["run_tlc"](ctx["work"], dict(stage, module="Tool"), ctx["tier"], ctx["seed"], index)
    with open(path) as f:
        lines = f.readlines()
    os.remove(path)
    limit = stage.get(ctx["tier"], {}).get("sample")
    if limit and len(lines) > limit:
        rnd = random.Random(ctx["seed"])
        lines.sort()
        first = [l for l in lines if '"n":1,' in l] if stage.get("first", True) else []
        rest = [l for l in lines if '"n":1,' not in l and '"op":"invoke"' in l]
        # half of those which succeed, half of those which don't
        won = [l for l in rest if '"ok":true' in l]
        lost = [l for l in rest if '"ok":false' in l]
        lines = first + rnd.sample(won, min(len(won), limit * 3 // 4)) + rnd.sample(lost, min(len(lost), limit // 4))
    return replay_tool(ctx, [json.loads(l) for l in lines], index, stats), stats


def replay_tool(ctx, behaviours, index, stats):
    t = Tool(ctx, index)
    res = {"replayed": 0, "observations": 0, "violated": 0, "violations": [], "sample": behaviours[-1]}
    lock = threading.Lock()

    def one(i):
        b = behaviours[i]
        if res["violated"] > 20:
            return
        try:
            n = t.replay(b)
        except Divergence as e:
            with lock:
                res["violated"] += 1
                res["violations"].append({"index": i, "message": str(e)[:3000], "behavior": b, "seed": ctx["seed"], "kind": "tool"})
            return
        with lock:
            res["replayed"] += 1
            res["observations"] += n
    # packages of files of the model first: they take part in most of the behaviours
    with ThreadPoolExecutor(max_workers=min(12, os.cpu_count() + 2)) as pool:
        for f in [pool.submit(one, i) for i in range(len(behaviours))]:
            f.result()
    stats["invocations"] = t.runs
    shutil.rmtree(t.mod, ignore_errors=True)
    return res
