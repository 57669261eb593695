#!/usr/bin/env python3
"""Driver of the checks.

  check.py PROPERTY [quick|thorough]    run the check of one property
  check.py --replay FILE                run one recorded failure again
  check.py --setup                      warm the build cache

Builds the harness against /repo's working tree, runs the property's tests in
parallel shards (each shard a pure function of the code and VERIF_SEED), merges what they
covered into evidence/<property>.json, and reports the first failure as
"VIOLATION property=<id> replay=<path>" (exit 1). Anything that stops the check
from deciding (build failure, machine trouble) is exit 2.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, resource, signal, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")

sys.path.insert(0, HERE)
from checks import CHECKS  # property -> settings


def goenv():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOSUMDB="off", TZ="UTC", LC_ALL="C.UTF-8")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin"
    for k in list(e):
        if k.startswith("RAPID_") or k.startswith("VERIF_"):
            del e[k]
    return e


def die(msg, code=2):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(code)


def build(tmp, race=False, cli=False):
    out = os.path.join(tmp, "props.race" if race else "props.test")
    # Build from a copy of the harness so that go never writes next to the committed files.
    src = os.path.join(tmp, "harness")
    if not os.path.isdir(src):
        shutil.copytree(HARNESS, src, ignore=shutil.ignore_patterns("testdata"))
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["./props"], cwd=src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("the harness does not build against /repo:\n" + p.stdout[-4000:])
    if cli:
        p = subprocess.run(["go", "build", "-o", os.path.join(tmp, "ivy"), "."], cwd=REPO, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            die("ivy does not build:\n" + p.stdout[-4000:])
    return out


def limits(mem):
    def f():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def shard_seed(seed, prop, variant, i):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, variant, i)).encode()).digest()
    return int.from_bytes(h[:6], "big") | 1


class Shard:
    def __init__(self, prop, binary, var, i, seed, scale, tier, tmp, tag=""):
        self.prop, self.var, self.i = prop, var, i
        self.seed = shard_seed(seed, prop, var["name"], i)
        self.dir = os.path.join(tmp, "%s-%d%s" % (var["name"], i, tag))
        os.makedirs(self.dir)
        self.binary, self.scale, self.tier, self.tmp = binary, scale, tier, tmp
        self.extra = []

    def start(self):
        e = goenv()
        e.update(VERIF_OUT=self.dir, VERIF_SCALE=str(self.scale), VERIF_TIER=self.tier,
                 VERIF_SHARD_SEED=str(self.seed), VERIF_IVY=os.path.join(self.tmp, "ivy"), VERIF_SHARD=str(self.i),
                 GOTRACEBACK="single", GOMAXPROCS="4")
        e.update(self.var.get("env", {}))
        if self.var.get("race"):
            e["GORACE"] = "halt_on_error=1 exitcode=66"
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen([self.binary, "-test.run", self.var["run"], "-test.timeout", "0", "-test.v",
                                   "-rapid.seed", str(self.seed), "-rapid.shrinktime", "20s"] + self.extra,
                                  cwd=self.dir, env=e, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                  preexec_fn=limits(0 if self.var.get("race") else self.var.get("mem", 8 << 30)))

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def text(self):
        with open(os.path.join(self.dir, "log"), "rb") as f:
            t = f.read().decode("utf-8", "replace")
        return "\n".join(l for l in t.split("\n") if "[rapid] draw b:" not in l)

    def failures(self):
        return [os.path.join(self.dir, f) for f in sorted(os.listdir(self.dir)) if f.startswith("failure-")]

    def stats(self):
        r = []
        for f in sorted(os.listdir(self.dir)):
            if f.startswith("stat-"):
                with open(os.path.join(self.dir, f)) as fh:
                    r.append(json.load(fh))
        return r


def run_all(shards, deadline):
    for s in shards:
        s.start()
    left = list(shards)
    while left:
        for s in list(left):
            if s.p.poll() is not None:
                left.remove(s)
        if time.time() > deadline:
            for s in left:
                s.kill()
            return False
        time.sleep(0.05)
    return True


def replay_dir():
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    return d


def save_replay(prop, tier, seed, shard, rec):
    name = "%s-%s-%d-%s-%d" % (prop, tier, seed, shard.var["name"], shard.i)
    path = os.path.join(replay_dir(), name + ".json")
    rec["variant"] = shard.var["name"]
    rec["shard_seed"] = shard.seed
    rec["scale"] = shard.scale
    rec["tier"] = tier
    rec["replay_with"] = "python3 /verif/check.py --replay " + path
    # The shrunk bit stream of the random choices, for an exact replay.
    fd = os.path.join(shard.dir, "testdata", "rapid", rec.get("test", ""))
    if os.path.isdir(fd):
        for f in sorted(os.listdir(fd)):
            with open(os.path.join(fd, f)) as fh:
                rec["rapid_failfile"] = fh.read()
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def known_findings(prop):
    r = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "known":
                    r.append(k)
    return r


def main(argv):
    if argv[:1] == ["--setup"]:
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(tmp, cli=True)
            build(tmp, race=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("setup ok")
        return 0
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = CHECKS[prop]
    start = time.time()
    budget = 840 if tier == "quick" else spec.get("thorough_budget", 3300)
    deadline = start + budget
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check(prop, tier, seed, spec, start, deadline, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, spec, start, deadline, tmp):
    shards = []
    for var in spec["variants"]:
        binary = build(tmp, race=var.get("race", False), cli=spec.get("cli", False))
        scale = var.get("scale", 1.0) * (1.0 if tier == "quick" else var.get("thorough", 15.0))
        for i in range(var.get("shards", 6)):
            shards.append(Shard(prop, binary, var, i, seed, scale, tier, tmp))
    if not run_all(shards, deadline):
        die("%s: time budget used up; undecided" % prop)
    violation = None
    for s in shards:
        rc = s.p.returncode
        if rc == 0:
            continue
        fs = s.failures()
        if fs:
            with open(fs[0]) as f:
                rec = json.load(f)
            violation = save_replay(prop, tier, seed, s, rec)
            print("%s: %s" % (rec["test"], rec["message"][:3000]))
            print("steps:\n" + "\n".join(rec["steps"] or [])[-3000:])
            break
        text = s.text()
        if s.var.get("race") and rc == 66 or "WARNING: DATA RACE" in text:
            rec = journal(s)
            rec["message"] = "data race:\n" + text[text.find("WARNING: DATA RACE"):][:6000]
            violation = save_replay(prop, tier, seed, s, rec)
            print(rec["message"][:3000])
            break
        if rc == -signal.SIGKILL:
            die("%s: a shard was killed; undecided" % prop)
        # The process died, or a case ran away, without a failure of the property being recorded.
        # Run the same shard again: if it ends the same way, the code under test did it.
        again = Shard(prop, s.binary, s.var, s.i, seed, s.scale, tier, tmp, tag="-again")
        if not run_all([again], max(deadline, time.time() + 300)):
            die("%s: shard died (exit %s) and did not finish again; undecided\n%s" % (prop, rc, text[-2000:]))
        rc2 = again.p.returncode
        if rc2 == 0 or rc2 == -signal.SIGKILL:
            die("%s: a shard ended with %s once and %s again; undecided\n%s" % (prop, rc, rc2, text[-2000:]))
        rec = journal(again)
        if not rec.get("steps"):
            die("%s: a shard ended with %s before running a case\n%s" % (prop, rc, text[-3000:]))
        rec["message"] = "the process running the interpreter ended with status %s:\n%s" % (rc2, again.text()[-3000:])
        violation = save_replay(prop, tier, seed, s, rec)
        print(rec["message"])
        print("steps:\n" + "\n".join(rec["steps"])[-3000:])
        break
    # A test that reproduces a finding says so; only listed findings are excused.
    found = set()
    listed = {k["id"] for k in known_findings(prop)}
    for s in shards:
        for m in re.finditer(r"KNOWN-FINDING: property=(\S+) id=(\S+) .*", s.text()):
            if m.group(2) in listed:
                found.add(m.group(0))
            elif not violation:
                violation = save_replay(prop, tier, seed, s, {"property": prop, "test": "known finding " + m.group(2), "message": m.group(0), "steps": []})
    ev = evidence(prop, tier, seed, shards, start, violation)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for line in sorted(found):
        print(line)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    if ev["coverage"]["evaluations"] == 0:
        die("%s: no case was generated" % prop)
    print("%s %s: held on %d cases, %d distinct non-trivial (%.0f s)" % (
        prop, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def journal(s):
    p = os.path.join(s.dir, "journal.json")
    if os.path.exists(p):
        try:
            with open(p, "rb") as f:
                return json.loads(f.read().split(b"\0")[0])
        except ValueError:
            pass
    return {"property": s.prop, "test": "", "message": "", "steps": []}


def evidence(prop, tier, seed, shards, start, violation):
    tests = {}
    for s in shards:
        for st in s.stats():
            t = tests.setdefault(st["test"], {"evaluations": 0, "hashes": set(), "classes": {}, "rule": st["rule"], "samples": []})
            t["evaluations"] += st["evaluations"]
            t["hashes"].update(st["hashes"] or [])
            for k, v in (st["classes"] or {}).items():
                t["classes"][k] = t["classes"].get(k, 0) + v
            if s.i < 2:
                t["samples"] += (st["samples"] or [])[-2:]
    samples = []
    for name, t in sorted(tests.items()):
        for x in t["samples"][:4]:
            samples.append({"test": name, "case": x})
    return {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in tests.values()),
            "distinct_nontrivial": sum(len(t["hashes"]) for t in tests.values()),
            "rule": " || ".join("%s: %s" % (n, t["rule"]) for n, t in sorted(tests.items())),
            "samples": samples[:40],
            "per_test": {n: {"evaluations": t["evaluations"], "distinct_nontrivial": len(t["hashes"]), "classes": t["classes"]}
                         for n, t in sorted(tests.items())},
            "shards": len(shards),
        },
        "assumptions": ["the Go toolchain and math/big are correct", "absence of a counterexample is not a proof"],
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if violation else 0,
    }


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop = rec["property"]
    spec = CHECKS[prop]
    var = [v for v in spec["variants"] if v["name"] == rec["variant"]][0]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = build(tmp, race=var.get("race", False), cli=spec.get("cli", False))
        s = Shard(prop, binary, dict(var), 0, 1, rec["scale"], rec["tier"], tmp)
        s.seed = rec["shard_seed"]
        if rec.get("rapid_failfile"):
            ff = os.path.join(tmp, "case.fail")
            with open(ff, "w") as f:
                f.write(rec["rapid_failfile"])
            s.extra = ["-rapid.failfile", ff]
            s.var["run"] = "^%s$" % rec["test"]
            s.scale = 1e-9
        elif rec.get("test"):
            s.var["run"] = "^%s$" % rec["test"]
        run_all([s], time.time() + 3600)
        print(s.text()[-6000:])
        if s.p.returncode != 0:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("does not fail now")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
