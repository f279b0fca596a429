#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   |   run.py --replay FILE

Builds buganini/bsdconv from /repo's working tree, runs the explorers registered for the
property, filters listed findings, writes evidence/<id>.json.
exit 0: held on everything explored; exit 1: VIOLATION (or the tree cannot be explored)."""
import importlib, json, os, shutil, subprocess, sys, tempfile, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
import props


def known_findings():
    """{property: {desc: text}} of known_findings.txt ('finding: property=ID case=<descriptor> :: text')"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("finding: property="):
                head, _, text = line[len("finding: property="):].rstrip("\n").partition(" :: ")
                pid, _, case = head.partition(" case=")
                out.setdefault(pid.strip(), {})[case.strip()] = text
    return out


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.tmp = tempfile.mkdtemp(prefix="bsdconv-mc-", dir=os.environ.get("TMPDIR", "/tmp"))
        self.viol, self.stats, self.samples, self.parts = [], {}, [], []
        self.assumptions = []

    def add(self, part, r, exe_args=None, flavour="plain"):
        for k, v in r.items():
            if isinstance(v, int):
                self.stats[k] = self.stats.get(k, 0) + v
        self.samples += r.get("samples", [])
        for v in r.get("violations", []):
            v = dict(v, part=part, args=exe_args or [], flavour=flavour)
            self.viol.append(v)

    def cpp(self, name, flavour="plain", args=(), data=None, extra="", opt="-O2", timeout=None, env=None):
        """one C++ explorer"""
        prefix = B.build(flavour)
        exe = B.harness(name, flavour, prefix, extra=extra, opt=opt)
        out = os.path.join(self.tmp, name + "-" + flavour + ".json")
        cmd = [exe, out, self.tier, "--tmp", self.tmp] + (["--data", data] if data else []) + list(args)
        t0 = time.time()
        e = B.env_for(prefix)
        e.update(env or {})
        r = subprocess.run(cmd, env=e, cwd=self.tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        err = r.stderr.decode("utf-8", "replace")
        if r.returncode or not os.path.exists(out):
            raise RuntimeError("explorer %s failed (%s)\n%s" % (name, r.returncode, err[-3000:]))
        sys.stderr.write("\n".join(l for l in err.splitlines() if l.startswith("  [")) + "\n")
        with open(out) as f:
            j = json.load(f)
        self.add(name, j, list(args), flavour)
        print("%s: %s/%s %d executions, %d distinct outcomes, %d violation(s), %.1fs" %
              (self.pid, name, flavour, j["evals"], j["distinct"], len(j["violations"]), time.time() - t0))
        return j

    def finish(self, wall):
        spec = props.PROPS[self.pid]
        known = known_findings().get(self.pid, {})
        new = []
        for v in self.viol:
            if v["desc"] in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[v["desc"]]))
            else:
                new.append(v)
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        for i, v in enumerate(new):
            path = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(path, "w") as f:
                json.dump(dict(v, property=self.pid, tier=self.tier), f, indent=1)
            if i < 10:
                print("  case: %s\n  %s" % (v["desc"][:600], v["detail"][:600]))
            if i < 10:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
        s = self.stats
        cov = {"evaluations": s.get("evals", 0), "distinct_outcomes": s.get("distinct", 0)}
        lvl = spec["level"]
        if lvl == "model_checking":
            cov["states"] = s.get("states", 0)
            cov["transitions"] = s.get("trans", 0)
            cov["traces_validated_against_impl"] = s.get("evals", 0)
            cov.pop("evaluations")
        else:
            cov["distinct_nontrivial"] = s.get("nontrivial", 0) or s.get("distinct", 0)
        cov["rule"] = spec["rule"]
        cov["samples"] = self.samples[:12]
        cov["exhaustive"] = not s.get("stopped", 0)
        for k, v in s.items():
            if k not in ("evals", "distinct", "states", "trans", "nontrivial", "stopped"):
                cov[k] = v
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": lvl,
              "coverage": cov, "wall_s": round(wall, 2), "violations": len(new),
              "assumptions": spec.get("assumptions", [])}
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.pid + ".json.tmp"), "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(os.path.join(edir, self.pid + ".json.tmp"), os.path.join(edir, self.pid + ".json"))
        print("%s %s: %s in %.1fs" % (self.pid, self.tier, "VIOLATED (%d)" % len(new) if new else "held", wall))
        return 1 if new else 0


def replay(path):
    v = json.load(open(path))
    if v.get("part", "").endswith(".py"):
        m = importlib.import_module(v["part"][:-3])
        r = m.replay(v)
        print("FAILS: " + r if r else "holds")
        return 1 if r else 0
    run = Run(v["property"], v.get("tier", "quick"))
    try:
        prefix = B.build(v["flavour"])
        spec = props.PROPS[v["property"]]
        exe = B.harness(v["part"], v["flavour"], prefix, **props.HARNESS.get(v["part"], {}))
        data = spec.get("data")
        d = data(run) if data else None
        cmd = [exe, os.path.join(run.tmp, "o.json"), "quick", "--tmp", run.tmp] + (["--data", d] if d else []) + v["args"] + ["--replay", v["desc"]]
        return subprocess.run(cmd, env=B.env_for(prefix), cwd=run.tmp).returncode
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run = Run(pid, tier)
    t0 = time.time()
    try:
        try:
            props.PROPS[pid]["run"](run)
        except Exception as ex:
            traceback.print_exc()
            # a tree that cannot be built or explored has not been shown to hold
            run.viol.append({"desc": "the check could not be carried out", "detail": str(ex)[-1500:], "part": "run", "args": [], "flavour": ""})
        return run.finish(time.time() - t0)
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
