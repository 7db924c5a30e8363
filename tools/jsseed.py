"""C27: drives jsseed.js."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
JS = os.path.join(HERE, "jsseed.js")


def run(repo, tier, seed, replays, build):
    jobs = os.cpu_count() or 4
    n = (24000 if tier == "quick" else 600000) // jobs
    ps = [subprocess.Popen(["node", JS, repo, "run", str(seed * 1000 + k), str(n)], stdout=subprocess.PIPE, text=True) for k in range(jobs)]
    ds = []
    for p in ps:
        out = p.communicate(timeout=1500 if tier == "thorough" else 600)[0]
        lines = [l for l in out.splitlines() if l.startswith("{")]
        if p.returncode or not lines:
            raise RuntimeError("jsseed.js ended with status %s" % p.returncode)
        ds.append(json.loads(lines[-1]))
    path = None
    viols = []
    v = next((d["violation"] for d in ds if d["violation"]), None)
    if v:
        path = os.path.join(replays, "C27-getRandomSeed.replay")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("[C27] %s\n  case: %s" % (v["why"], json.dumps(v["case"])), file=sys.stderr)
        viols.append((path, "getRandomSeed"))
    labels = {}
    for d in ds:
        for k, x in d["labels"].items():
            labels[k] = labels.get(k, 0) + x
    return [dict(prop="get_random_seed", flavour="node", evaluations=sum(d["evaluations"] for d in ds),
                 distinct_nontrivial=sum(d["distinct_nontrivial"] for d in ds),
                 samples=[x for d in ds for x in d["samples"][:1]], labels=labels, violation=path)], viols


def replay(repo, path):
    return subprocess.run(["node", JS, repo, "replay", path]).returncode
