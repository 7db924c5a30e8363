#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo's working tree, runs the generated-input
searches, writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.

  check.py C05 [quick|thorough]          run the check (tier and seed default to VERIF_TIER and VERIF_SEED)
  check.py C05 --replay FILE             replay one saved failure (exit 1 when it still fails)
  check.py --setup                       self-test of the reference model and of the build
Environment: REPO (default /repo) is the tree under test."""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.path.join(HERE, "evidence", "replays")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, FLAVOURS, GROUPS   # noqa: E402

NPROC = os.cpu_count() or 4


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def files_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def tree(root, exts):
    return [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if f.endswith(exts)]


class BuildError(Exception):
    pass


def run_cmd(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


# Replacements for the tall build of the crate: file, function, its stand-in.
TALL_RUST = [
    ("xmss_alt/fips202.rs", "shake128", "pub fn shake128(output: &mut [u8], outlen: usize, input: &[u8], inlen: u64) { tall_h(1, output, outlen, input, inlen as usize) }\n"
     "pub fn tall_h(d: i32, o: &mut [u8], n: usize, i: &[u8], k: usize) { extern \"C\" { fn tall_hash(d: i32, o: *mut u8, n: usize, i: *const u8, k: usize); } assert!(n <= o.len() && k <= i.len()); unsafe { tall_hash(d, o.as_mut_ptr(), n, i.as_ptr(), k) } }"),
    ("xmss_alt/fips202.rs", "shake256", "pub fn shake256(output: &mut [u8], outlen: usize, input: &[u8], inlen: u64) { tall_h(2, output, outlen, input, inlen as usize) }"),
    ("shasha/shasha.rs", "sha2_256", "pub fn sha2_256(input: &Vec<u8>) -> Vec<u8> { let mut o = vec![0u8; 32]; crate::rust_wrapper::xmss_alt::fips202::tall_h(0, &mut o, 32, input, input.len()); o }"),
    ("xmss_alt/wots.rs", "wots_pkgen", "pub fn wots_pkgen(f: &HashFunction, pk: &mut [u8], sk: &[u8], _p: &WOTSParams, pub_seed: &[u8], addr: &mut [u32; 8]) { tall_s(0, f, pk, sk, pub_seed, addr) }\n"
     "pub fn tall_s(which: i32, f: &HashFunction, o: &mut [u8], a: &[u8], b: &[u8], addr: &[u32; 8]) {\n"
     "    extern \"C\" { fn tall_stub(which: i32, hash: i32, o: *mut u8, a: *const u8, b: *const u8, addr: *const u32); }\n"
     "    assert!(o.len() >= 32 && a.len() >= 32 && b.len() >= 32);\n"
     "    let h = match f { HashFunction::SHA2_256 => 0, HashFunction::Shake128 => 1, HashFunction::Shake256 => 2 };\n"
     "    unsafe { tall_stub(which, h, o.as_mut_ptr(), a.as_ptr(), b.as_ptr(), addr.as_ptr()) }\n}"),
    ("xmss_alt/xmss_common.rs", "l_tree", "pub fn l_tree(f: &HashFunction, _p: &WOTSParams, leaf: &mut [u8], wots_pk: &mut [u8], pub_seed: &[u8], addr: &mut [u32; 8]) { super::wots::tall_s(1, f, leaf, wots_pk, pub_seed, addr) }"),
]


def build_rust(tall=False):
    """The Rust crate as a static library with a C interface."""
    out = os.path.join(BUILD, "rust-tall" if tall else "rust")
    os.makedirs(out, exist_ok=True)
    crate = os.path.join(out, "crate")
    shutil.rmtree(crate, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "rust"), crate)
    lib = os.path.join(crate, "src", "lib.rs")
    where = REPO
    if tall:
        where = os.path.join(out, "tree")
        shutil.rmtree(where, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "src", "rust_wrapper"), os.path.join(where, "src", "rust_wrapper"))
        for f, name, text in TALL_RUST:
            f = os.path.join(where, "src", "rust_wrapper", f)
            s = open(f).read() if os.path.exists(f) else ""
            if len(re.findall(r"pub fn %s\b" % name, s)) != 1:
                raise BuildError("tall Rust build: no single pub fn %s in %s" % (name, f))
            s = re.sub(r"pub fn %s\b" % name, "pub fn %s_replaced" % name, s)
            open(f, "w").write(s + "\n" + text + "\n")
    s = open(lib).read().replace("@REPO@", where)
    open(lib, "w").write(s)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(out, "target"))
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(crate, "Cargo.toml")]
    for features in ("base,giant" if tall else "base", "base"):   # internals are used by name only where they can be
        try:
            run_cmd(cmd + ["--features", features], env=env)
            break
        except BuildError:
            pass
    else:
        run_cmd(cmd, env=env)
    return os.path.join(out, "target", "release", "libqrlrs.a")


def build(flavour, group):
    """Builds build/<flavour>-<group>/run and returns its path. Searches that go through internal functions are left
    out when these have changed shape."""
    try:
        return build_with(flavour, group, [])
    except BuildError as e:
        try:
            exe = build_with(flavour, group, ["-DNO_INTERNALS"])
            log("  %s.%s: built without the searches that go through internal functions" % (flavour, group))
            return exe
        except BuildError:
            raise e


def build_with(flavour, group, defs):
    fl, gr = FLAVOURS[flavour], GROUPS[group]
    bdir = os.path.join(BUILD, flavour + "-" + group)
    odir = os.path.join(BUILD, "obj-" + flavour)
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(odir, exist_ok=True)
    inc = ["-I" + os.path.join(HERE, "stubs"), "-I" + os.path.join(HERE, "src")]
    dirs = [d for d, _, fs in os.walk(os.path.join(REPO, "src")) if any(f.endswith((".h", ".hpp")) for f in fs)]
    inc += ["-I" + d for d in sorted({os.path.join(REPO, "src")} | set(dirs))]
    base = [fl.get("cxx", "g++"), "-std=c++17", "-g1", "-w", "-pthread", "-DVERIF_DIR=\"%s\"" % HERE,
            "-DFLAVOUR_%s=1" % flavour.upper()] + inc
    src = []
    for d in sorted(os.listdir(os.path.join(REPO, "src"))):   # api holds the SWIG interface, rust_wrapper the crate
        if d not in ("api", "jswrapper", "rust_wrapper") and os.path.isdir(os.path.join(REPO, "src", d)):
            src += sorted(tree(os.path.join(REPO, "src", d), (".c", ".cc", ".cpp")))
    if gr.get("js"):
        src += sorted(glob.glob(os.path.join(REPO, "src", "jswrapper", "*.cpp")))
    own = ["pbt.cpp", "ref.cpp", "mock_pq.cpp", "flavour.cpp"] + gr["src"]
    heads = tree(os.path.join(REPO, "src"), (".h", ".hpp", ".inc", ".i")) + tree(os.path.join(HERE, "stubs"), (".h",)) + tree(os.path.join(HERE, "src"), (".h",))
    hkey = files_hash(heads)
    jobs, objs = [], []
    for s in src + [os.path.join(HERE, "src", f) for f in own]:
        mine = s.startswith(HERE + os.sep)
        flags = (fl.get("own_flags", fl["flags"]) if mine else fl["flags"])
        if mine:
            flags = flags + defs
        cmd = base + flags
        key = hashlib.sha256((" ".join(cmd) + hkey + files_hash([s])).encode()).hexdigest()[:24]
        o = os.path.join(odir, os.path.basename(s) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            t = o + ".tmp%d" % os.getpid()
            jobs.append((cmd + ["-x", "c++", "-c", s, "-o", t], t, o))
    extra = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        rust = ex.submit(build_rust, gr["rust"] == "tall") if gr.get("rust") else None
        def one(j):
            run_cmd(j[0])
            os.replace(j[1], j[2])
        list(ex.map(one, sorted(jobs, key=lambda j: -os.path.getsize(j[0][-3]))))
        if rust:
            extra = [rust.result(), "-ldl", "-lm"]
    exe = os.path.join(bdir, "run")
    run_cmd([fl.get("cxx", "g++"), "-pthread"] + fl["flags"] + fl.get("link", []) + objs + extra + gr.get("libs", []) + ["-o", exe])
    return exe


def env_for(flavour):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:history_size=7:second_deadlock_stack=1:report_signal_unsafe=0"
    e["PBT_TIME_SCALE"] = str(FLAVOURS[flavour].get("time_scale", 1))
    return e


def known_findings(cid):
    """Lines 'KNOWN-FINDING: property=<id> ...' of KNOWN_FINDINGS.txt."""
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if not os.path.exists(p):
        return []
    return [l.strip() for l in open(p) if l.startswith("KNOWN-FINDING: property=%s " % cid)]


def run_native(cid, spec, tier, seed):
    parts, viols = [], []
    runs = spec["runs"]
    for r in runs:
        flavour, group = r["flavour"], r["group"]
        try:
            exe = build(flavour, group)
        except BuildError as e:
            if not FLAVOURS[flavour].get("optional"):
                raise
            log("  %s.%s: not built, left out\n%s" % (flavour, group, str(e)[-500:]))
            continue
        out = os.path.join(BUILD, "%s-%s-%s.json" % (cid, flavour, group))
        cmd = [exe, "--check", cid, "--seed", str(seed), "--tier", tier, "--flavour", flavour + "." + group,
               "--out", out, "--replay-dir", REPLAYS, "--scale", str(r.get("scale", 1)),
               "--cap", str(r.get("cap", 60) if tier == "quick" else r.get("cap_thorough", 1500))]
        if r.get("only"):
            cmd += ["--only", r["only"]]
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.run(cmd, env=env_for(flavour))
        if not os.path.exists(out):
            raise BuildError("the %s runner gave no result (status %s)" % (flavour, p.returncode))
        res = json.load(open(out))
        parts += res
        for x in res:
            if x["violation"]:
                viols.append((x["violation"], "%s/%s" % (x["flavour"], x["prop"])))
        if p.returncode not in (0, 1) or (p.returncode == 1 and not viols):
            raise BuildError("the %s runner failed with status %s" % (flavour, p.returncode))
        if viols:
            break
    return parts, viols


def run_fuzz(cid, spec, tier, seed):
    """libFuzzer drives the choices of the check's properties; what it finds counts once the AddressSanitizer or the
    plain build fails on the same choices too."""
    group, props, *rest = spec["fuzz"]
    flavour, group = group.split(".") if "." in group else ("fuzz", group)
    maxlen = rest[1] if len(rest) > 1 else 6000
    secs = (rest[0] if rest else 10) if tier == "quick" else 300
    if not secs:
        return [], []
    try:
        exe = build(flavour, group)
    except BuildError as e:   # clang and gcc differ in what they accept
        log("  fuzz %s: not built, left out\n%s" % (group, str(e)[-500:]))
        return [], []
    work = os.path.join(BUILD, "fuzz-" + cid)
    shutil.rmtree(work, ignore_errors=True)
    procs = []
    rng = random.Random(seed)
    for i in range(max(NPROC, len(props))):
        prop = props[i % len(props)]
        d = os.path.join(work, "%d" % i)
        corpus = os.path.join(work, "corpus-" + prop)   # shared by the processes of one property
        os.makedirs(d)
        os.makedirs(corpus, exist_ok=True)
        for k in range(24):
            open(os.path.join(corpus, "seed%d-%d" % (i, k)), "wb").write(rng.randbytes(min(maxlen, rng.choice([8, 40, 200, 800, 3000]))))
        env = dict(env_for(flavour), PBT_CHECK=cid, PBT_PROP=prop, PBT_STATS=os.path.join(d, "stats.json"))
        env["ASAN_OPTIONS"] += ":handle_abort=0"
        cmd = [exe, "-seed=%d" % (seed * 100 + i + 1), "-max_total_time=%d" % secs, "-timeout=60", "-rss_limit_mb=3000", "-max_len=%d" % maxlen,
               "-use_value_profile=%d" % (i // len(props) % 2), "-artifact_prefix=" + d + "/", corpus]
        procs.append((prop, d, env, subprocess.Popen(cmd, env=env, cwd=d, stdout=open(os.path.join(d, "log"), "w"), stderr=subprocess.STDOUT)))
    parts, viols = {}, []
    for prop, d, env, p in procs:
        try:
            p.wait(secs + 200)
        except subprocess.TimeoutExpired:
            p.kill()
        st = os.path.join(d, "stats.json")
        if os.path.exists(st):
            x = json.load(open(st))
            x.update(violation=None, wall_s=secs, labels={"coverage-guided": x["evaluations"]})
            if prop in parts:
                for k in ("evaluations", "distinct_nontrivial"):
                    parts[prop][k] += x[k]
            else:
                parts[prop] = x
        for a in sorted(glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*") + glob.glob(d + "/oom-*")):
            if viols:
                break
            path = os.path.join(REPLAYS, "%s-fuzz-%s.replay" % (cid, prop))
            for fl in FLAVOURS[flavour].get("confirm", ["opt", "asan"]):
                subprocess.run([exe, a], env=dict(env, PBT_DUMP=path, PBT_FLAVOUR=fl + "." + group), cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(path) and subprocess.run([build(fl, group), "--confirm", path, "--flavour", fl + "." + group], env=env_for(fl)).returncode == 1:
                    viols.append((path, "fuzz/" + prop))
                    break
            else:
                log("an input of the fuzzer did not fail again: not reported (%s)" % prop)
    log("  fuzz %s: %s" % (group, ", ".join("%s %d cases" % (k, v["evaluations"]) for k, v in parts.items())))
    shutil.rmtree(work, ignore_errors=True)
    return list(parts.values()), viols


def main():
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    if sys.argv[1] == "--setup":
        exe = build("opt", "codec")
        subprocess.run([exe, "--list"], check=True, stdout=subprocess.DEVNULL)
        print("setup ok")
        return 0
    cid = sys.argv[1]
    spec = CHECKS[cid]
    if "--replay" in sys.argv:
        path = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        if spec.get("node"):
            import jsseed
            return jsseed.replay(REPO, path)
        fl = next(l.split()[1] for l in open(path) if l.startswith("flavour "))
        flavour, group = fl.split(".")
        exe = build(flavour, group)
        return subprocess.run([exe, "--replay", path, "--flavour", fl], env=env_for(flavour)).returncode
    tier = next((a for a in sys.argv[2:] if a in ("quick", "thorough")), os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        if spec.get("node"):
            import jsseed
            parts, viols = jsseed.run(REPO, tier, seed, REPLAYS, BUILD)
        else:
            parts, viols = run_native(cid, spec, tier, seed)
            if spec.get("fuzz") and not viols:
                p2, viols = run_fuzz(cid, spec, tier, seed)
                parts += p2
    except (BuildError, RuntimeError, subprocess.TimeoutExpired) as e:
        log("ERROR: the check could not run:\n%s" % e)
        return 2
    known = known_findings(cid)
    cov = dict(
        evaluations=sum(p["evaluations"] for p in parts),
        distinct_nontrivial=sum(p["distinct_nontrivial"] for p in parts),
        rule=spec["rule"],
        samples=[dict(generator=p["prop"], build=p["flavour"], case=s) for p in parts for s in p["samples"][:2]][:16],
        parts=[{k: v for k, v in p.items() if k != "samples"} for p in parts],
        exhaustive=False)
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=spec["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (cid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    for k in known:
        print(k)
    for path, what in viols:
        print("VIOLATION property=%s replay=%s" % (cid, path))
    if not viols and cov["evaluations"] == 0:
        log("ERROR: nothing was explored")
        return 2
    return 1 if viols else 0


if __name__ == "__main__":
    sys.exit(main())
