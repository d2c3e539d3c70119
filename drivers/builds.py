"""C28: the checks of another build of the library, and its proofs against those of the default build.

The default build has rayon and the instruction sets of /opt/vp/build.sh; the other one has no rayon
and every instruction set of this machine (GFNI, AVX-512, VPCLMULQDQ where there are any).
"""
import json, os, shutil, subprocess, sys, time

INNER = [("c_field", ["c06", "c07"]), ("c_math", ["c09", "c11", "c14"]), ("c_sys", ["c15", "c22", "c28"])]
SCALE = {"c06": 0.25, "c07": 0.3, "c09": 0.3, "c11": 0.2, "c14": 0.3, "c15": 0.3, "c22": 0.2, "c28": 1.0}


def build_other(chk):
    """Builds the inner checks without rayon; if the code does not build so, with it."""
    env = chk.base_env("native")
    env["CARGO_TARGET_DIR"] = chk.TARGET + "-other"
    for feats in (["--no-default-features", "--features", "nightly"], []):
        ok = True
        for crate, bins in INNER:
            cmd = ["cargo", "build", "--offline", "--locked", "--quiet"] + feats
            for b in bins:
                cmd += ["--bin", b]
            p = subprocess.run(cmd, cwd=os.path.join(chk.ROOT, "harness", crate), env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                sys.stderr.write(p.stdout[-3000:] + "\nNOTE: %s does not build with %s\n" % (crate, feats))
                ok = False
                break
        if ok:
            return env, ("native instruction set, no rayon" if feats else "native instruction set, rayon")
    return None, None


def main(chk, pid, spec, tier, replay, build_only):
    exe, env0 = chk.build("c_sys", "c28")
    env, what = build_other(chk)
    if env is None:
        sys.stderr.write("ERROR: the other build failed\n")
        return 2
    if build_only:
        return 0
    t0 = time.time()
    seed = os.environ.get("VERIF_SEED", "1")
    root = os.path.join(env["CARGO_TARGET_DIR"], "root")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    kf = os.path.join(chk.ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(kf):
        shutil.copy(kf, root)
    env.update(VERIF_ROOT=root, VERIF_SEED=seed, VERIF_TIER=tier)
    env0.update(VERIF_ROOT=root, VERIF_SEED=seed, VERIF_TIER=tier)
    dump = os.path.join(root, "proofs")

    def other(b):
        return os.path.join(env["CARGO_TARGET_DIR"], "debug", b)

    if replay:
        r = json.load(open(replay))
        b = r["inner_bin"]
        inner = os.path.join(root, "replay.json")
        json.dump(r["inner"], open(inner, "w"))
        if b == "c28":
            subprocess.run([exe, "--replay", inner], env=dict(env0, VP_DUMP=dump), stdout=subprocess.DEVNULL)
            env["VP_COMPARE"] = dump
        args = ["--case", r["inner"]["sub"], str(r["inner"]["case_number"])] if "case_number" in r["inner"] else ["--replay", inner]
        rc = subprocess.run([other(b)] + args, env=env).returncode
        if rc:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1 if rc else 0

    # a factor for the thorough tier: those inner tiers are made for one property each
    factor = 0.2 if tier == "thorough" else 1.0
    p = subprocess.run([exe], env=dict(env0, VP_DUMP=dump, VP_SCALE=str(factor)), preexec_fn=chk.limits,
                       stdout=subprocess.PIPE, text=True)
    runs = {}
    bad = report(chk, pid, p, exe, "c28", root, "default build")
    if bad:
        return bad
    env["VP_COMPARE"] = dump
    for crate, bins in INNER:
        for b in bins:
            e = dict(env, VP_SCALE=str(SCALE[b] * factor))
            p = subprocess.run([other(b)], env=e, preexec_fn=chk.limits, stdout=subprocess.PIPE, text=True)
            bad = report(chk, pid, p, other(b), b, root, what)
            if bad:
                return bad
            runs[b] = json.load(open(os.path.join(root, "evidence", b.upper() + ".json")))
    ev = {"property": pid, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": {
        "evaluations": sum(r["coverage"]["evaluations"] for r in runs.values()),
        "distinct_nontrivial": sum(r["coverage"]["distinct_nontrivial"] for r in runs.values()),
        "rule": "; ".join("%s: %s" % (b, r["coverage"]["rule"]) for b, r in runs.items()),
        "samples": [dict(x, check=b) for b, r in runs.items() for x in r["coverage"]["samples"][:2]],
        "sub_checks": {b: r["coverage"]["sub_checks"] for b, r in runs.items()},
        "proofs_compared": sum(1 for _ in open(dump)), "other_build": what},
        "assumptions": ["the builds compared are those this machine can run: " + what],
        "wall_s": round(time.time() - t0, 2), "violations": 0}
    os.makedirs(os.path.join(chk.ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(chk.ROOT, "evidence", pid + ".json"), "w"))
    shutil.rmtree(root, ignore_errors=True)
    return 0


def report(chk, pid, p, exe, b, root, what):
    """0 if the inner run was quiet; otherwise passes its verdict on."""
    inner = None
    for line in p.stdout.splitlines():
        if line.startswith("VIOLATION"):
            inner = line.split("replay=")[1].strip()
        elif not line.startswith("KNOWN-FINDING"):
            print("%s (%s): %s" % (b, what, line))
    sys.stdout.flush()
    if p.returncode == 0:
        return 0
    rd = os.path.join(chk.ROOT, "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.json" % (pid, b))
    if p.returncode == 1 and inner:
        r = json.load(open(inner))
    elif p.returncode < 0 and -p.returncode in chk.CRASH:
        r = {"crash": p.returncode, "sub": "", "case_number": 0}
        print("%s (%s): process died (%d)" % (b, what, p.returncode))
    else:
        sys.stderr.write("ERROR: %s ended with %d\n" % (b, p.returncode))
        return 2
    json.dump({"property": pid, "inner_bin": b, "build": what, "inner": r}, open(path, "w"))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
