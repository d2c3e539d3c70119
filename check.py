#!/usr/bin/env python3
"""Driver of one property check.

  check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--build-only]

Builds the property's harness crate against /repo's current working tree and runs it.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: error of the check.
"""
import json, os, resource, signal, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, "target")
sys.path.insert(0, ROOT)


def registry():
    with open(os.path.join(ROOT, "harness", "registry.json")) as f:
        return json.load(f)


def cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def base_env(config="v3"):
    env = dict(os.environ)
    home = "/root"
    env["HOME"] = home
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["RUSTUP_TOOLCHAIN"] = "nightly-2025-04-24"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTC_WRAPPER"] = ""
    env["VERIF_ROOT"] = ROOT
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "BINIUS_DUMP_PROOF", "RUST_LOG",
              "BINIUS_M3_TEST_PROVE_VERIFY", "RAYON_NUM_THREADS", "RUST_BACKTRACE"):
        env.pop(k, None)
    fl = cpu_flags()
    env.pop("RUSTFLAGS", None)
    if config == "v3" and {"avx2", "bmi2", "aes", "pclmulqdq"} <= fl:
        env["RUSTFLAGS"] = "-C target-cpu=x86-64-v3 -C target-feature=+aes,+pclmulqdq"
    elif config == "native":
        env["RUSTFLAGS"] = "-C target-cpu=native"
    # the hook in /repo: lets C02 prove witnesses that the prover itself would refuse
    env["RUSTFLAGS"] = (env.get("RUSTFLAGS", "") + " --cfg binius_cheating_prover").strip()
    env["CARGO_TARGET_DIR"] = TARGET if config == "v3" else TARGET + "-" + config
    return env


def build(crate, binary, config="v3", features=None):
    d = os.path.join(ROOT, "harness", crate)
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--bin", binary]
    if features:
        cmd += ["--features", features]
    env = base_env(config)
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        errs = p.stdout
        sys.stderr.write(errs[-6000:])
        sys.stderr.write("\nERROR: build of %s/%s failed\n" % (crate, binary))
        sys.exit(2)
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", binary), env


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (28 << 30, 28 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE}


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    build_only = False
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = os.path.abspath(args.pop(0))
        elif a == "--build-only":
            build_only = True
        else:
            sys.exit("unknown argument " + a)
    spec = registry()[pid]
    if "driver" in spec:
        # a property with a driver of its own (several builds compared with each other)
        mod = __import__("drivers." + spec["driver"], fromlist=["main"])
        sys.exit(mod.main(sys.modules[__name__], pid, spec, tier, replay, build_only))
    exe, env = build(spec["crate"], spec["bin"], spec.get("config", "v3"), spec.get("features"))
    if build_only:
        return 0
    env["VERIF_TIER"] = tier
    env.setdefault("VERIF_SEED", "1")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if replay:
        with open(replay) as f:
            r = json.load(f)
        if "case_number" in r:
            env.update(VERIF_SEED=r.get("seed", env["VERIF_SEED"]), VERIF_TIER=r.get("tier", tier))
            try:
                rc = subprocess.run([exe, "--case", r["sub"], str(r["case_number"])], env=env,
                                    timeout=300 if r.get("hang") else None).returncode
            except subprocess.TimeoutExpired:
                rc = 1
            if rc:
                print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1 if rc else 0
        return subprocess.run([exe, "--replay", replay], env=env).returncode
    sys.stdout.flush()
    subfile = os.path.join(ROOT, "evidence", pid + ".sub")
    env["VP_SUBFILE"] = subfile
    rc = subprocess.run([exe], env=env, preexec_fn=limits).returncode
    sub = open(subfile).read() if os.path.exists(subfile) else ""
    if sub:
        os.unlink(subfile)
    if rc < 0 and -rc in CRASH:
        # A fatal signal inside the code under test. Re-run that sub-check with the case numbers on
        # record, then the recorded cases one at a time, to name the case.
        with tempfile.TemporaryDirectory() as td:
            e2 = dict(env, VP_ONLY=sub, VP_TRACE=os.path.join(td, "t"))
            subprocess.run([exe], env=e2, preexec_fn=limits, stdout=subprocess.DEVNULL)
            cases = sorted({int(open(os.path.join(td, f)).read() or 0) for f in os.listdir(td)})
        for c in cases:
            r = subprocess.run([exe, "--case", sub, str(c)], env=env, preexec_fn=limits)
            if r.returncode == 0:
                continue
            rd = os.path.join(ROOT, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-crash-%d.json" % (pid, sub, c))
            with open(path, "w") as f:
                json.dump({"property": pid, "sub": sub, "case_number": c, "exit": r.returncode,
                           "seed": env["VERIF_SEED"], "tier": tier}, f)
            print("%s::%s: process died (%d) in case %d" % (pid, sub, r.returncode, c))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 2
    if rc not in (0, 1):
        sys.stderr.write("ERROR: harness ended with %d\n" % rc)
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
