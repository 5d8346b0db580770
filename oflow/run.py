"""Extract the MIR of /repo's current working tree with the driver in /verif/driver."""
import os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ORCHARD_REPO", "/repo")


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=700):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def extract(features=("default",), repo=REPO):
    """Yields (feature set, path of the JSON-lines dump); everything lives in a directory removed at the end.

    Debug assertions are compiled out, as they are where the library is used, except in the set "asserting"."""
    tmp = tempfile.mkdtemp(prefix="oflow-")
    try:
        env = dict(os.environ)
        env["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", "")
        env.setdefault("HOME", "/root")
        for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        rc, out = sh(["rustc", "+nightly", "--print", "sysroot"], env)
        if rc:
            raise BuildError(out)
        root = out.strip().split("\n")[-1]
        drv = os.path.join(tmp, "mirdump")
        rc, out = sh(["rustc", "+nightly", "-O", "--edition", "2021", os.path.join(HERE, "..", "driver", "main.rs"), "-o", drv], env)
        if rc:
            raise BuildError("driver: " + out[-3000:])
        for feat in features:
            dump = os.path.join(tmp, "mir-%s.jsonl" % feat)
            tgt = os.path.join(tmp, "target")
            e = dict(env)
            fp = os.path.join(tgt, "debug", ".fingerprint")
            for x in os.listdir(fp) if os.path.isdir(fp) else ():
                if x.startswith("orchard-"):
                    shutil.rmtree(os.path.join(fp, x))
            e.update({
                "ORCHARD_ASSERTIONS": "on" if feat == "asserting" else "off",
                "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0",
                "RUSTUP_TOOLCHAIN": "1.70.0",
                "RUSTC": os.path.join(root, "bin", "rustc"),
                "LD_LIBRARY_PATH": os.path.join(root, "lib"),
                "RUSTC_WORKSPACE_WRAPPER": drv,
                "ORCHARD_MIR_OUT": dump,
                "CARGO_NET_OFFLINE": "true",
                "CARGO_TARGET_DIR": tgt,
                "CARGO_INCREMENTAL": "0",
            })
            args = ["cargo", "check", "--lib", "--offline"]
            if feat == "all":
                # dev-graph, which only adds the drawing of the layout, depends on a crate the compiler that dumps does not build
                args += ["--features", "unstable-frost,test-dependencies"]
            elif feat == "none":
                args.append("--no-default-features")
            rc, out = sh(args, e, cwd=repo)
            if rc or not os.path.exists(dump):
                raise BuildError("cargo check (%s): %s" % (feat, out[-3000:]))
            yield feat, dump
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
