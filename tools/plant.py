#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a change and a demo, and confirms it.
usage: plant.py FILE.py...   (each defines ID, PROP, EDITS=[(file,a,b)], NEEDS, BREAKS, MAIN, RUN or RUN2, FEATURES)"""
import sys, os, subprocess, json, runpy, shutil
REPO = "/repo"; OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = r'''#!/bin/bash
# Runs a small program against the crates in the current directory (/repo).
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
swig-state = { path = "$repo/state" }
swig-compact-instructions = { path = "$repo/instructions"@FEAT@ }
swig-assertions = { path = "$repo/assertions" }
pinocchio = { version = "0.9", features = ["std"] }
@DEPS@
[workspace]
T
export RUSTUP_TOOLCHAIN=1.91.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
unset RUSTFLAGS RUSTC_WRAPPER
cd "$t" && timeout 280 cargo run --quiet --offline
'''
PROG = r'''#!/bin/bash
# Compiles the program in the current directory (/repo) for the host, with a
# small stand-in for the runtime, and runs demo.rs against it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf -- "$t"' EXIT
tar xzf "$here/kit.tgz" -C "$t"
cp "$here/demo.rs" "$t/demo/src/demo.rs"
sed -i "s#\"/repo/#\"$repo/#" "$t/program/Cargo.toml" "$t/demo/Cargo.toml"
export RUSTUP_TOOLCHAIN=1.91.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTC_WRAPPER="$t/rustc-wrap.sh"
unset RUSTFLAGS
cd "$t" && timeout 280 cargo run --release --quiet --offline
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    bad = 0
    for f in sys.argv[1:]:
        m = runpy.run_path(f)
        d = os.path.join(OUT, m["ID"]); os.makedirs(d, exist_ok=True)
        assert sh("git status --porcelain", cwd=REPO).stdout == "", "repo dirty"
        try:
            for (p, a, b) in m["EDITS"]:
                s = open(f"{REPO}/{p}").read()
                n = m.get("NTH", {}).get(p)
                if n is None: assert s.count(a) == 1, (p, s.count(a), a); s = s.replace(a, b)
                else:
                    i = -1
                    for _ in range(n + 1): i = s.index(a, i + 1)
                    s = s[:i] + b + s[i + len(a):]
                open(f"{REPO}/{p}", "w").write(s)
            open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=REPO).stdout)
            if "DEMO" in m: open(f"{d}/demo.sh", "w").write(m["DEMO"])
            elif "RUN" in m or "RUN2" in m:
                files = '"$t/program/Cargo.toml" "$t/demo/Cargo.toml"'
                prog = PROG
                if "RUN2" in m:
                    prog = prog.replace("# Compiles the program in", "# Compiles the program and its clients in")
                    prog = prog.replace(files, files + ' "$t/interface/Cargo.toml" "$t/sdk/Cargo.toml" "$t/sdk/src/lib.rs" "$t/cli/src/lib.rs"')
                open(f"{d}/demo.sh", "w").write(prog)
                open(f"{d}/demo.rs", "w").write(m.get("RUN") or m["RUN2"])
                kit = "demo-kit.tgz" if "RUN" in m else "client-kit.tgz"
                shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), kit), f"{d}/kit.tgz")
            else:
                feat = ', features = ["client"]' if m.get("FEATURES") else ""
                deps = m.get("DEPS", "") + ('\nsolana-program = "3.0.0"' if m.get("FEATURES") else "")
                open(f"{d}/demo.sh", "w").write(DEMO.replace("@FEAT@", feat).replace("@DEPS@", deps))
                open(f"{d}/main.rs", "w").write(m["MAIN"])
            os.chmod(f"{d}/demo.sh", 0o755)
            json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
            if "--notest" not in os.environ.get("PLANT", ""):
                b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stderr[-2000:]
                t = sh("bash /opt/vp/test.sh /tmp/plant-o.json")
                want = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/plant-o.json"))
                print(m["ID"], "tests:", str(got)[:0], t.stdout.strip().splitlines()[-1:] , end=" ")
            r = sh(d + "/demo.sh", cwd=REPO)
            print("demo with patch:", r.returncode, (r.stderr or r.stdout).strip().splitlines()[-3:], end=" ")
            if r.returncode == 0: bad += 1
            c = sh(f"/verif/check.sh {m['PROP']} quick", env={**os.environ, "VERIF_SEED": "1", "VERIF_ROOT": "/tmp/vr"})
            print("check:", c.returncode, [l for l in c.stdout.splitlines() if "VIOL" in l or l.startswith("[")][:2], flush=True)
        finally:
            sh("git checkout -- .", cwd=REPO)
        r = sh(d + "/demo.sh", cwd=REPO)
        print(m["ID"], "demo without patch:", r.returncode, r.stderr.strip()[-300:] if r.returncode else "", flush=True)
    sh("bash /opt/vp/build.sh")
    sys.exit(bad)
main()
