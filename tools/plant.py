#!/usr/bin/env python3
"""plant.py <id> : reads /verif/seeded/src/<id>.py? -- no: plant(id, prop, needs, breaks, edits, demo) helper.

Makes /verif/seeded/<id>/ from edits against /repo's HEAD in a scratch worktree, confirms that it builds, passes the stable
tests, and that the demo passes without and fails with the change; then runs the property's check against it.
"""
import json, os, subprocess, sys, shutil, tempfile
V = "/verif"
DEMO = '''#!/bin/bash
# Builds main.rs against the crates in the current directory and runs it.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
D=$(mktemp -d)
trap 'find "$D" -delete' EXIT
mkdir "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
cp "$REPO/Cargo.lock" "$D/" 2>/dev/null || true
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
%s
EOF
cd "$D"
CARGO_TARGET_DIR="$D/target" cargo build --offline --quiet
timeout 120 "$D/target/debug/demo"
'''
CR = {"fenris": ".", "fenris-geometry": "fenris-geometry", "fenris-quadrature": "fenris-quadrature", "fenris-sparse": "fenris-sparse",
      "fenris-solid": "fenris-solid", "fenris-optimize": "fenris-optimize", "fenris-paradis": "fenris-paradis",
      "fenris-nested-vec": "fenris-nested-vec", "fenris-traits": "fenris-traits"}
EXT = {"nalgebra": "0.32", "nalgebra-sparse": "0.9", "rayon": "1.3", "eyre": "0.6"}


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def write(id, prop, needs, breaks, edits, demo, deps):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/plant_w"
    if not os.path.exists(w):
        sh(f"mkdir -p {w} && cp -a /repo/. {w}/")
    sh(f"git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", cwd=w)
    for f, old, new in edits:
        p = f"{w}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=w).stdout)
    lines = []
    for x in deps:
        if x in CR:
            lines.append(f'{x} = {{ path = "$REPO/{CR[x]}" }}' if CR[x] != "." else f'{x} = {{ path = "$REPO" }}')
        else:
            lines.append(f'{x} = "{EXT[x]}"')
    open(f"{d}/demo.sh", "w").write(DEMO % "\n".join(lines))
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    return d, w


LAB = "2"


def lab(cmd, limit=900):
    """runs a command with the lab's copies mounted over /repo and /verif"""
    return sh(f"timeout {limit} bash {V}/tools/inlab.sh {LAB} bash -c '{cmd}'")


def confirm(id, w, d):
    """tests + demo on both trees"""
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r.returncode != 0:
        return f"demo fails on the unchanged tree: {r.stdout[-1500:]}"
    r = sh(f"bash {d}/demo.sh", cwd=w)
    if r.returncode == 0:
        return "demo passes with the change"
    msg = r.stdout[-300:]
    if "error: could not compile" in r.stdout:
        return "demo does not build: " + r.stdout[-1500:]
    out = f"/tmp/plant_{id}.json"
    r = lab(f"bash /opt/vp/test.sh {out}", 1800)
    try:
        o = json.load(open(out))
    except OSError:
        return "tests did not run: " + r.stdout[-1500:]
    missing = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"]))
    if missing:
        return f"existing tests fail: {missing[:5]}"
    return None, msg


def check(id, prop, d):
    """runs the check in the lab, whose copy of the repository has the change"""
    r = lab(f"python3 /verif/check.py {prop}")
    return r.returncode, r.stdout[-600:]


def main():
    src = {}
    exec(open(f"{V}/tools/bugs.py").read(), src)
    sel = sys.argv[1:]
    for b in src["BUGS"]:
        if sel and b["id"] not in sel:
            continue
        d, w = write(b["id"], b["prop"], b["needs"], b["breaks"], b["edits"], b["demo"], b["deps"])
        sh(f"git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git apply {d}/patch.diff", cwd=f"/tmp/lab/{LAB}/repo")
        c = confirm(b["id"], w, d)
        if isinstance(c, str):
            print(b["id"], "REJECTED:", c)
            shutil.rmtree(d)
            continue
        rc, out = check(b["id"], b["prop"], d)
        print(b["id"], b["prop"], "CAUGHT" if rc == 1 and f"VIOLATION property={b['prop']}" in out else f"MISSED rc={rc}", "|", out.strip().splitlines()[-1][:200] if out.strip() else "")
        if rc != 1:
            print(out)


if __name__ == "__main__":
    main()
