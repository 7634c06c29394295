#!/usr/bin/env python3
"""Make and confirm planted bugs.

  plant.py make DEFS.py [id..]   write seeded/<id>/ from definitions
  plant.py confirm [id..]        confirm in scratch copies: builds, stable tests pass,
                                 demo passes without and fails with the patch
  plant.py catch [id..] [--all]  run the checks (of the property, or all) against /repo
                                 with the patch applied, then undo it
"""
import importlib.util, json, os, pathlib, re, shutil, subprocess, sys, tempfile, time

VERIF = pathlib.Path("/verif"); REPO = pathlib.Path("/repo"); SEEDED = VERIF / "seeded"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")

DEMO_SH = '''#!/bin/bash
# cwd: /repo. Builds demo.rs against a scratch copy of the sources; exit 0: behaves, else: broken.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 99
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/crate" "$scratch/demo/src" "$scratch/data"
cp -r Cargo.toml Cargo.lock build.rs src "$scratch/crate/" || exit 99
cp Cargo.lock "$scratch/demo/"
cp "$here/demo.rs" "$scratch/demo/src/main.rs"
cat >"$scratch/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cathlamet = {{ path = "$scratch/crate" }}
async-std = {{ version = "*", features = ["unstable"] }}
libc = "*"
[workspace]
T
cd "$scratch/demo" || exit 99
export CARGO_TARGET_DIR="${{DEMO_TARGET_DIR:-$scratch/target}}"
export RUSTFLAGS="{flags}"
cargo build --offline -q 2>"$scratch/log" || {{ tail -n 30 "$scratch/log"; exit 98; }}
cp "$CARGO_TARGET_DIR/debug/demo" "$scratch/run"
cd "$scratch/data" && {runs}
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def load(path):
    spec = importlib.util.spec_from_file_location("defs", path)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m.BUGS

def make(defs, ids):
    for b in load(defs):
        if ids and b["id"] not in ids: continue
        d = SEEDED / b["id"]; d.mkdir(parents=True, exist_ok=True)
        w = pathlib.Path(tempfile.mkdtemp(prefix="plant.")) 
        shutil.copytree(REPO / "src", w / "src")
        sh("git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x", cwd=w)
        for f, old, new in b["edits"]:
            t = (w / f).read_text()
            assert t.count(old) == 1, (b["id"], f, t.count(old), old)
            (w / f).write_text(t.replace(old, new))
        diff = subprocess.run("git diff", shell=True, cwd=w, text=True, stdout=subprocess.PIPE).stdout
        (d / "patch.diff").write_text(diff)
        (d / "demo.rs").write_text(b["demo"])
        (d / "demo.sh").write_text(DEMO_SH.format(flags=b["flags"] if "flags" in b else "--cfg cathlamet_sim" if b.get("sim") else "",
                                   runs=b.get("runs", 'timeout 60 "$scratch/run"')))
        os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"],
                                     "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        shutil.rmtree(w)
        print("made", b["id"])

def original_lines():
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[-1]
    return base

def confirm(ids):
    base = original_lines()
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = SEEDED / i
        msgs = []
        w = pathlib.Path("/tmp/plant_confirm")
        if w.exists(): shutil.rmtree(w)
        os.makedirs(w)
        sh("cd /repo && git archive HEAD | tar x -C /tmp/plant_confirm && cp src/sql/parser.rs /tmp/plant_confirm/src/sql/ 2>/dev/null")
        env = dict(ENV, DEMO_TARGET_DIR="/tmp/plant_demo_" + ("sql" if "cathlamet_sim_sql" in (d/"demo.sh").read_text() else "sim" if "cathlamet_sim" in (d/"demo.sh").read_text() else "plain"))
        t = time.time()
        r0 = subprocess.run(["bash", str(d / "demo.sh")], cwd=w, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        # removed lines must be of the original repository
        diff = (d / "patch.diff").read_text()
        own = 0
        f = None
        ln = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                bl = sh(f"git -C /repo blame -s --abbrev=40 HEAD -- {f}").stdout.splitlines()
            elif l.startswith("@@"):
                ln = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                if not bl[ln - 1].lstrip("^").startswith(base[:30]): own += 1
                ln += 1
            elif l.startswith(" "):
                ln += 1
        ap = sh(f"git apply {d}/patch.diff", cwd=w)
        if ap.returncode: msgs.append("patch does not apply: " + ap.stdout)
        tests = sh("CARGO_TARGET_DIR=/tmp/plant_tests cargo test --workspace --offline 2>&1", cwd=w)
        passed = set(re.findall(r"^test (\S+) \.\.\. ok", tests.stdout, re.M))
        r1 = subprocess.run(["bash", str(d / "demo.sh")], cwd=w, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        names = json.dumps(stable)
        missing = [t for t in re.findall(r'"([\w:]+::[\w:]+)"', names) if t.split("::",1)[-1] not in passed and t not in passed]
        if len(passed) < 25: msgs.append(f"only {len(passed)} tests pass: {tests.stdout[-600:]}")
        if own: msgs.append(f"{own} removed lines are not original")
        if r0.returncode != 0: msgs.append(f"demo fails on unchanged tree rc={r0.returncode}: {r0.stdout[-800:]}")
        if r1.returncode in (0, 98, 99): msgs.append(f"demo rc={r1.returncode} with the patch: {r1.stdout[-800:]}")
        print(("OK   " if not msgs else "BAD  ") + i, f"rc={r1.returncode}", *msgs, r1.stdout.strip().splitlines()[-1:] if not msgs else "", flush=True)
        shutil.rmtree(w)

def catch(ids, every):
    """In a scratch copy of both trees, so that nothing else is disturbed."""
    man = json.load(open(VERIF / "MANIFEST.json"))
    props = [c["property"] for c in man["checks"]]
    w = pathlib.Path("/tmp/plant_catch"); (w / "verif").mkdir(parents=True, exist_ok=True)
    env = f"CARGO_TARGET_DIR={w}/target CARGO_TERM_COLOR=never VERIF_DIR={w}/verif VERIF_SEED=1 VERIF_TIER=quick"
    for i in ids:
        meta = json.load(open(SEEDED / i / "meta.json"))
        sh(f"rm -rf {w}/repo {w}/verif/sim && mkdir {w}/repo && git -C /repo archive HEAD | tar x -C {w}/repo && cp -a /verif/sim {w}/verif/sim && cp /verif/KNOWN_FINDINGS.txt {w}/verif/")
        a = sh(f"git apply {SEEDED / i / 'patch.diff'}", cwd=w / "repo")
        b = sh(f"{env} cargo build --offline -q --bin dst", cwd=w / "verif/sim")
        if a.returncode or b.returncode:
            print("BROKEN", i, a.stdout, b.stdout[-500:], flush=True); continue
        out = []
        for p in (props if every else [meta["property"]]):
            r = sh(f"{env} {w}/target/debug/dst check {p} --tier quick", cwd=w / "verif")
            v = re.findall(r"^VIOLATION property=(\S+)", r.stdout, re.M)
            if r.returncode == 1 and p in v: out.append(p)
            elif r.returncode != 0: out.append(f"{p}!rc{r.returncode}")
        mark = "CAUGHT" if meta["property"] in out else "MISSED"
        print(mark, i, meta["property"], "by", out, flush=True)

if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make": make(args[0], args[1:])
    else:
        every = "--all" in args
        ids = [a for a in args if a != "--all"] or sorted(p.name for p in SEEDED.iterdir() if p.is_dir())
        confirm(ids) if cmd == "confirm" else catch(ids, every)
