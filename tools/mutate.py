#!/usr/bin/env python3
"""Mutation testing of the checks, in scratch copies.

  mutate.py FILE[:FROM-TO] [--props C01,C02] [--jobs 4] [--sample N] [--seed S] [--out survivors.txt]

Each mutant is one small change of a non-test line of a source file. It is
reported as a survivor if it compiles, the existing tests pass and no check
notices (checks run with a reduced number of runs).
"""
import argparse, os, pathlib, random, re, shutil, subprocess, sys, threading, queue, time

ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
PROPS = {
    "src/storage/": "C05 C01 C02 C03 C04 C06 C07 C08 C09 C10 C11 C12 C29 C30 C31 C32",
    "src/core/nsm.rs": "C16 C17 C20 C18",
    "src/core/marshaller.rs": "C18 C16 C19 C20 C33",
    "src/core/json/": "C14 C15 C13 C33",
    "src/core/util.rs": "C19 C20 C16 C17 C18",
    "src/core/types/": "C27 C26 C14 C18 C15 C19",
    "src/core/data_source.rs": "C14 C18 C15 C27",
    "src/common/": "C08 C12",
    "src/sql/ast/typing.rs": "C24",
    "src/sql/": "C25 C23",
}
RULES = [
    (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" << ", [" >> "]), (r" >> ", [" << "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" & ", [" | "]), (r" \| ", [" & "]), (r"\+= ", ["-= "]), (r"-= ", ["+= "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.])(\d+)(?=(u8|u16|u32|u64|u128|usize|i32)?\b)(?!\w*\.\w)", ["+1", "-1"]),
    (r"\bif !", ["if "]), (r"notify_all", ["notify_one"]), (r"notify_one", ["notify_all"]),
    (r"\.head\b", [".tail"]), (r"\.tail\b", [".head"]), (r"\.next\b(?!\()", [".prev"]), (r"\.prev\b", [".next"]),
    (r"push_front", ["push_back"]), (r"\.rev\(\)", [""]), (r"\bnum_rows\b", ["(num_rows + 1)"]),
    (r"=> self\.advance\(\)", ["=> ()"]), (r"\?;$", [".ok();"]), (r"\.min\(", [".max("]), (r"cmp::max", ["cmp::min"]),
    (r"0\.\.", ["1.."]), (r"0 \.\.", ["1 .."]),
]

def mutants(text, lo, hi):
    lines = text.split("\n")
    end = len(lines)
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l and "mod tests" in "".join(lines[i:i+2]): end = i
    skip_fn = False
    for i in range(min(end, len(lines))):
        if not (lo <= i + 1 <= hi): continue
        l = lines[i]
        code = l.split("//")[0] if '"' not in l else l
        s = code.strip()
        if not s or s.startswith(("//", "use ", "#", "extern", "pub mod", "mod ")): continue
        for rx, subs in RULES:
            for m in re.finditer(rx, code):
                for sub in subs:
                    if sub in ("+1", "-1"):
                        v = int(m.group(1)) + int(sub)
                        if v < 0: continue
                        new = code[:m.start()] + str(v) + code[m.end():]
                    else:
                        new = code[:m.start()] + sub + code[m.end():]
                    yield i, l, new
        if re.match(r"^[\w.\*\(\)&]+.*;$", s) and not re.match(r"^(let|return|break|continue|use|pub|const|static|type|fn|assert|debug_assert|panic)\b", s):
            yield i, l, re.match(r"\s*", l).group(0) + "();" if False else re.match(r"\s*", l).group(0)
        m = re.match(r"^(\s*(?:\} else )?if )(?!let)(.+)( \{)$", code)
        if m:
            yield i, l, m.group(1) + "true || " + m.group(2) + m.group(3)
            yield i, l, m.group(1) + "false && " + m.group(2) + m.group(3)

def run(cmd, cwd, timeout, env=None):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ""

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+"); ap.add_argument("--props"); ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--sample", type=int); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--runs", type=int, default=15000); ap.add_argument("--out", default="/tmp/survivors.txt")
    ap.add_argument("--again", help="only the survivors listed in this file")
    a = ap.parse_args()
    todo = []
    for spec in a.files:
        f, _, rng = spec.partition(":")
        lo, hi = (int(x) for x in rng.split("-")) if rng else (1, 10**9)
        text = pathlib.Path("/repo", f).read_text()
        for i, old, new in mutants(text, lo, hi):
            if old != new: todo.append((f, i, old, new))
    todo = list(dict.fromkeys(todo))
    if a.again:
        ls = pathlib.Path(a.again).read_text().split("\n")
        want = {(x[4:], y[4:]) for x, y in zip(ls, ls[1:]) if x.startswith("  - ") and y.startswith("  + ")}
        todo = [t for t in todo if (t[2].strip(), t[3].strip()) in want]
    random.Random(a.seed).shuffle(todo)
    if a.sample: todo = todo[:a.sample]
    print(len(todo), "mutants", flush=True)
    q = queue.Queue(); [q.put(t) for t in todo]
    stats = {"invalid": 0, "caught": 0, "tests": 0, "survived": 0}; by = {}
    lock = threading.Lock(); out = open(a.out, "w")

    def work(k):
        w = pathlib.Path(f"/tmp/mw/{k}")
        shutil.rmtree(w, ignore_errors=True); (w / "verif").mkdir(parents=True)
        run(f"cp -a /repo {w}/repo && rm -rf {w}/repo/target && cp -a /verif/sim {w}/verif/sim && cp /verif/KNOWN_FINDINGS.txt {w}/verif/", "/", 60)
        env = dict(ENV, CARGO_TARGET_DIR=f"{w}/target"); tenv = dict(ENV, CARGO_TARGET_DIR=f"{w}/ttarget")
        cenv = dict(ENV, VERIF_DIR=f"{w}/verif", VERIF_SEED="1")
        while True:
            try: f, i, old, new = q.get_nowait()
            except queue.Empty: break
            p = w / "repo" / f; text = p.read_text(); ls = text.split("\n"); assert ls[i] == old
            ls[i] = new; p.write_text("\n".join(ls))
            rc, o = run("cargo build --offline --bin dst -q", w / "verif/sim", 300, env)
            res = None
            if rc != 0: res = "invalid"
            else:
                props = (a.props.split(",") if a.props else next(v for kk, v in PROPS.items() if f.startswith(kk)).split())
                for pr in props:
                    rc, o = run(f"{w}/target/debug/dst check {pr} --tier quick --runs {a.runs} --workers 2", w / "verif", 200, cenv)
                    if rc == 1 and "VIOLATION property=" + pr in o: res = "caught"; by[pr] = by.get(pr, 0) + 1; break
                    if rc not in (0, 1): res = "caught"; print("rc", rc, pr, f, i + 1, new.strip(), o[-300:], flush=True); break
                if res is None:
                    rc, o = run("cargo test --offline --lib -q", w / "repo", 300, tenv)
                    res = "tests" if rc != 0 else "survived"
            p.write_text(text)
            with lock:
                stats[res] += 1
                if res == "survived":
                    line = f"{f}:{i+1}\n  - {old.strip()}\n  + {new.strip()}\n"
                    out.write(line); out.flush(); print("SURVIVED", line, end="", flush=True)
                n = sum(stats.values())
                if n % 25 == 0: print(n, stats, by, flush=True)
        shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print("done", stats, by)

main()
