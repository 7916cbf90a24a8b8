#!/usr/bin/env python3
"""Mutation campaign: single-token changes of /repo/src that pass the tests, judged by the harness.
usage: mutate.py OUT.jsonl WORKERS SHARE [FILE...]   (scratch under /tmp/mut)"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
OUT, W, SHARE = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
FILES = sys.argv[4:] or "account amount annotate balance commodity history journal lib main option parser pool post report scanner xact".split()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", VERIF_NOSHRINK="1", VERIF_JOBS="1", CARGO_BUILD_JOBS="2")
SWAPS = [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" < ", " > "), (" <= ", " < "), (" >= ", " > "),
 (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), (" * ", " / "), (" / ", " * "),
 (" *= ", " += "), ("true", "false"), ("false", "true"), ("is_some()", "is_none()"), ("is_none()", "is_some()"),
 (".trim_end()", ""), (".trim_start()", ""), (".trim()", ""), (".trim()", ".trim_end()"), (".trim()", ".trim_start()"), (".abs()", ""), (".inverse()", ""),
 (".nth(0)", ".nth(1)"), (".nth(1)", ".nth(0)"), (".find(", ".rfind("), (".rfind(", ".find("), (".find_map(", ".filter_map("),
 ("starts_with", "ends_with"), ("ends_with", "starts_with"), (".first(", ".last("), (".last(", ".first("), ("last_key_value", "first_key_value"),
 (".iter()", ".iter().rev()"), (".iter()", ".iter().skip(1)"), ("..", "..="), ("..=", ".."), ("break;", "continue;"), ("continue;", "break;"),
 ("if !", "if "), ("if ", "if !"), (".is_empty()", ".len() > 1"), ("?;", ";"), (".unwrap()", ".unwrap_or_default()"),
 ("'@'", "'&'"), ("' '", "'\\t'"), ("' '", "'_'"), ("'{'", "'('"), ("'}'", "')'"), ("'['", "'('"), ("']'", "')'"), ("';'", "'#'"), ("'-'", "'~'"), ("'.'", "','"), ("'='", "'~'"), ("':'", "';'"),
 ("\"  \"", "\" \""), ("char::is_whitespace", "|c: char| c == ' '"), ("is_whitespace()", "is_ascii_whitespace()"), ("is_alphabetic", "is_ascii_alphabetic"), ("is_numeric", "is_ascii_digit"),
 (".insert(", ".entry("), ("MIN", "MAX"), ("MAX", "MIN"), ("ONE", "ZERO"), ("ZERO", "ONE"), ("source", "target"), ("target", "source"),
 ("amount", "cost"), ("cost", "amount"), ("x", "y"), ("per_unit", "!per_unit"), ("lines()", "lines().skip(1)"), ("split_whitespace", "split_ascii_whitespace"), ("date", "aux_date"), ("symbol", "quantity"), ("quantity", "symbol"),
 (".clone()", ""), (".to_string()", ".to_lowercase()"), (".to_owned()", ".to_lowercase()"), (".sort()", ".reverse()"), ("commodity", "quantity"), (".cmp(", ".partial_cmp(")]
if not os.path.exists("/tmp/mut/src"): shutil.copytree("/repo/src", "/tmp/mut/src")
def sites(f):
    path = f"/tmp/mut/src/{f}.rs"
    lines = open(path).read().split("\n")
    out = []
    depth = 0
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l: break
        s = l.strip()
        if s.startswith("//") or s.startswith("*") or s.startswith("/*") or s.startswith("use ") or s.startswith("pub mod") or s.startswith("mod ") or "log::" in l: continue
        code = l.split(" //")[0]
        for a, b in SWAPS:
            k = code.find(a)
            while k >= 0:
                ok = True
                if a[0].isalnum():
                    pre = code[k-1] if k else " "; post = code[k+len(a)] if k+len(a) < len(code) else " "
                    ok = not (pre.isalnum() or pre == "_" or ((post.isalnum() or post == "_") and a[-1].isalnum()))
                if ok: out.append((f, i, l, l[:k] + b + l[k+len(a):]))
                k = code.find(a, k + len(a))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            for v in (int(m[1]) + 1, int(m[1]) - 1):
                if v >= 0: out.append((f, i, l, l[:m.start()] + str(v) + l[m.end():]))
        if s.endswith(";") and not re.match(r"(let|return|use|type|const|static|pub|\}|\)|break|continue)", s) and s.count("(") == s.count(")"):
            out.append((f, i, l, l[:len(l)-len(l.lstrip())] + "{ }"))
        m = re.match(r"(\s*)(?:\} else )?if (.+) \{$", code)
        if m and "let " not in m[2]:
            out.append((f, i, l, l.replace(m[2], "true", 1))); out.append((f, i, l, l.replace(m[2], "false", 1)))
    return out
allm = [s for f in FILES for s in sites(f)]
random.Random(7).shuffle(allm)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
seen = set(); todo = []
for m in allm[:int(len(allm) * SHARE)]:
    key = (m[0], m[1] + 1, m[3])
    if key in done or key in seen: continue
    seen.add(key); todo.append(m)
print(len(allm), "sites,", len(todo), "to do", flush=True)
q = queue.Queue()
for t in todo: q.put(t)
lock = threading.Lock()
def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
    finally:
        for sid in (p.pid,):
            subprocess.run(["pkill", "-9", "-s", str(sid)])
            try: os.killpg(sid, 9)
            except OSError: pass
def worker(n):
    base = f"/tmp/mut/w{n}"
    if not os.path.exists(base):
        os.makedirs(base)
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        subprocess.run(f"mkdir -p {base}/repo && git -C /repo archive HEAD | tar x -C {base}/repo && cp /opt/vp/Cargo.lock {base}/repo/; mkdir -p {base}/repo/.config; printf '[profile.default]\\nslow-timeout={{period=\"4s\",terminate-after=2}}\\n' > {base}/repo/.config/nextest.toml", shell=True, check=True)
        subprocess.run(f"cp -a /verif/harness {base}/harness && sed -i 's#/repo#{base}/repo#' {base}/harness/Cargo.toml", shell=True, check=True)
        subprocess.run(f"grep -rl '/verif/target' {base}/harness/src | xargs -r sed -i 's#/verif/target#{base}/htarget#'", shell=True)
    tenv = dict(ENV, CARGO_TARGET_DIR=f"{base}/ttarget", RUSTFLAGS="-Awarnings -A invalid_reference_casting")
    henv = dict(ENV, CARGO_TARGET_DIR=f"{base}/htarget", RUSTFLAGS="-Awarnings -A invalid_reference_casting --cfg ledger_verif")
    ids = [f"C{i:02}" for i in range(1, 24)]
    while True:
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: return
        p = f"{base}/repo/src/{f}.rs"
        orig = open(f"/tmp/mut/src/{f}.rs").read(); lines = orig.split("\n")
        assert lines[i] == old
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        res = {"file": f, "line": i + 1, "old": old, "new": new}
        rc, o = run(["cargo", "nextest", "run", "-j2", "--offline", "-E", "not test(=parser::tests::test_general_directive)"], f"{base}/repo", tenv, 200)
        if rc != 0:
            res["r"] = "nobuild" if "could not compile" in o else "tests"
        else:
            rc, o = run(["cargo", "build", "--offline", "--bins"], f"{base}/harness", henv, 200)
            if rc: res["r"] = "hbuild"
            else:
                res["r"] = "SURVIVED"
                for mult in ("1500", "12000"):
                    for id in ids:
                        e = dict(henv); e.pop("VERIF_CASES", None)
                        if mult: e["VERIF_CASES"] = mult
                        os.makedirs(f"{base}/out", exist_ok=True)
                        rc, o = run([f"{base}/htarget/debug/harness", "run", id, "quick", "1", f"{base}/out"], base, e, 800)
                        if rc == 1: res["r"] = "caught"; res["by"] = id + " " + mult; break
                        if rc not in (0, 1): res.setdefault("odd", []).append(f"{id}:{rc}:{o[-200:]}")
                    if res["r"] == "caught": break
        open(p, "w").write(orig)
        with lock:
            open(OUT, "a").write(json.dumps(res) + "\n")
ts = [threading.Thread(target=worker, args=(n,)) for n in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
