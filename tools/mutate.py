#!/usr/bin/env python3
"""Small mutations of /repo's sources, filtered by the existing tests, then shown to the checks.

    mutate.py list OUT          writes every mutant as OUT/<n>.diff
    mutate.py tests OUT         keeps those that compile and pass the tests (OUT/passing)
    mutate.py checks OUT [N]    runs the checks on (N random) passing ones (OUT/results)
"""
import json, os, random, re, signal, subprocess, sys, threading, queue

FILES = ["arraystring.rs", "drain.rs", "implementations.rs", "integration.rs", "utils.rs", "error.rs"]
SWAPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > (?!=)", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" = ", " -= "]), (r" -= ", [" = "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\bsaturating_add\b", ["wrapping_add"]), (r"\bsaturating_sub\b", ["wrapping_sub"]),
    (r"\bis_some\b", ["is_none"]), (r"\bis_ok\b", ["is_err"]), (r"\.rev\(\)", [""]), (r"\bleft\b", ["right"]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])([2-9]|\d\d+)(?![\w.])", ["1"]),
    (r"\bif ([^{]*) \{", ["if true {", "if false {"]), (r"\.\.=", [".."]), (r"\.len\(\)", [".len().wrapping_add(1)", ".len().wrapping_sub(1)"]),
    (r"\bnext_back\b", ["next"]), (r"\.next\(\)", [".next_back()"]), (r"\bend\b", ["start"]), (r"\bstart\b", ["end"]),
    (r"\?;", [".ok();"]), (r"\bIncluded\b", ["Excluded"]), (r"\bExcluded\b", ["Included"]), (r"!(?=self|[a-z]+\()", [""]),
    (r"\bsize\b", ["(size + 1)", "(size - 1)"]), (r"\bidx\b", ["(idx + 1)"]), (r"\bcopy\b", ["copy_nonoverlapping"]),
    (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]), (r"_lossy\b", [""]),
]


def code_lines(text):
    """(index, line) of lines that are code, up to a test module."""
    for i, l in enumerate(text):
        s = l.strip()
        if re.match(r"#\[cfg\(test\)\]|mod tests", s):
            return
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or "trace!" in s or "debug!" in s:
            continue
        if re.match(r"(pub )?(unsafe )?(fn|impl|struct|enum|type|where)\b", s):
            continue
        yield i, l


def make(out):
    os.makedirs(out, exist_ok=True)
    n = 0
    seen = set()
    for f in FILES:
        p = "/repo/src/" + f
        text = open(p).read().split("\n")
        for i, l in code_lines(text):
            alts = []
            for pat, news in SWAPS:
                for m in re.finditer(pat, l):
                    alts += [l[: m.start()] + new + l[m.end():] for new in news]
            if l.rstrip().endswith(";") and not l.strip().startswith(("let ", "return", "}", ")", ".")) and l.count("(") == l.count(")"):
                alts.append(re.match(r"\s*", l).group(0) + ";")
            for a in alts:
                if a == l or (f, i, a) in seen:
                    continue
                seen.add((f, i, a))
                json.dump({"file": "src/" + f, "line": i + 1, "old": l, "new": a}, open("%s/%d.json" % (out, n), "w"))
                n += 1
    print(n, "mutants")


def apply(repo, m):
    p = os.path.join(repo, m["file"])
    t = open(p).read().split("\n")
    assert t[m["line"] - 1] == m["old"]
    t[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(t))


def tests(out, workers=int(os.environ.get("W", "6"))):
    q = queue.Queue()
    first = int(os.environ.get("FROM", "0"))
    for f in sorted((int(x[:-5]) for x in os.listdir(out) if x.endswith(".json"))):
        if f >= first:
            q.put(f)
    passing = open(out + "/passing", "a")
    lock = threading.Lock()

    def work(k):
        w = "/tmp/mut/w%d" % k
        if not os.path.exists(w):
            subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
            if os.path.exists("/repo/Cargo.lock"):
                subprocess.run(["cp", "/repo/Cargo.lock", w])
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TARGET_DIR=w + "/target",
                   CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        while True:
            try:
                n = q.get_nowait()
            except queue.Empty:
                return
            m = json.load(open("%s/%d.json" % (out, n)))
            subprocess.run(["git", "checkout", "-q", "--", "src"], cwd=w)
            apply(w, m)
            ok = True
            for c in ("cargo check --lib --all-features --offline", "cargo test --lib --tests --all-features --offline -- --test-threads 2",
                      "cargo test --doc --all-features --offline -- --test-threads 2"):
                try:
                    r = subprocess.Popen(c.split(), cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                    r.wait(timeout=90)
                except subprocess.TimeoutExpired:
                    os.killpg(r.pid, signal.SIGKILL)
                    r.wait()
                    ok = False
                    break
                if r.returncode:
                    ok = False
                    break
            with lock:
                if ok:
                    passing.write("%d\n" % n)
                    passing.flush()
                print(n, "passes" if ok else "-", m["file"], m["line"], m["new"].strip() if ok else "", flush=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


ORDER = {
    "src/arraystring.rs": "C01 C04 C03 C02 C07 C12 C12 C09 C07 C06 C14 C16 C08 C10 C13 C11",
    "src/drain.rs": "C12 C13 C01 C02 C07 C09 C05 C06 C14 C16 C08",
    "src/implementations.rs": "C01 C03 C09 C13 C02 C07 C04 C05 C06 C14 C16 C08 C12",
    "src/integration.rs": "C10 C11 C02 C14 C07 C06 C03",
    "src/utils.rs": "C01 C03 C04 C02 C15 C07 C05 C12 C09 C06 C14 C16 C08",
    "src/error.rs": "C04 C15 C16 C09",
}


def checks(out, count):
    d = os.environ.get("DIR", "/tmp/mut/chk")
    done = set()
    if os.path.exists(out + "/results"):
        done = {int(l.split()[0]) for l in open(out + "/results")}
    ns = [int(l) for l in open(out + "/passing")]
    only = os.environ.get("ONLY")
    if only:
        ns = [int(x) for x in only.split(",")]
        done = set()
    else:
        ns = [n for n in ns if n not in done]
        random.seed(int(os.environ.get("PICK", "1")))
        random.shuffle(ns)
    os.makedirs(d, exist_ok=True)
    for name in ("repo", "verif"):
        if not os.path.exists(d + "/" + name):
            subprocess.run(["git", "clone", "-q", "/" + name, d + "/" + name], check=True)
        subprocess.run("git checkout -q -- . && git pull -q --ff-only", shell=True, cwd=d + "/" + name, check=True)
    subprocess.run("sed -i 's#\"/repo\"#\"%s/repo\"#' check sim/Cargo.toml sim/*/Cargo.toml" % d, shell=True, cwd=d + "/verif", check=True)
    for n in ns[:count]:
        m = json.load(open("%s/%d.json" % (out, n)))
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d + "/repo")
        apply(d + "/repo", m)
        res = "SURVIVES"
        for p in ORDER[m["file"]].split():
            try:
                r = subprocess.run(["./check", p, "quick"], cwd=d + "/verif", timeout=900, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            except subprocess.TimeoutExpired:
                res = "TIMEOUT " + p
                break
            if r.returncode:
                res = "%s rc=%d" % (p, r.returncode)
                break
        line = "%d %s | %s:%d | %s => %s" % (n, res, m["file"], m["line"], m["old"].strip(), m["new"].strip())
        open(out + "/results", "a").write(line + "\n")
        print(line, flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d + "/repo")


if __name__ == "__main__":
    if sys.argv[1] == "list":
        make(sys.argv[2])
    elif sys.argv[1] == "tests":
        tests(sys.argv[2])
    else:
        checks(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 10**9)
