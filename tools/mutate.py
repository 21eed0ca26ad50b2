#!/usr/bin/env python3
"""Mutation testing: small random changes to /repo's sources which pass its tests, against the checks.

usage: mutate.py [-j N] [-n COUNT] [-s SEED] [--scale S] [--skip FILE] [--only REGEX]
Each mutant is made in a scratch copy; those the checks do not report are printed with a diff.
With --skip, mutants listed in FILE (lines `file:line:col old -> new`) are not made again; the
ones made are added to it.
"""
import os, random, re, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opt = {"-j": "4", "-n": "100", "-s": "1", "--scale": "0.1", "--skip": "", "--only": ""}
a = sys.argv[1:]
while a:
    k = a.pop(0)
    opt[k] = a.pop(0)
FILES = ["src/lexer.rs", "src/parse.rs", "src/parse/iter.rs", "src/token.rs", "src/ast.rs",
         "src/ast/builder.rs", "src/ast/builder/default_builder.rs", "src/ast/builder/empty_builder.rs"]
ORDER = ["C21", "C28", "C23", "C19", "C20", "C01", "C02", "C24", "C12", "C11", "C14", "C15", "C17",
         "C13", "C10", "C09", "C08", "C07", "C06", "C05", "C04", "C16", "C18", "C22", "C25", "C26",
         "C27", "C29", "C30", "C03"]
TOKENS = """Newline ParenOpen ParenClose CurlyOpen CurlyClose SquareOpen SquareClose Bang Amp Pipe Semi
At AndIf OrIf DSemi Less Great LessAnd GreatAnd DLess DGreat LessGreat Clobber DLessDash SingleQuote
DoubleQuote Backtick Backslash Dollar Tilde Pound Question Star Colon Plus Minus Equals Caret Slash
Comma Percent Whitespace Name Literal ParamPositional""".split()
ops = [(r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" < ", [" <= ", " >= "]), (r" > ", [" >= ", " <= "]),
       (r" <= ", [" < "]), (r" >= ", [" > "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \+ ", [" - "]),
       (r" - ", [" + "]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_some\(\)", [".is_none()"]),
       (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.rev\(\)", [""]), (r"\bbreak;", ["continue;"]),
       (r"\bcontinue;", ["break;"]), (r"(?<![\w.\"'])0(?![\w.\"'])", ["1"]), (r"(?<![\w.\"'])1(?![\w.\"'])", ["0", "2"]),
       (r"(?<![\w.\"'])[2-9](?![\w.\"'])", ["1"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
       (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]), (r"!(?=self\.|\w+\.|\()", [""]),
       (r"\bif (?=!?self\.|\w+[.(])", ["if !", "if true || ", "if false && "]),
       (r"Some\((?:&\w+(?:\(\w+\))?|\w+)\) ?\| ?", [""]), (r" ?\| ?(?:Some\(&?\w+(?:\(_\))?\)|&?\w+(?:\(_\))?)(?= =>|\)?$| \|)", [""]),
       (r"&\[(?:[A-Z]+)\]", ["&[]"]), (r"\bskip_whitespace\(\)", ["pos()"]), (r"\.pop\(\)", [".get(0)"]),
       (r"mem::replace\(", ["(|_: &mut _, x| x)("]), (r"\.saturating_sub\(", [".saturating_add("]),
       (r"\bDefault\(", ["Assign("]), (r"Smallest", ["Largest"]), (r"Largest", ["Smallest"]),
       (r"Prefix", ["Suffix"]), (r"Suffix", ["Prefix"]), (r"\bAnd\(", ["Or("]), (r"\bOr\(", ["And("]),
       (r"\bpeek\(\)", ["peek_pos()"]), (r"\bNone\b(?= =>)", ["Some(_)"]), (r"Some\((\w+)\)(?=[;,)]|$)", ["None"]),
       (r"\bvec!\[[^\]]+\]", ["Vec::new()"]), (r"'(.)'", ["'~'"]), (r"\"([^\"\\{}]+)\"", ["\"~~\""]),
       (r"\.take\(\)", [".clone()"]), (r"\.and_then\(", [".map("]), (r"\bchars\(\)", ["chars().skip(1)"])]
statement = re.compile(r"^\s+(?:let _ = )?(?:self|[a-z_]\w*)(?:\.\w+(?:\(\))?)*(?:\.\w+\(.*\)| [-+]?= .*|\(.*\))\??;$")
ret = re.compile(r"^\s+return .*;$")

def mutants():
    out = []
    for f in FILES:
        lines = open(os.path.join("/repo", f)).read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                break
            if s.startswith(("//", "#", "use ", "pub use ", "assert")) or not s or "conch_verif" in l:
                continue
            if statement.match(l) or ret.match(l):
                out.append((f, i, 0, l, re.match(r"\s*", l).group()))
            for pat, new in ops:
                for m in re.finditer(pat, l):
                    for n in new:
                        out.append((f, i, m.start(), m.group(), n))
            for m in re.finditer(r"\b(" + "|".join(TOKENS) + r")\b", l):
                t = random.Random(f"{f}{i}{m.start()}").choice(TOKENS)
                if t != m.group():
                    out.append((f, i, m.start(), m.group(), t))
            # An arm less
            if re.match(r"^\s+(\| )?(Some\()?&?[A-Z]\w*(\(_\))?\)?( \|.*)?$", l):
                out.append((f, i, 0, l, ""))
    return out

env = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           RUST_BACKTRACE="0", VERIF_SEED="1", VERIF_TIER="quick", HARNESS_SCALE=opt["--scale"])
env.pop("CARGO_TARGET_DIR", None)
env.pop("RUSTFLAGS", None)

def sh(cmd, cwd, **more):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(env, **more), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")

def name(m):
    return f"{m[0]}:{m[1] + 1}:{m[2]} {m[3].strip()!r} -> {m[4].strip()!r}"

def one(q, m):
    root = q.get()
    try:
        repo, f = os.path.join(root, "repo"), os.path.join(root, "repo", m[0])
        text = open(f).read()
        lines = text.split("\n")
        l = lines[m[1]]
        assert l[m[2]:].startswith(m[3])
        lines[m[1]] = l[:m[2]] + m[4] + l[m[2] + len(m[3]):]
        open(f, "w").write("\n".join(lines))
        try:
            r = sh("timeout 120 cargo build --offline", repo)
            if r.returncode:
                return m, "unbuildable", ""
            r = sh("ulimit -v 8000000; timeout 60 cargo test --offline --no-fail-fast -- --test-threads 4", repo)
            if r.returncode:
                return m, "tests", ""
            r = sh("timeout 600 cargo build --release --locked", os.path.join(root, "verif/harness"), RUSTFLAGS="--cfg conch_verif")
            if r.returncode:
                return m, "no harness", r.stdout[-1500:]
            for c in ORDER:
                r = sh(f"ulimit -v 16000000; timeout 900 verif/harness/target/release/harness run {c}", root,
                       HARNESS_ROOT=os.path.join(root, "verif"))
                if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                    return m, c, ""
                if r.returncode:
                    return m, f"no answer by {c}", r.stdout[-500:]
            return m, "SURVIVED", l + "\n  " + lines[m[1]]
        finally:
            open(f, "w").write(text)
    except Exception as e:
        return m, "odd", repr(e)
    finally:
        q.put(root)

def main():
    top = tempfile.mkdtemp(prefix="mut-")
    signal.signal(signal.SIGTERM, lambda *_: os._exit(shutil.rmtree(top, True) or 1))
    skip = set()
    if opt["--skip"] and os.path.exists(opt["--skip"]):
        skip = {l.rsplit(" = ", 1)[0] for l in open(opt["--skip"]).read().split("\n")}
    ms = [m for m in mutants() if name(m) not in skip and re.search(opt["--only"], name(m))]
    random.Random(int(opt["-s"])).shuffle(ms)
    print(len(ms), "mutants", flush=True)
    ms = ms[:int(opt["-n"])]
    try:
        q = Queue()
        for i in range(int(opt["-j"])):
            root = os.path.join(top, str(i))
            os.makedirs(os.path.join(root, "verif/evidence"))
            os.makedirs(os.path.join(root, "verif/replay"))
            subprocess.run(["cp", "-a", "/repo", os.path.join(root, "repo")], check=True)
            subprocess.run(["cp", "-a", os.path.join(here, "harness"), os.path.join(root, "verif/harness")], check=True)
            shutil.copy(os.path.join(here, "KNOWN_FINDINGS.txt"), os.path.join(root, "verif"))
            q.put(root)
        count = {}
        with ThreadPoolExecutor(int(opt["-j"])) as ex:
            for m, res, more in ex.map(lambda m: one(q, m), ms):
                count[res] = count.get(res, 0) + 1
                if opt["--skip"]:
                    open(opt["--skip"], "a").write(f"{name(m)} = {res}\n")
                if more:
                    print(res, name(m), "\n ", more, flush=True)
        print(count)
    finally:
        shutil.rmtree(top)

main()
