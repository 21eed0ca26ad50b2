#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the descriptions in tools/bugs.py.

usage: plant.py [id...]    Each bug is made in a scratch copy of /repo, where it has to build
and pass the tests, and its demonstration has to pass without and to fail with it.
"""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS

DEMO_SH = """#!/bin/bash
# Exits with 0 if the library behaves, with 1 if it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
conch-parser = { path = "$repo" }
void = "1"
EOF
cd "$dir" && cargo build --offline >"$dir/log" 2>&1 || { cat "$dir/log"; exit 2; }
timeout 60 "$dir/target/debug/demo"
"""

PRELUDE = """#![allow(unused)]
use conch_parser::ast::builder::*;
use conch_parser::ast::*;
use conch_parser::lexer::Lexer;
use conch_parser::parse::*;
use conch_parser::token::Token;

/// All commands of a program and the error it ends with, if any.
fn parse(src: &str) -> (Vec<TopLevelCommand<String>>, Option<String>) {
    let mut cmds = Vec::new();
    for r in DefaultParser::new(Lexer::new(src.chars())) {
        match r {
            Ok(c) => cmds.push(c),
            Err(e) => return (cmds, Some(format!("{:?}", e))),
        }
    }
    (cmds, None)
}

fn toks(src: &str) -> Vec<Token> {
    Lexer::new(src.chars()).collect()
}

/// The last command of a program.
fn one(src: &str) -> TopLevelCommand<String> {
    parse(src).0.pop().unwrap()
}

fn same(a: &str, b: &str) {
    assert_eq!(parse(a), parse(b), "{:?} and {:?}", a, b);
}

fn differ(a: &str, b: &str) {
    assert_ne!(parse(a), parse(b), "{:?} and {:?}", a, b);
}

fn accepted(a: &str) {
    assert_eq!(parse(a).1, None, "{:?}", a);
}

fn error(a: &str, e: &str) {
    assert_eq!(parse(a).1.as_deref(), Some(e), "{:?}", a);
}

fn contains(a: &str, what: &str) {
    let p = format!("{:?}", parse(a));
    assert!(p.contains(what), "{:?} does not have {:?}: {}", a, what, p);
}

fn lacks(a: &str, what: &str) {
    let p = format!("{:?}", parse(a));
    assert!(!p.contains(what), "{:?} has {:?}: {}", a, what, p);
}

"""

def sh(cmd, cwd, env=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="1.77.2-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)

def plant(b, scratch):
    repo = os.path.join(scratch, "repo")
    out = os.path.join(scratch, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    sh("git checkout -q -- .", repo)
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{s.count(old)} places for {old!r}"
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", repo).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    main = PRELUDE + b.get("items", "") + "fn main() {\n" + b["demo"].strip("\n") + "\n}\n"
    open(os.path.join(out, "main.rs"), "w").write(main)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    r2 = sh("cargo test --workspace --offline", repo)
    if r2.returncode:
        return "tests: " + "\n".join(re.findall(r"^test .*FAILED|^error.*", r2.stdout, re.M))[:600]
    d = sh("bash ../out/demo.sh", repo)
    if d.returncode == 0:
        return "demo passes with the bug"
    if d.returncode == 2:
        return "demo does not build: " + d.stdout[-1500:]
    why = d.stdout[-300:]
    sh("git checkout -q -- .", repo)
    d = sh("bash ../out/demo.sh", repo)
    if d.returncode:
        return "demo fails without the bug: " + d.stdout[-500:]
    dest = os.path.join(here, "seeded", b["id"])
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(out, dest)
    return "ok"

def main():
    ids = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.run(["cp", "-a", "/repo", os.path.join(scratch, "repo")], check=True)
        for b in BUGS:
            if ids and b["id"] not in ids:
                continue
            if not ids and os.path.exists(os.path.join(here, "seeded", b["id"], "patch.diff")):
                continue
            print(b["id"], plant(b, scratch), flush=True)
    finally:
        shutil.rmtree(scratch)

main()
