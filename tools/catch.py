#!/usr/bin/env python3
"""Runs the checks against the planted bugs, in scratch copies of /repo and of the harness.

usage: catch.py [-j N] [--all SCALE] [id...]
Prints for each bug whether the check of its property reports it; with --all also which others do
when run at the given scale.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs, scale = 2, None
while args and args[0].startswith("-"):
    o = args.pop(0)
    if o == "-j":
        jobs = int(args.pop(0))
    elif o == "--all":
        scale = args.pop(0)
ids = args or sorted(os.listdir(os.path.join(here, "seeded")))
ALL = [f"C{i:02}" for i in range(1, 32)]
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           RUSTFLAGS="--cfg conch_verif", RUST_BACKTRACE="0", VERIF_SEED="1", VERIF_TIER="quick")
env.pop("CARGO_TARGET_DIR", None)

def sh(cmd, cwd, **more):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(env, **more), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")

def run(root, cid, scale):
    more = {"HARNESS_ROOT": os.path.join(root, "verif")}
    if scale:
        more["HARNESS_SCALE"] = scale
    r = sh(f"ulimit -v 16000000; timeout 900 verif/harness/target/release/harness run {cid}", root, **more)
    v = re.search(rf"^VIOLATION property={cid} .*", r.stdout, re.M)
    return r.returncode, bool(v), r.stdout

def one(q, bug):
    root = q.get()
    try:
        repo = os.path.join(root, "repo")
        sh("git checkout -q -- .", repo)
        meta = json.load(open(os.path.join(here, "seeded", bug, "meta.json")))
        r = sh(f"git apply {here}/seeded/{bug}/patch.diff", repo)
        if r.returncode:
            return f"{bug}: patch fails {r.stdout}"
        r = sh("cargo build --release --locked", os.path.join(root, "verif/harness"))
        if r.returncode:
            return f"{bug}: build fails\n{r.stdout[-2000:]}"
        p = meta["property"]
        rc, v, out = run(root, p, None)
        res = "caught" if rc == 1 and v else f"MISSED (rc {rc})"
        line = f"{bug} {p} {res}"
        if scale:
            others = [c for c in ALL if c != p and run(root, c, scale)[:2] == (1, True)]
            line += " also: " + " ".join(others)
        return line
    finally:
        q.put(root)

def main():
    top = tempfile.mkdtemp(prefix="catch-")
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(1))
    try:
        q = Queue()
        for i in range(jobs):
            root = os.path.join(top, str(i))
            os.makedirs(os.path.join(root, "verif/evidence"))
            os.makedirs(os.path.join(root, "verif/replay"))
            subprocess.run(["cp", "-a", "/repo", os.path.join(root, "repo")], check=True)
            subprocess.run(["cp", "-a", os.path.join(here, "harness"), os.path.join(root, "verif/harness")], check=True)
            shutil.copy(os.path.join(here, "KNOWN_FINDINGS.txt"), os.path.join(root, "verif"))
            q.put(root)
        with ThreadPoolExecutor(jobs) as ex:
            for line in ex.map(lambda b: one(q, b), ids):
                print(line, flush=True)
    finally:
        shutil.rmtree(top)

main()
