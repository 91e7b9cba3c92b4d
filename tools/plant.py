#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in a Python file (list BUGS) and confirms each one in a
scratch copy of /repo: the patch compiles, the stable tests pass, the demonstration passes without it and
fails with it.  Not used by any check.

  plant.py DEFS.py [id ...]
"""
import json, os, re, runpy, shutil, subprocess, sys

SCRATCH = "/tmp/plant"
REPO = SCRATCH + "/repo"
OUT = "/verif/seeded"

PROLOGUE = """#!/bin/bash
# Runs in the repository after a build; exit 0: the property holds, 1: it does not.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 \\
    CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
lib() { ls -t "$repo"/target/debug/deps/lib"$1"-*.rlib | head -1; }
"""

RUST = """rustc --edition 2021 -A warnings -o "$w/demo" "$here/demo.rs" -L dependency="$repo/target/debug/deps" \\
    --extern atsc="$(lib atsc)" --extern vsri="$(lib vsri)" --extern wavbrro="$(lib wavbrro)" || exit 99
cd "$w" && ATSC="$repo/target/debug/atsc" timeout 250 ./demo "$w" > "$w/out" 2>&1
rc=$?
tail -3 "$w/out"
[ $rc = 0 ] || exit 1
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def prepare():
    os.makedirs(SCRATCH, exist_ok=True)
    if not os.path.isdir(REPO):
        sh(f"cp -a /repo {REPO}")
    for s in ("build", "test"):
        t = open(f"/opt/vp/{s}.sh").read().replace("cd /repo", f"cd {REPO}")
        open(f"{SCRATCH}/{s}.sh", "w").write(t)
    # in step with /repo's HEAD
    sh(f"git -C {REPO} checkout -q -- . ; git -C {REPO} fetch -q /repo HEAD && git -C {REPO} reset -q --hard FETCH_HEAD")


def build():
    r = sh(f"bash {SCRATCH}/build.sh")
    return r.returncode == 0, r.stderr[-3000:]


def demo(d):
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    prepare()
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    base = {}
    for b in defs:
        if only and b["id"] not in only:
            continue
        bid = b["id"]
        try:
            sh(f"git -C {REPO} checkout -q -- .")
            for (f, old, new) in b["edits"]:
                p = f"{REPO}/{f}"
                t = open(p).read()
                if t.count(old) != 1:
                    raise Exception(f"{f}: {t.count(old)} matches of {old!r}")
                open(p, "w").write(t.replace(old, new))
            diff = sh(f"git -C {REPO} diff").stdout
            # which removed lines are of the original repository
            orig = False
            for (f, old, new) in b["edits"]:
                o = sh(f"git -C {REPO} show cf903e9:{f}").stdout.splitlines()
                for l in re.findall(r"^-(?!--)(.*)$", sh(f"git -C {REPO} diff -U0 -- {f}").stdout, re.M):
                    if l.strip() and l in o:
                        orig = True
            if not orig:
                raise Exception("no line of the original repository is changed")
            d = f"{SCRATCH}/d/{bid}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            body = PROLOGUE
            if "rust" in b:
                open(f"{d}/demo.rs", "w").write(b["rust"])
                body += RUST
            else:
                body += b["sh"]
            open(f"{d}/demo.sh", "w").write(body)
            ok, err = build()
            if not ok:
                raise Exception("does not build\n" + err)
            r = sh(f"bash {SCRATCH}/test.sh {SCRATCH}/t.json")
            res = json.load(open(f"{SCRATCH}/t.json"))
            passed = set(res.get("passed", []))
            missing = [t for t in stable if t not in passed]
            if missing:
                raise Exception("fails the tests: " + ", ".join(missing[:6]))
            rc1, out1 = demo(d)
            sh(f"git -C {REPO} checkout -q -- .")
            ok, err = build()
            rc0, out0 = demo(d)
            if rc0 != 0 or rc1 != 1:
                raise Exception(f"demonstration: {rc0} without, {rc1} with the change\n--0--{out0}\n--1--{out1}")
            open(f"{d}/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(f"{d}/meta.json", "w"), indent=1)
            shutil.rmtree(f"{OUT}/{bid}", ignore_errors=True)
            shutil.copytree(d, f"{OUT}/{bid}")
            print(f"{bid}: kept", flush=True)
        except Exception as e:
            print(f"{bid}: REJECTED {e}", flush=True)
    sh(f"git -C {REPO} checkout -q -- .")


main()
