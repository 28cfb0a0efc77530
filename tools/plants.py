#!/usr/bin/env python3
"""Plants bugs: writes /verif/seeded/<id>/, confirms demonstrations, and runs the existing tests and the checks against them.

  plants.py write [id..]    patch.diff, demo.sh, meta.json; the demonstration is run without and with the patch
  plants.py tests [id..]    the repository's stable tests with the patch
  plants.py checks [-a] [id..]  this property's check (-a: every check) with the patch; the table goes to seeded/RESULTS.md
"""
import json, os, subprocess, sys, tempfile, shutil, glob, time
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
SEEDED = os.path.join(ROOT, "seeded")
KIT = os.path.join(ROOT, "tools/kit")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plantlist import PLANTS
from box import Box

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def kit():
    d = tempfile.mkdtemp(prefix="kit.")
    for f in ["Cargo.toml", "src/main.rs"]:
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        shutil.copy(os.path.join(KIT, f), os.path.join(d, f))
    for f in ["host.rs", "svm.rs", "world.rs"]:
        shutil.copy(os.path.join(ROOT, "mc/src", f), os.path.join(d, "src", f))
    shutil.copy(os.path.join(ROOT, "mc/Cargo.lock"), d)
    for v in ["pinocchio", "solana-msg"]:
        shutil.copytree(os.path.join(ROOT, "vendor", v), os.path.join(d, "vendor", v))
    shutil.copy(os.path.join(ROOT, "bin/rustc-wrap.sh"), d)
    out = os.path.join(tempfile.gettempdir(), "kit.tar.gz")
    sh(f"tar --sort=name --owner=0 --group=0 --mtime=@0 -cf - -C {d} . | gzip -n > {out}")
    shutil.rmtree(d)
    return out

def write(p, kitfile):
    d = os.path.join(SEEDED, p["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = tempfile.mkdtemp(prefix="wt.")
    os.rmdir(wt)
    sh(f"git -C /repo worktree add --detach {wt} HEAD")
    try:
        if "scenario" in p:
            shutil.copy(kitfile, os.path.join(d, "kit.tar.gz"))
            shutil.copy(os.path.join(KIT, "demo.sh"), d)
            open(os.path.join(d, "scenario.rs"), "w").write("use crate::*;\nuse crate::svm::*;\nuse crate::world::*;\nuse Amt::*;\nuse Op::*;\n\npub fn scenario() {\n" + p["scenario"].strip("\n") + "\n}\n")
        elif "rust" in p:
            open(os.path.join(d, "scenario.rs"), "w").write(p["rust"].lstrip())
            t = open(os.path.join(KIT, "rust.sh")).read().replace("@FEATURES@", p.get("features", "")).replace("@DEPS@", p.get("deps", ""))
            open(os.path.join(d, "demo.sh"), "w").write(t)
        elif "node" in p:
            open(os.path.join(d, "scenario.mjs"), "w").write(p["node"].lstrip())
            shutil.copy(os.path.join(KIT, "node.sh"), os.path.join(d, "demo.sh"))
        elif "client" in p or "operator" in p:
            kind = "client" if "client" in p else "operator"
            head = "import assert from 'node:assert';\n" + ("import { client, connection } from './client.mjs';\nconst c = await client(process.argv[2]);\n" if kind == "client" else "import { after, mint, operate, owned, spl, tokens, web3, ORCA, PROGRAM, XORCA } from './operator.mjs';\nconst repo = process.argv[2];\n")
            open(os.path.join(d, "scenario.mjs"), "w").write(head + p[kind].lstrip())
            shutil.copy(os.path.join(KIT, "node.sh"), os.path.join(d, "demo.sh"))
            shutil.copy(os.path.join(KIT, f"js/{kind}.mjs"), d)
            shutil.copy(os.path.join(ROOT, "js/bundle.mjs"), d)
            shutil.copytree(os.path.join(ROOT, "js/stubs"), os.path.join(d, "stubs"))
        else:
            for name, text in p["files"].items():
                if callable(text): text = text()
                open(os.path.join(d, name), "w").write(text)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh(f"bash {d}/demo.sh", cwd=wt, timeout=300)
        for f, old, new in p["edits"]:
            path = os.path.join(wt, f)
            s = open(path).read()
            assert s.count(old) == 1, (p["id"], f, old, s.count(old))
            open(path, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {wt} diff").stdout)
        b = sh(f"bash {d}/demo.sh", cwd=wt, timeout=300)
        why = next((l for l in (b.stdout + b.stderr).splitlines() if l.strip() and not l.startswith(("thread", "stack"))), "")
        ok = a.returncode == 0 and b.returncode not in (0, 8, 9)
        print(f"{p['id']:34} demo unpatched {a.returncode}, patched {b.returncode} {'ok' if ok else 'PROBLEM'}  {why[:150]}", flush=True)
        if not ok:
            print((a.stdout + a.stderr)[-600:], (b.stdout + b.stderr)[-600:])
    finally:
        sh(f"git -C /repo worktree remove --force {wt}; git -C /repo worktree prune")

box = None
def patched(p, f, with_target=False):
    global box
    box = box or Box(with_target)
    box.apply(os.path.join(SEEDED, p["id"], "patch.diff"))
    return f()

def tests(p):
    def f():
        out = tempfile.mktemp(suffix=".json")
        env = {k: v for k, v in os.environ.items() if k not in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN")}
        b = box.run("cd /repo && bash /opt/vp/build.sh", env=env)
        if b.returncode: return "build fails: " + b.stderr[-600:]
        t = box.run(f"cd /repo && bash /opt/vp/test.sh {out}", env=env)
        got = json.load(open(out)); os.unlink(out)
        base = json.load(open("/opt/vp/BASELINE.json"))
        return got, base
    r = patched(p, f, True)
    if isinstance(r, str):
        print(p["id"], r); return
    got, base = r
    flat = lambda x: set(x.get("passed", x.get("stable", x.get("passing", [])))) if isinstance(x, dict) else set(x)
    missing = flat(base) - flat(got)
    print(f"{p['id']:34} tests: {'all stable tests pass' if not missing else 'FAIL ' + str(sorted(missing))} ({len(flat(base))})", flush=True)

def checks(p, every):
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    claimed = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    todo = [i for i in ids if i in claimed] if every else [p["property"]]
    def f():
        res = {}
        for i in todo:
            t0 = time.time()
            r = box.run(f"./run.sh {i} quick")
            v = f"VIOLATION property={i} " in r.stdout
            res[i] = "caught" if r.returncode == 1 and v else "quiet" if r.returncode == 0 and not v else f"rc {r.returncode}"
            if i == p["property"]:
                why = next((l for l in r.stdout.splitlines() if l.startswith(i + ":")), r.stdout[-300:] + r.stderr[-300:])
                print(f"{p['id']:34} {i}: {res[i]} {time.time()-t0:.0f}s  {why[:230]}", flush=True)
        return res
    res = patched(p, f)
    if every:
        print("      all:", ", ".join(k for k, v in res.items() if v == "caught"), "| odd:", {k: v for k, v in res.items() if v.startswith("rc")}, flush=True)
        path = os.path.join(SEEDED, "RESULTS.json")
        db = json.load(open(path)) if os.path.exists(path) else {}
        db[p["id"]] = {"property": p["property"], "caught_by": [k for k, v in res.items() if v == "caught"]}
        json.dump(db, open(path, "w"), indent=1, sort_keys=True)

mode = sys.argv[1]
rest = [a for a in sys.argv[2:] if a != "-a"]
sel = [p for p in PLANTS if not rest or p["id"] in rest]
if mode == "write":
    k = kit()
    from concurrent.futures import ThreadPoolExecutor
    for p in sel: write(p, k)
elif mode == "tests":
    for p in sel: tests(p)
elif mode == "checks":
    for p in sel: checks(p, "-a" in sys.argv)
if box:
    box.close()
