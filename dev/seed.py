#!/usr/bin/env python3
"""Development aid: plants, demonstrates and tries bugs.  Not used by any check.
  seed.py make FILE.py [ID..]   FILE.py defines BUGS: id -> dict(property, needs, breaks, edits=[(path, old, new)], demo=(kind, text))
  seed.py try ID.. [--all]  applies each to /repo, runs its property's quick check (or --prop P), undoes it
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDED = os.path.join(VERIF, "seeded")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    assert sh(f"git -C {REPO} checkout -- . && git -C {REPO} status --porcelain").stdout == ""


DEMO_WS = '''#!/bin/bash
# A small program against the crates as they are in /repo: exit 0 if the property holds, nonzero otherwise.
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
. /opt/vp/env.sh >/dev/null 2>&1
mkdir -p "$D/ws/demo/src"
cp -a /opt/vp/ws/. "$D/ws/"
cp "$HERE/demo.rs" "$D/ws/demo/src/main.rs"
cat > "$D/ws/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
vercre-core = {{ path = "../crates/core" }}
vercre-dif-exch = {{ path = "../crates/dif-exch" }}
vercre-macros = {{ path = "../crates/macros" }}
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"
anyhow = "1"
T
sed -i 's#^members = \\[#members = ["demo", #' "$D/ws/Cargo.toml"
cd "$D/ws" && export CARGO_TARGET_DIR="$D/target" && {run}
'''


DEMO_KIT = '''#!/bin/bash
# Runs a short history against the crates as they are in /repo: exit 0 if the property holds, nonzero otherwise.
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
cp -a "$HERE/kit" "$D/kit"
VERIF_WORK="$D/work" python3 "$HERE/demo.py" "$D/kit"
'''
KIT_PY = '''import json, subprocess, sys
sys.path.insert(0, sys.argv[1] + "/lib")
import ws
CASES = json.loads(r"""{cases}""")
w = ws.layout(["{driver}"])
subprocess.run(["cargo", "build", "--quiet", "-p", "drv-{driver}"], cwd=w, env=ws.env(), check=True)
p = subprocess.run([ws.WORK + "/target/debug/drv-{driver}"], input="\\n".join(map(json.dumps, CASES)) + "\\n", capture_output=True, text=True, timeout=60)
ans = [json.loads(x[x.index("\x1e") + 1:]) for x in p.stdout.splitlines() if "\x1e" in x]
assert len(ans) == len(CASES), p.stderr
{check}
'''


def kit(d, driver, cases, check):
    k = os.path.join(d, "kit")
    os.makedirs(k + "/lib")
    shutil.copy(f"{VERIF}/lib/ws.py", k + "/lib/ws.py")
    shutil.copytree(f"{VERIF}/harness/standins", k + "/harness/standins")
    for x in ("common", driver):
        shutil.copytree(f"{VERIF}/harness/drivers/{x}", f"{k}/harness/drivers/{x}")
    open(os.path.join(d, "demo.py"), "w").write(KIT_PY.format(cases=json.dumps(cases), driver=driver, check=check))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_KIT)


def owners():
    """lines the working tree changes that were not the original repository's"""
    out, f = [], None
    for line in sh(f"git -C {REPO} diff -U0").stdout.splitlines():
        if line.startswith("--- "):
            f = line[6:]
        elif line.startswith("@@"):
            a, _, k = line.split()[1][1:].partition(",")
            if int(k or 1):
                b = sh(f"git -C {REPO} blame -s -L {a},+{k or 1} HEAD -- {f}").stdout
                out += [x for x in b.splitlines() if not x.startswith("^")]
    return out


def make(path, only):
    ns = {}
    exec(open(path).read(), ns)
    for i, b in ns["BUGS"].items():
        if only and i not in only:
            continue
        clean()
        d = os.path.join(SEEDED, i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        files = []
        if b.get("files"):
            for n, t in b["files"].items():
                with open(os.path.join(d, n), "w") as f:
                    f.write(t)
        kind, text = b["demo"]
        if kind == "refused":
            open(os.path.join(d, "demo.rs"), "w").write(text[0])
            open(os.path.join(d, "refused.rs"), "w").write(text[1])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_WS.format(
                run='cargo build -q --offline -p demo || exit 1\ncp "$HERE/refused.rs" demo/src/main.rs\n! cargo build -q --offline -p demo'))
        elif kind == "kit":
            kit(d, *text)
        elif kind in ("ws", "macro"):
            open(os.path.join(d, "demo.rs"), "w").write(text)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_WS.format(run="cargo run -q --offline -p demo"))
        else:
            open(os.path.join(d, "demo.sh"), "w").write(text)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        tmp = f"/tmp/seed-{i}"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(d, tmp)
        ok = sh(f"bash {tmp}/demo.sh", cwd=REPO)
        for p, old, new in b["edits"]:
            p = os.path.join(REPO, p)
            s = open(p).read()
            assert s.count(old) == 1, (i, p, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {REPO} diff").stdout)
        added = [x for x in owners() if x]
        if added:
            print("    changes lines of ours:", added)
        build = sh("bash /opt/vp/build.sh")
        test = sh("bash /opt/vp/test.sh /tmp/o.json")
        bad = sh(f"bash {tmp}/demo.sh", cwd=REPO)
        clean()
        shutil.rmtree(tmp)
        passed = test.stdout.count("... ok")
        print(i, "demo clean", ok.returncode, "build", build.returncode, "tests", passed, "demo patched", bad.returncode)
        if ok.returncode:
            print(ok.stdout[-1500:], ok.stderr[-1500:])
        if kind == "kit":
            print("   ", (bad.stdout + bad.stderr).strip().splitlines()[-1:])
        if build.returncode or passed < 6 or bad.returncode == 0:
            print(build.stderr[-1500:], test.stdout[-800:] if passed < 6 else "", bad.stdout[-500:])


def attempt(ids, prop=None):
    for i in ids:
        d = os.path.join(SEEDED, i)
        p = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
        clean()
        r = sh(f"git -C {REPO} apply {d}/patch.diff")
        assert r.returncode == 0, r.stderr
        r = sh(f"VERIF_SEED=1 python3 run.py {p} quick", cwd=VERIF)
        clean()
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        print(i, p, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", r.stderr[-600:] if r.returncode not in (0, 1) else "")


if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "make":
        make(a[0], a[1:])
    else:
        prop = None
        if "--prop" in a:
            k = a.index("--prop")
            prop = a[k + 1]
            a = a[:k] + a[k + 2:]
        attempt(sorted(os.listdir(SEEDED)) if "--all" in a else a, prop)
