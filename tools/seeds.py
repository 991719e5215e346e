#!/usr/bin/env python3
"""Plants bugs: makes /verif/seeded/<id>/ from the definitions in seeds_*.py and tries them out in a scratch copy of /repo.
usage: seeds.py make|check|both [id...]   (results of check are kept in seeds_results.json)"""
import glob, importlib.util, json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = os.environ.get("SEEDREPO", "/tmp/seedrepo")
DEMO = """#!/bin/bash
# Runs the script beside this file through the real code and compares what it does with what it has to do.
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DNDEBUG -DHAVE_OPENSSL=1 -Iinclude -Isrc -Isrc/stun -Isrc/sctp -I"$D" "$D"/*.cpp \\
    _build/libsrtc.a _build/src/stun/libsrtc_stun.a -lssl -lcrypto -lpthread -ldl -o "$T/demo"
cd "$T"
timeout 200 ./demo "$D/script.txt" "$T/trace" >/dev/null 2>&1
cmp "$T/trace" "$D/expected.txt"
"""
DEMOX = """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DNDEBUG -DHAVE_OPENSSL=1 -Iinclude -Isrc -Isrc/stun -Isrc/sctp -I"$D" "$D"/*.cpp \\
    _build/libsrtc.a _build/src/stun/libsrtc_stun.a -lssl -lcrypto -lpthread -ldl -o "$T/demo"
cd "$T"
timeout 200 ./demo 2>/dev/null
"""


def sh(cmd, cwd=None, check=True, timeout=1800, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    if check and r.returncode:
        raise SystemExit(f"{cmd}\n{r.stdout[-3000:]}\n{r.stderr[-3000:]}")
    return r


def sync():
    if not os.path.exists(COPY):
        sh(f"git clone -q /repo {COPY}")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd -e _build", COPY)
    build()


def build():
    env = open("/opt/vp/env.sh").read().replace("/repo", COPY)
    open("/tmp/seedenv.sh", "w").write(env)
    return sh(f". /tmp/seedenv.sh; configure >/dev/null 2>&1; /usr/bin/cmake --build {COPY}/_build -j8 --target srtc srtc_publish srtc_subscribe srtc_test",
              check=False)


def defs():
    out = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "seeds_*.py"))):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for d in m.SEEDS:
            out[d["id"]] = d
    return out


def apply(d):
    for f, old, new in d["edits"]:
        p = os.path.join(COPY, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"{d['id']}: {s.count(old)} matches in {f}")
        open(p, "w").write(s.replace(old, new))


def revert():
    sh("git checkout -q -- .", COPY)


def make(d):
    dst = os.path.join(VERIF, "seeded", d["id"])
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    if d.get("driver"):
        for f in ("common.h", "vclock.cpp", d["driver"] + ".cpp"):
            shutil.copy(os.path.join(VERIF, "harness", f), dst)
        for f in d.get("files", ()):
            shutil.copy(os.path.join(VERIF, "harness", f), dst)
        open(os.path.join(dst, "script.txt"), "w").write("\n".join(x.strip() for x in d["script"].strip().splitlines()) + "\n")
        demo = DEMO.replace('cmp "$T', f"sed -i -E '{d['mask']}' \"$T/trace\"\ncmp \"$T") if d.get("mask") else DEMO
        open(os.path.join(dst, "demo.sh"), "w").write(demo)
    else:
        for n, t in d["demo"].items():
            open(os.path.join(dst, n), "w").write(t)
        if d.get("vclock"):
            for f in ("common.h", "vclock.cpp"):
                shutil.copy(os.path.join(VERIF, "harness", f), dst)
        if "demo.sh" not in d["demo"]:
            open(os.path.join(dst, "demo.sh"), "w").write(DEMOX)
    os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    r = build()
    if r.returncode:
        raise SystemExit("clean build: " + r.stdout[-2000:])
    if d.get("driver"):
        sh(demo.replace('cmp "$T/trace" "$D/expected.txt"', 'cp "$T/trace" "$D/expected.txt"').replace('$(dirname "$0")', dst).replace("set -e\n", "set -e\n", 1), COPY, env=dict(os.environ, BASH_ENV=""))
    r = sh(f"bash {dst}/demo.sh", COPY, check=False)
    ok0 = r.returncode == 0
    apply(d)
    sh(f"git diff > {dst}/patch.diff", COPY)
    r = build()
    if r.returncode:
        revert()
        raise SystemExit(f"{d['id']} does not build: " + r.stdout[-3000:])
    t = sh(f"/usr/bin/ctest --test-dir {COPY}/_build -j8 --timeout 100", check=False)
    tests = "100% tests passed" in t.stdout
    r = sh(f"bash {dst}/demo.sh", COPY, check=False)
    revert()
    print(f"{d['id']}: demo clean={'ok' if ok0 else 'FAILS'} patched={'fails (good)' if r.returncode else 'PASSES'} tests={'pass' if tests else 'FAIL'}", flush=True)
    return ok0 and r.returncode != 0 and tests


def check(d):
    dst = os.path.join(VERIF, "seeded", d["id"])
    sh(f"git apply {dst}/patch.diff", COPY)
    r = sh(f"python3 {VERIF}/check.py {d['prop']} quick", VERIF, check=False, env=dict(os.environ, VERIF_REPO=COPY, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    revert()
    caught = r.returncode == 1 and f"VIOLATION property={d['prop']}" in r.stdout
    print(f"{d['id']}: {'caught' if caught else 'NOT CAUGHT rc=%d' % r.returncode} by {d['prop']}", flush=True)
    if not caught:
        print(r.stderr[-800:])
    p = os.path.join(VERIF, "tools", "seeds_results.json")
    res = json.load(open(p)) if os.path.exists(p) else {}
    res[d["id"]] = {"property": d["prop"], "caught": caught}
    json.dump(res, open(p, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    ds = defs()
    ids = sys.argv[2:] or list(ds)
    sync()
    for i in ids:
        d = [x for k, x in ds.items() if k == i or k.startswith(i)]
        for x in d:
            ok = make(x) if sys.argv[1] in ("make", "both") else True
            if ok and sys.argv[1] in ("check", "both"):
                check(x)
