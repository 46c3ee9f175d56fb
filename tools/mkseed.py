"""mkseed.py: makes /verif/seeded/<id>/ from a description (python file defining SEEDS: list of dicts
id, property, file, old, new (or edits=[(file,old,new)]), needs, breaks, main (SPVM source; one script with class {...}), want (expected stdout) or demo (shell))."""
import sys, os, json, subprocess, shutil, tempfile, importlib.util
sp = importlib.util.spec_from_file_location("d", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
DEMO = """#!/bin/bash
# runs demo.spvm with the built SPVM and compares what it prints with expected.txt
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME="$T" SPVM_CC_QUIET=1
cd "$T"; cp "$H"/*.spvm .; [ -d "$H/lib" ] && cp -r "$H/lib" .
timeout 200 perl -I/repo/blib/lib -I/repo/blib/arch /repo/script/spvm -B "$T/.spvm_build" -I "$T/lib" demo.spvm > out.txt 2> err.txt
rc=$?
if [ $rc = %d ] && cmp -s out.txt "$H/expected.txt"; then exit 0; fi
echo "rc $rc"; diff "$H/expected.txt" out.txt; tail -20 err.txt
exit 1
"""
only = sys.argv[2:]
for s in m.SEEDS:
    if only and s["id"] not in only:
        continue
    d = "/verif/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    patch = b""
    for f, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
        src = open("/repo/" + f).read()
        n = s.get("count", 1)
        assert src.count(old) == n or s.get("first"), (s["id"], f, src.count(old))
        t = tempfile.mkdtemp()
        os.makedirs(os.path.dirname(t + "/b/" + f)); os.makedirs(os.path.dirname(t + "/a/" + f))
        open(t + "/a/" + f, "w").write(src); open(t + "/b/" + f, "w").write(src.replace(old, new, 1))
        patch += subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE).stdout
        shutil.rmtree(t)
    open(d + "/patch.diff", "wb").write(patch)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo" in s:
        open(d + "/demo.sh", "w").write(s["demo"])
    else:
        open(d + "/demo.sh", "w").write(DEMO % s.get("rc", 0))
        open(d + "/demo.spvm", "w").write(s["main"])
        open(d + "/expected.txt", "w").write(s["want"])
    for f, t in s.get("files", {}).items():
        os.makedirs(os.path.dirname(d + "/" + f), exist_ok=True); open(d + "/" + f, "w").write(t)
    print(s["id"], subprocess.run(["git", "apply", "--check", d + "/patch.diff"], cwd="/repo").returncode)
