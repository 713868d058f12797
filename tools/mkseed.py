"""developer tool: python3 mkseed.py ID property 'needs' 'what' demo.cpp file 'old' 'new' [file old new ...]
creates /verif/seeded/ID from a textual edit of /repo (which is left unchanged)."""
import sys, os, subprocess, json, shutil, tempfile
id, prop, needs, what, demo = sys.argv[1:6]
ed = sys.argv[6:]
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp()
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
for i in range(0, len(ed), 3):
    p = w + "/r/src/GTMesh/" + ed[i]
    s = open(p).read()
    assert s.count(ed[i + 1]) == 1, (ed[i], s.count(ed[i + 1]))
    open(p, "w").write(s.replace(ed[i + 1], ed[i + 2]))
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True))
subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
shutil.rmtree(w)
shutil.copy(demo, d + "/demo.cpp")
if "gv_mesh.hpp" in open(demo).read():
    shutil.copy("/verif/harness/gv_mesh.hpp", d)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# compiles demo.cpp against ./src and runs it; nonzero: the property is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -w -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -Isrc -I"$D" "$D/demo.cpp" -o "$T/demo" -lstdc++fs || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
''')
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
