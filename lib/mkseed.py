"""dev helper: create a seeded change. mk(id, prop, file, [(old,new)...], needs, breaks, cpp, flags)"""
import os, subprocess, json, shutil
DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
%sg++ -std=c++20 -O0 -w -fpermissive -pthread -I"$D" -Ilibdiskpp/include -Ilibdiskpp/contrib/triangle -Ilibdiskpp/contrib/jburkardt/include \\
    -isystem /usr/include/eigen3 -isystem /usr/include/lua5.4 "$D/demo.cpp" %s -o "$T/demo" || exit 2
cd "$T" && ./demo
'''
TRI = 'gcc -O0 -w -DTRILIBRARY -DREDUCED -DCDT_ONLY -Ilibdiskpp/contrib/triangle -c libdiskpp/contrib/triangle/triangle_mesher.c -o "$T/triangle.o" || exit 2\n'
LIBS = ("libdiskpp/src/common/util.cpp libdiskpp/src/common/mapped_file.cpp libdiskpp/contrib/jburkardt/src/triangle_dunavant_rule.cpp "
        "libdiskpp/contrib/jburkardt/src/jb_common.cpp libdiskpp/contrib/jburkardt/src/simplex_gm_rule.cpp libdiskpp/contrib/jburkardt/src/tetrahedron_arbq_rule.cpp")
def mk(id, prop, edits, needs, breaks, cpp, libs=False):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--short", "-uno"], capture_output=True, text=True).stdout.strip()
    try:
        for file, old, new, *k in edits:
            p = "/repo/" + file
            s = open(p).read()
            n = s.count(old)
            assert n == 1 or (k and n > k[0]), (file, n, old)
            parts = s.split(old)
            i = k[0] if k else 0
            open(p, "w").write(old.join(parts[:i + 1]) + new + old.join(parts[i + 1:]))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % ((TRI if libs == "tri" else ""), (LIBS if libs else "") + (" $T/triangle.o" if libs == "tri" else "")))
    open(d + "/demo.cpp", "w").write(cpp)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
