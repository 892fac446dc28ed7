#!/usr/bin/env python3
"""mkseed.py < SPEC : makes seeded/<id>/ from a description.

id, property, needs, breaks lines, then '--- FILE' with old/---->/new blocks,
then '--- demo' with a C++ program (an optional '// flags: ...' line)."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Compiles the program beside this file against the repository and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
%(cxx)s -std=c++17 -g -w -pthread -Iinclude -I_build -Ilib -include cstdint -include cstdio -include cstdlib \\
  -include type_traits -include utility -include iterator %(flags)s "$here/demo.cpp" %(srcs)s -o "$d/demo" || { rmdir "$d"; exit 3; }
(cd "$d" && timeout 120 ./demo)
rc=$?
rm -f "$d"/*
rmdir "$d"
[ $rc -eq 0 ] && echo "demo: passed" || echo "demo: failed ($rc)"
exit $rc
"""
NODE = """#!/bin/bash
# Builds the Node.js socket of the repository with the application beside this
# file and runs demo.js.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
g++ -std=c++17 -g -w -O1 -fPIC -shared -fsanitize=address -I/usr/include/node -Iinclude -I_build -include cstdint -include cstdio \\
  -DNODE_GYP_MODULE_NAME=bclSocket lib/Socket/NodeJSSocket/NodeJSSocket.cpp "$here/demo.cpp" -o "$d/bclSocket.node" || { rmdir "$d"; exit 3; }
LD_PRELOAD=$(g++ -print-file-name=libasan.so) ASAN_OPTIONS=detect_leaks=0 timeout 120 node --expose-gc "$here/demo.js" "$d/bclSocket.node"
rc=$?
rm -f "$d"/*
rmdir "$d"
[ $rc -eq 0 ] && echo "demo: passed" || echo "demo: failed ($rc)"
exit $rc
"""
for spec in re.split(r"^=====+\n", sys.stdin.read(), flags=re.M):
    if not spec.strip():
        continue
    parts = re.split(r"^--- (.*)\n", spec, flags=re.M)
    head = dict(re.match(r"(\w+): (.*)", l).groups() for l in parts[0].strip().split("\n"))
    top = tempfile.mkdtemp(dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", top + "/r"])
        demo, script = "", ""
        for name, body in zip(parts[1::2], parts[2::2]):
            if name == "demo":
                demo = body
                continue
            if name == "demo.js":
                script = body
                continue
            p = top + "/r/" + name
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            for blk in re.split(r"^====\n", body, flags=re.M):
                old, new = re.split(r"^---->\n", blk, flags=re.M)
                if s.count(old) != 1:
                    sys.exit("%s: %d matches of:\n%s" % (head["id"], s.count(old), old))
                s = s.replace(old, new)
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        diff = subprocess.check_output(["git", "-C", top + "/r", "diff"])
    finally:
        shutil.rmtree(top)
    d = V + "/seeded/" + head["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    m = re.search(r"^// flags: (.*)$", demo, re.M)
    c = re.search(r"^// cxx: (.*)$", demo, re.M)
    r = re.search(r"^// srcs: (.*)$", demo, re.M)
    open(d + "/demo.cpp", "w").write(demo)
    if script:
        open(d + "/demo.js", "w").write(script)
    open(d + "/demo.sh", "w").write(NODE if script else DEMO % dict(flags=m.group(1) if m else "-fsanitize=address,undefined", cxx=c.group(1) if c else "g++", srcs=r.group(1) if r else ""))
    json.dump({"property": head["property"], "needs": head["needs"], "what_it_breaks": head["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
    print("made", head["id"])
