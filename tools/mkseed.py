#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads JSON from stdin {"edits":[[file,old,new],...],"demo": C++ body,"needs","what"} and writes seeded/ID."""
import sys, json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, edits, demo, needs, what, pre=""):
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, old, new in edits:
        p = t + "/r/" + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", t + "/r", "diff"]))
    shutil.rmtree(t)
    open(d + "/demo.cpp", "w").write("#include <scn/scan.h>\n#include <scn/xchar.h>\n#include <scn/ranges.h>\n#include <scn/chrono.h>\n#include <cstdio>\n#include <deque>\n#include <vector>\n#include <string>\n" + pre + "\n#define CHECK(c) do { if (!(c)) { std::printf(\"FAILED: %s\\n\", #c); return 1; } } while (0)\nint main() {\n" + demo + "\n  return 0;\n}\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves as specified; nonzero: broken\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\ng++ -std=c++17 -g -DSCN_DISABLE_FAST_FLOAT=1 -DSCN_REGEX_BACKEND=0 -Iinclude "$d/demo.cpp" _build/libscn.a -o "$t/demo" || exit 3\ncd "$t" && timeout 60 ./demo\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    print(id, len(open(d + "/patch.diff").read().splitlines()))
