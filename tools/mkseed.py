"""Library for tools/seeds_*.py: writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.c,meta.json} from source replacements."""
import os, json, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/seeddemo.XXXXXX) || exit 9
trap 'find "$T" -delete' EXIT
gcc -g -w -std=gnu99 -D_GNU_SOURCE %s -I/repo/include -I/repo/lib -I/repo $(pkg-config --cflags glib-2.0 json-c) "$D/demo.c" -o "$T/demo" \\
    /repo/lib/.libs/libsatyr_conv.a -ldw -lelf $(pkg-config --libs glib-2.0 json-c) -lrpm -lrpmio -lpopt -lstdc++ -ldl -lbfd -lopcodes -lm || exit 9
cd "$T" && timeout 60 ./demo
'''
HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <math.h>
#include <glib.h>
%s
#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "demo: expectation failed at line %%d: %%s\\n", __LINE__, #c); return 1; } } while (0)
'''


def mk(id, prop, edits, includes, body, needs, breaks, cflags=""):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    for f, reps in byfile.items():
        s0 = s = open(os.path.join(REPO, f)).read()
        for old, new in reps:
            assert s.count(old) == 1, (id, f, s.count(old), old)
            s = s.replace(old, new)
        patch += "".join(difflib.unified_diff(s0.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(patch)
    with open(os.path.join(d, "demo.c"), "w") as f:
        f.write(HEAD % "\n".join('#include "%s"' % i for i in includes) + body)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO_SH % cflags)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
    print(id)
