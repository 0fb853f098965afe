"""Authoring of planted bugs: seed(id, property, edits, demo C source, needs, breaks) -> seeded/<id>/ ."""
import os, subprocess, json
REPO = "/tmp/sl"; OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d) || exit 9
B=/repo/%s
gcc -w -g %s -I/repo/include -I$B/include -I/usr/include/cjson "$H/demo.c" -o "$D/demo" -L$B -lnostr -Wl,-rpath,$B %s -lpthread || { rm -rf "$D"; exit 8; }
cd "$D" && timeout 120 ./demo; rc=$?
rm -rf "$D"; exit $rc
"""
PRE = """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
#include "nostr_features.h"
#include "nostr.h"
#include "nostr_relay_protocol.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
"""
def fresh():
    """edits are made in a scratch clone, so that /repo stays as it is"""
    subprocess.run("rm -rf /tmp/sl && git clone -q /repo /tmp/sl", shell=True, check=True)
fresh()
ROOT = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
def foreign(diff):
    """lines a patch removes that our own commits wrote; "only adds" when it removes none"""
    import re
    bad = []; n = 0; f = None; k = 0
    for l in diff.split("\n"):
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): k = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            n += 1; b = subprocess.run(["git", "-C", REPO, "blame", "-l", "-s", "-L", "%d,%d" % (k, k), "HEAD", "--", f], capture_output=True, text=True).stdout
            if b.split()[0].lstrip("^")[:39] != ROOT[:39]: bad.append("%s:%d" % (f, k))
            k += 1
        elif l.startswith(" "): k += 1
    return bad or (["only adds"] if not n else [])
FULL = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; builds the library with all NIPs over the noscrypt stand-in beside this script
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d) || exit 9
I="-I$H -I/repo/include -I/repo/src -I/usr/include/cjson"
for s in $(find /repo/src -name '*.c') "$H/noscrypt_shim.c" "$H/demo.c"; do echo $s; done | xargs -P8 -I{} sh -c "gcc -std=gnu99 -g -O1 -w %s $I -c {} -o $D/\\$(basename {}).o || exit 255" || { rm -rf "$D"; exit 8; }
gcc %s -o $D/demo $D/*.o %s -lcjson -lutf8proc -lsecp256k1 -lssl -lcrypto -lwebsockets -lpthread -lm || { rm -rf "$D"; exit 8; }
cd "$D" && timeout 120 ./demo; rc=$?
rm -rf "$D"; exit $rc
"""
def seed(id, prop, edits, demo, needs, breaks, cflags="", libs="", build="_build"):
    d = os.path.join(OUT, id); os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", REPO, "diff", "--quiet"]).returncode == 0, "repo dirty"
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f); s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
        own = foreign(diff)
        if own: print("seed", id, "touches lines of our own commits:", own)
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if build == "full":
        import shutil
        shutil.copy("/verif/shim/noscrypt/noscrypt.h", d); shutil.copy("/verif/build/obj-full-address/include/nostr_features.h", d); shutil.copy("/verif/shim/noscrypt_shim.c", d)
        open(os.path.join(d, "demo.sh"), "w").write(FULL % (cflags, cflags, libs))
    else: open(os.path.join(d, "demo.sh"), "w").write(DEMO % (build, cflags, libs))
    open(os.path.join(d, "demo.c"), "w").write(PRE + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("seed", id)
