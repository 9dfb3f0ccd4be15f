import sys, os, json, subprocess, shutil
# mkbug(id, prop, file, old, new, needs, breaks, demo_cpp, extra cmd)
def mk(id, prop, edits, needs, breaks, demo_sh=None, demo_cpp=None, files=(), libs="-lgmp -pthread", srcs="c/naf.cpp c/splitparstr.cpp c/misc.cpp", flags=""):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    for e in edits:
        f, o, n = e[:3]
        p = "/repo/" + f
        t = open(p).read()
        if len(e) == 4:                       # e[3]: which occurrence
            parts = t.split(o)
            t = o.join(parts[:e[3] + 1]) + n + o.join(parts[e[3] + 1:])
        else:
            assert t.count(o) == 1, (id, f, t.count(o))
            t = t.replace(o, n)
        open(p, "w").write(t)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for f in files:
        shutil.copy("/verif/tools/" + f, d)
    if demo_cpp:
        open(d + "/demo.cpp", "w").write(demo_cpp)
        demo_sh = '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 9; trap \'rm -r "$t"\' EXIT\n' + \
            'g++ -std=c++11 -w %s -I"$d" -Ic "$d/demo.cpp" %s %s -o "$t/demo" || exit 9\ntimeout 120 "$t/demo"\n' % (flags, srcs, libs)
    open(d + "/demo.sh", "w").write(demo_sh)

PRIMES={"bn254r":21888242871839275222246405745257275088548364400416034343698204186575808495617,"secp":2**256-2**32-977,"gold":2**64-2**32+1,"p128":2**128-159,"p192":2**192-2**64-1}
def mkf(id, prop, edits, needs, breaks, demo_cpp, prime, backend):
    q = PRIMES[prime]
    inc = '#include "fr.hpp"\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n'
    sh = '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 9; trap \'rm -r "$t"\' EXIT\n'
    sh += 'node "$d/render.js" "$PWD" "$t" \'{"q":"%d","name":"Fr"}\' || exit 9\n' % q
    if backend == "x86":
        sh += 'nasm -felf64 "$t/fr.asm" -o "$t/fr.o" || exit 9\ng++ -std=c++11 -w -no-pie -DUSE_ASM -DARCH_X86_64 -I"$t" "$d/demo.cpp" "$t/fr.cpp" "$t/fr.o" -lgmp -o "$t/demo" || exit 9\n'
    else:
        sh += 'g++ -std=c++11 -w -I"$t" "$d/demo.cpp" "$t/fr.cpp" "$t/fr_generic.cpp" "$t/fr_raw_generic.cpp" -lgmp -o "$t/demo" || exit 9\n'
    sh += 'timeout 120 "$t/demo"\n'
    mk(id, prop, edits, needs, breaks, demo_sh=sh, files=["render.js"])
    open("/verif/seeded/%s/demo.cpp" % id, "w").write(inc + demo_cpp)
