#!/usr/bin/env python3
"""mkplant.py SPECFILE: creates seeded/<id>/ from a python file defining plants via bug(...)."""
import json, os, subprocess, sys
R = "/tmp/plant/repo"
DEMO = '''#!/bin/bash
# run with cwd = the built repository
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
inc="-I$PWD/include -I$PWD/_build/include"
for t in "$PWD"/thirdparty/*/include; do inc="$inc -I$t"; done
g++ -std=c++14 -O0 -w $inc "$here/demo.cpp" -o "$d/demo" -L"$PWD/_build" -Wl,--no-as-needed -ldynd -ldyndt -ldynd_abi -Wl,-rpath,"$PWD/_build" -lpthread || exit 3
timeout -k 5 60 "$d/demo"
rc=$?
echo "demo exit $rc"
exit $rc
'''
HEAD = '''#include <dynd/array.hpp>
#include <dynd/array_range.hpp>
#include <dynd/callable.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/view.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/types/datashape_parser.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/string_type.hpp>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <iostream>
using namespace dynd;
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)
#define THROWS(x) do { bool t_ = false; try { x; } catch (const std::exception &) { t_ = true; } catch (const dynd_exception &) { t_ = true; } if (!t_) { printf("FAILED line %d: no error from %s\\n", __LINE__, #x); exit(1); } } while (0)
'''


def bug(id, prop, edits, demo, needs, breaks, head=True):
    """edits: [(file, old, new)]"""
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        return
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    for f, old, new in edits:
        p = R + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "pattern occurs", s.count(old), "times in", f)
            sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", R, "diff"])
    open(d + "/patch.diff", "wb").write(diff)
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.cpp", "w").write((HEAD if head else "") + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)


exec(open(sys.argv[1]).read())
