#!/usr/bin/env python3
"""mkseed(id, prop, [(file, old, new)...], demo_body, needs, breaks): write /verif/seeded/<id> and confirm it.

The patch is made in a scratch copy of /repo under /tmp; the demonstration is run on both the
clean and the patched copy, and the repository's own tests are built and run on the patched one
(only the direct unit test binary, see confirm_tests)."""
import os, subprocess, sys, shutil, json, textwrap

SEED = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on the code in the current directory; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d)
FI="-include cstring -include algorithm -include memory -include variant -include filesystem -include stdexcept -include functional"
clang++-18 -std=gnu++20 -O1 -w -maes -mpclmul %(extra)s $FI -Iinclude "$here/demo.cpp" src/*.cpp -o "$t/demo" -lpthread || { rm -rf "$t"; exit 99; }
( cd "$t" && timeout 200 ./demo )
rc=$?
rm -rf "$t"
exit $rc
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <span>
#include <array>
#include <cstdint>
#define CHECK(c) do { if (!(c)) { std::printf("property broken: %s\\n", #c); std::exit(1); } } while (0)
static inline std::string hex(std::span<const uint8_t> d) { std::string s; char b[3]; for (auto c : d) { snprintf(b, 3, "%02x", c); s += b; } return s; }
static inline std::vector<uint8_t> unhex(std::string s) { std::vector<uint8_t> v; for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((uint8_t)std::stoi(s.substr(i, 2), nullptr, 16)); return v; }
'''

def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)

def mkseed(id, prop, edits, demo, needs, breaks, extra='', hdr=None):
    d = f'{SEED}/{id}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/demo.sh', 'w').write(DEMO_SH % {'extra': extra})
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.cpp', 'w').write(PRE + textwrap.dedent(demo))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    w = f'/tmp/seedwt_{id}'
    shutil.rmtree(w, ignore_errors=True)
    sh(f'git -C /repo worktree prune; git clone -q /repo {w}', '/')
    r0 = sh(f'bash {d}/demo.sh', w)
    for f, o, n in edits:
        p = f'{w}/{f}'
        s = open(p).read()
        if s.count(o) < 1:
            print(id, 'EDIT NOT FOUND', f, repr(o)); return
        k = s.find(o)
        s = s[:k] + n + s[k+len(o):]
        open(p, 'w').write(s)
    open(f'{d}/patch.diff', 'wb').write(sh('git diff', w).stdout)
    r1 = sh(f'bash {d}/demo.sh', w)
    # the original lines must be the repository's, not ours
    ok = r0.returncode == 0 and r1.returncode not in (0, 99)
    tests = run_tests(w) if ok else None
    print(id, prop, 'clean', r0.returncode, 'patched', r1.returncode, 'tests', tests,
          '' if ok else (r0.stdout[-300:], r1.stdout[-300:]))
    shutil.rmtree(w, ignore_errors=True)

def run_tests(w):
    FI = "-include cstring -include algorithm -include memory -include variant -include filesystem -include stdexcept -include functional"
    cmd = f'bash /verif/tools/runtests.sh {w}'
    r = sh(cmd, w, 1200)
    return r.stdout.decode(errors='replace').strip()[-200:]
