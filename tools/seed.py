"""Development aid: make a planted bug (seeded/<id>) and try it.
   seed.py try ID...   : demo on the clean tree, patched build, demo, the check; /repo is restored"""
import os, sys, subprocess, json, textwrap, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
SH = '''#!/bin/sh
# run with cwd = the repository, after the build
d=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' 0
r=$(pwd)
B=$r/_build/src
cp "$d"/demo.c "$t" || exit 2
cd "$t" || exit 2
gcc -std=gnu17 -w -g -no-pie -fno-builtin -DHAS_CLOCK_GETTIME %(cflags)s -I$B/%(inc)s -I/usr/include/tcl8.6 -o demo demo.c %(objs)s \\
  -Wl,--unresolved-symbols=ignore-all -Wl,-z,muldefs -Wl,--gc-sections -lpthread -lm %(libs)s >cc.log 2>&1 || { cat cc.log; exit 0; }
timeout 60 ./demo
rc=$?
echo "demo: exit $rc"
exit $rc
'''
def mk(id, prop, edits, needs, what, demo, objs="", libs="", cflags="", inc="src"):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert sh("git status --porcelain", cwd=R).stdout == "", "repo not clean"
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=R).stdout
    finally:
        sh("git checkout -- .", cwd=R)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if demo is not None:
        open(os.path.join(d, "demo.c"), "w").write(textwrap.dedent(demo).lstrip())
        o = " ".join(("$B/" + x) if not x.startswith("-") else x for x in objs.split())
        open(os.path.join(d, "demo.sh"), "w").write(SH % dict(cflags=cflags, inc=inc, objs=o, libs=libs))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)

def demo(id):
    r = sh("sh %s/seeded/%s/demo.sh" % (V, id), cwd=R, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]

def try_(ids, check=True):
    assert sh("git status --porcelain", cwd=R).stdout == "", "repo not clean"
    sh("bash /opt/vp/build.sh")
    clean = {i: demo(i) for i in ids}
    for i in ids:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        try:
            a = sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=R)
            b = sh("bash /opt/vp/build.sh")
            p = demo(i)
            c = None
            if check and clean[i][0] == 0 and p[0] != 0 and b.returncode == 0:
                c = sh("python3 vp/runner.py check %s --tier quick" % m["property"], cwd=V)
        finally:
            sh("git checkout -- .", cwd=R)
        ok = clean[i][0] == 0 and p[0] != 0 and b.returncode == 0 and a.returncode == 0
        caught = c is not None and c.returncode == 1 and ("VIOLATION property=%s" % m["property"]) in c.stdout
        print(i, m["property"], "SEED-OK" if ok else "SEED-BAD", "CAUGHT" if caught else "MISSED", flush=True)
        if not ok:
            print("  apply", a.returncode, a.stderr[-200:], "build", b.returncode, b.stdout[-300:] if b.returncode else "", "clean", clean[i], "patched", p)
        elif not caught:
            print("  ", c and c.returncode, c and c.stdout[-700:])
        else:
            print("  ", [l for l in c.stdout.splitlines() if l.startswith("  ")][:1])
    sh("bash /opt/vp/build.sh")
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    try_(ids, sys.argv[1] == "try")
