"""Writes planted bugs: mk(id, prop, needs, what, {file: [(old, new), ...]}, demo_cpp, compile_line)."""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, needs, what, edits, files, demo):
    d = f"{V}/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = ""
    for f, es in edits.items():
        s = open(f"/repo/{f}").read()
        t = s
        for old, new in es:
            assert t.count(old) == 1, (id, f, old, t.count(old))
            t = t.replace(old, new)
        a, b = tempfile.mkdtemp(), None
        for side, text in (("a", s), ("b", t)):
            p = f"{a}/{side}/{f}"
            os.makedirs(os.path.dirname(p))
            open(p, "w").write(text)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{f}", f"b/{f}"], cwd=a, capture_output=True, text=True)
        out = r.stdout
        shutil.rmtree(a)
        assert out, (id, f)
        diff += out
    open(f"{d}/patch.diff", "w").write(diff)
    for n, c in files.items():
        os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
        open(f"{d}/{n}", "w").write(c)
    open(f"{d}/demo.sh", "w").write("#!/bin/bash\nset -e\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\nR=$(pwd)\nT=$(mktemp -d)\ntrap 'rm -rf \"$T\"' EXIT\n" + demo.strip() + "\n")
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
