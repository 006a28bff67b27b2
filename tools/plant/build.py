"""Builds /verif/seeded from the descriptions in bugs*.py:  build.py [ids...]"""
import os, sys, json, shutil, subprocess, glob, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
OUT = "/verif/seeded"
BUGS = []


class Bug:
    def __init__(self, id, prop, edits, needs, breaks, demo):
        self.__dict__.update(locals())
        BUGS.append(self)


def apply(src, anchor, old, new):
    p = src.index(anchor) if anchor else 0
    q = src.index(old, p)
    return src[:q] + new + src[q + len(old):]


def load():
    for f in sorted(glob.glob(here + "/bugs*.py")):
        exec(compile(open(f).read(), f, "exec"), {"Bug": Bug})


def main():
    load()
    ids = [b.id for b in BUGS]
    assert len(set(ids)) == len(ids), "duplicate ids"
    for b in BUGS:
        if sys.argv[1:] and b.id not in sys.argv[1:]:
            continue
        d = os.path.join(OUT, b.id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        tmp = "/tmp/plant_tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        diff = ""
        for f in sorted({e[0] for e in b.edits}):
            src = open(os.path.join(REPO, f), newline="").read()
            new = src
            crlf = "\r\n" in src
            for ff, anchor, old, rep in b.edits:
                if ff == f:
                    if crlf:
                        anchor, old, rep = [(x or "").replace("\n", "\r\n") for x in (anchor, old, rep)]
                    new = apply(new, anchor, old, rep)
            for side, text in (("a", src), ("b", new)):
                p = os.path.join(tmp, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w", newline="").write(text)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp, capture_output=True, text=True)
        open(os.path.join(d, "patch.diff"), "w", newline="").write(r.stdout)
        shutil.rmtree(tmp)
        open(os.path.join(d, "demo.py"), "w").write("from ref import *\n\n" + b.demo.strip("\n") + "\n\nprint('ok')\n")
        shutil.copy(here + "/ref.py", d)
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" "$d/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b.prop, "needs": b.needs, "what_it_breaks": b.breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc = subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")]).returncode
        print(b.id, "ok" if rc == 0 else "PATCH DOES NOT APPLY")


main()
