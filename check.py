#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] | --replay FILE

Runs the symbolic items of one property against /repo's current source, in parallel.
exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
"""
import argparse
import fnmatch
import importlib
import json
import os
import pickle
import re
import resource
import select
import signal
import sys
import time
import traceback

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("OMP_NUM_THREADS", "1")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMQ_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def load(prop):
    import torch
    torch.set_num_threads(1)
    return importlib.import_module("props." + prop.lower())


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) item=(\S+) label=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.-]+", "_", s)[:120]


class Pool:
    """one forked process per item"""

    def __init__(self, width, total=None, after_hit=None):
        self.width = width
        self.total = total            # seconds for everything
        self.after_hit = after_hit    # seconds once a violation is known

    def run(self, items, work, hard):
        todo = list(enumerate(items))
        live = {}
        results = [None] * len(items)
        start = time.time()
        while todo or live:
            lim = self.total
            if self.after_hit and any(r and r.get("violations") for r in results):
                lim = self.after_hit
            if lim and time.time() - start > lim:
                for r in list(live):
                    self.finish(r, live, results, items, kill=True)
                for k, it in todo:
                    results[k] = dict(item=it.name, error="time limit of the whole check")
                return results
            while todo and len(live) < self.width:
                k, it = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        os.close(r)
                        dn = os.open(os.devnull, os.O_WRONLY)
                        if not os.environ.get("SYMQ_DEBUG"):
                            os.dup2(dn, 1)
                            os.dup2(dn, 2)
                        resource.setrlimit(resource.RLIMIT_DATA, (15 << 28, 15 << 28))
                        try:
                            res = work(it)
                        except MemoryError:
                            res = dict(item=it.name, error="memory limit")
                        except BaseException as e:
                            res = dict(item=it.name, error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                        with os.fdopen(w, "wb") as f:
                            f.write(pickle.dumps(res))
                    except BaseException:
                        code = 3
                    os._exit(code)
                os.close(w)
                live[r] = [pid, k, b"", time.time() + hard(it)]
            rd, _, _ = select.select(list(live), [], [], 0.5)
            for r in rd:
                d = os.read(r, 1 << 20)
                if d:
                    live[r][2] += d
                else:
                    self.finish(r, live, results, items)
            now = time.time()
            for r in list(live):
                if now > live[r][3]:
                    self.finish(r, live, results, items, kill=True)
        return results

    def finish(self, r, live, results, items, kill=False):
        pid, k, buf, _ = live.pop(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        os.close(r)
        os.waitpid(pid, 0)
        if kill or not buf:
            results[k] = dict(item=items[k].name, error="time limit" if kill else "process ended without a result")
        else:
            results[k] = pickle.loads(buf)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="glob of item names")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop = a.prop.upper()
    mod = load(prop)
    from symq import harness
    items = mod.items(a.tier)
    if a.only:
        items = [i for i in items if fnmatch.fnmatch(i.name, a.only)]
    names = [i.name for i in items]
    assert len(set(names)) == len(names), "duplicate item names: %s" % [n for n in names if names.count(n) > 1][:4]
    if a.list:
        print("\n".join(names))
        return 0
    default = 100 if a.tier == "quick" else 420
    tmo = lambda it: (it.timeout or default)
    if a.tier != "quick":
        os.environ.setdefault("SYMQ_CROSS", "1")
    trials = 2 if a.tier == "quick" else 6
    root = os.path.join(REPO, "deepquantum")
    warm()
    work = lambda it: harness.run_item(it, seed, tmo(it), root, trials)
    results = Pool(a.jobs, *((720, 150) if a.tier == "quick" else (None, None))).run(items, work, lambda it: tmo(it) * 1.5 + 60)
    return report(prop, a, mod, items, results, t0, seed)


def warm():
    """first-use imports inside torch, once, before forking"""
    import torch
    from symq import symtensor as st, engine, poly
    engine.ENGINE.new_item()
    engine.ENGINE.reset_path([])
    with st.symbolic():
        t = st.make([[poly.P.atom(engine.ATOMS.real("w")), poly.ONE], [poly.ZERO, poly.ONE]], torch.float32)
        u = torch.cos(t) @ t + 0j
        u = torch.kron(u, torch.eye(2)) + torch.einsum("ab,bc->ac", [u, u])[0, 0]
        torch.cat((u, u), dim=0).permute(1, 0).unsqueeze(-1).squeeze().conj().reshape(-1)
        torch.tensor([0, 1]) + torch.zeros(2)


def report(prop, a, mod, items, results, t0, seed):
    outdir = os.path.join(HERE, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    kn = known()
    nviol, nfind, incon = [], [], []
    tot = dict(paths=0, branches=0, claims=0, entries=0, proved=0, vacuous=0, svds=0, enc_checked=0, concrete_runs=0, decisions=0)
    sol = dict(queries=0, unsat=0, sat=0, unknown=0, time=0.0, instances=0, max_vars=0)
    cross = dict(agree=0, disagree=0, unknown=0)
    funcs = set()
    samples = []
    for it, r in zip(items, results):
        if "error" in r:
            incon.append((it.name, r["error"].strip().split("\n")[0] + (" | " + r["error"].strip().split("\n")[-2].strip() if a.v and "\n" in r["error"] else "")))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        for k in sol:
            sol[k] = max(sol[k], r["solver"][k]) if k == "max_vars" else sol[k] + r["solver"][k]
        for k in cross:
            cross[k] += r.get("cross", {}).get(k, 0)
        funcs.update(r["functions"])
        if len(samples) < 12:
            samples.append(dict(item=it.name, paths=r["paths"], claims=r["claims"], entries=r["entries"], queries=r["solver"]["queries"],
                                solver_s=round(r["solver"]["time"], 3)))
        fresh = False
        for v in r["violations"]:
            hit = next((k for k in kn if k[0] == prop and fnmatch.fnmatchcase(it.name, k[1]) and k[2] == v["label"]), None)
            if hit:
                nfind.append((it.name, v["label"], hit[3]))
                continue
            fresh = True
            path = os.path.join(outdir, slug(it.name + "." + v["label"]) + ".json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, item=it.name, tier=a.tier, **v), f, indent=1, default=str)
            nviol.append((it.name, v, path))
        if r["inconclusive"] and not fresh and not r["violations"]:
            incon.append((it.name, r["inconclusive"]))
        if a.v:
            print("%-60s paths %d claims %d entries %d q %d solver %.2fs wall %.1fs enc %d %s" % (
                it.name, r["paths"], r["claims"], r["entries"], r["solver"]["queries"], r["solver"]["time"], r["wall"],
                r["enc_checked"], r["inconclusive"] or ""))
    seen = set()
    for n, l, w in nfind:
        if (w,) not in seen:
            seen.add((w,))
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for n, m in incon:
        print("INCONCLUSIVE item=%s: %s" % (n, m[:400]))
    for n, v, path in nviol:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  item %s, claim %s: got %s, expected %s" % (n, v["label"], str(v["got"])[:200], str(v["want"])[:200]))
    done = len(items) - len(incon)
    ev = dict(property=prop, tier=a.tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["decisions"] + tot["paths"], transitions=tot["entries"],
                            traces_validated_against_impl=tot["concrete_runs"],
                            samples=samples,
                            items=len(items), items_decided=done, inconclusive=[list(x) for x in incon][:40],
                            paths=tot["paths"], vacuous_paths=tot["vacuous"], symbolic_branches=tot["branches"],
                            claims=tot["claims"], obligations=tot["entries"], discharged_groups=tot["proved"],
                            queries=sol["queries"], unsat=sol["unsat"], sat=sol["sat"], unknown=sol["unknown"],
                            solver_s=round(sol["time"], 2), relation_instances=sol["instances"], max_query_vars=sol["max_vars"],
                            svd_contracts=tot["svds"], encoding_entries_checked_against_impl=tot["enc_checked"],
                            second_solver=cross, functions_encoded=sorted(funcs), bounds=mod.BOUNDS,
                            known_findings=[list(x) for x in nfind][:40], violations=[[n, v["label"]] for n, v, _ in nviol][:40]),
              wall_s=round(time.time() - t0, 2),
              assumptions=getattr(mod, "ASSUMES", []) + COMMON, violations=len(nviol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d items, %d decided, %d paths, %d claims (%d entries), %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, wall %.1fs" % (
        prop, a.tier, len(items), done, tot["paths"], tot["claims"], tot["entries"], sol["queries"], sol["unsat"], sol["sat"], sol["unknown"],
        sol["time"], time.time() - t0))
    if cross["disagree"]:
        print("second solver disagrees on %d queries" % cross["disagree"])
        return 2
    if nviol:
        return 1
    if len(incon) * 2 > len(items):
        print("no answer: more than half of the items are inconclusive")
        return 2
    return 0


COMMON = [
    "arithmetic is exact real/complex arithmetic; float32 rounding is outside the claim",
    "torch's Python front end, shape inference (meta kernels) and autograd engine are executed as they are; each ATen kernel is replaced by its exact definition, compared with the real kernel on concrete points in every run",
    "constants written as floats are read as the rational, surd or multiple of pi they abbreviate",
    "singular values are 0 or at least 1e-6 (SVD contract); at most the stated number of decompositions per path deviate from full rank",
]


def replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    from symq import harness
    it = next(i for i in mod.items(d.get("tier", "quick")) if i.name == d["item"])
    assign = {k: complex(*v) if isinstance(v, list) else v for k, v in d["assign"].items()}
    ctx, vs = harness.run_concrete(it, assign, d["choices"], d["seed"], d["trial"], d.get("style"))
    for v in vs or []:
        print("%s %s: got %s, expected %s" % (d["item"], v.label, v.got, v.want))
    hit = any(v.label == d["label"] for v in vs or [])
    print("REPRODUCED" if hit else "not reproduced")
    return 1 if hit else 0


if __name__ == "__main__":
    sys.exit(main())
