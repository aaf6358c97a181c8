"""Command line: python3-vt -m kfa.check <property> [--tier quick|thorough] [--only substring]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def alarm(sig, frame):
    raise TimeoutError("time budget exhausted")


def work(job):
    prop, idx, tier, seed, budget = job
    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(budget))
        obs = obligations(prop, tier)
        o = obs[idx]
        r = o.run(tier, seed)
    except BaseException as e:
        r = dict(violations=[], undecided=[f"{type(e).__name__}: {e}"[:300]], paths=0, spec_paths=0, streams=0, evaluations=0, functions=[], unexercised=0, dropped=[], contexts=[])
        if os.environ.get("KFA_TRACE"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    r["seconds"] = round(time.time() - t0, 2)
    return idx, r


def obligations(prop, tier):
    m = importlib.import_module("kfa.props." + prop.lower())
    return m.obligations(tier)


def known(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:") and f"property={prop} " in l:
                key = l.split("key=", 1)[1].split(" ", 1)
                out.append((key[0], key[1].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.property
    t0 = time.time()
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        resource.setrlimit(resource.RLIMIT_STACK, (hard if hard != resource.RLIM_INFINITY else 1 << 30, hard))
    except (ValueError, OSError):
        pass
    m = importlib.import_module("kfa.props." + prop.lower())
    obs = m.obligations(tier)
    idxs = [i for i, o in enumerate(obs) if not a.only or a.only in o.name]
    total_budget = 560 if tier == "quick" else 760
    per = 240 if tier == "quick" else 500
    results = {}
    ctx = mp.get_context("fork")
    with ctx.Pool(min(a.jobs, max(1, len(idxs))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(work, [(prop, i, tier, seed, per) for i in idxs])
        while len(results) < len(idxs):
            left = total_budget - (time.time() - t0)
            try:
                i, r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                pool.terminate()
                break
            except StopIteration:
                break
            results[i] = r
            if a.v:
                print(f"  {obs[i].name}: {r['seconds']}s paths {r['paths']}/{r['spec_paths']} streams {r['streams']} ev {r['evaluations']} {r['contexts']} {'VIOL ' + str(r['violations'][0]['difference']) if r['violations'] else ''} {'UNDECIDED ' + str(r['undecided'])[:600] if r['undecided'] else ''} {'BOUNDED ' + str(r.get('bounded'))[:600] if r.get('bounded') else ''} {'dropped ' + str(len(r['dropped'])) if r['dropped'] else ''} {'unexercised ' + str(r['unexercised']) if r['unexercised'] else ''}", flush=True)
    for i in idxs:
        if i not in results:
            results[i] = dict(violations=[], undecided=["time budget exhausted"], paths=0, spec_paths=0, streams=0, evaluations=0, functions=[], unexercised=0, dropped=[], contexts=[], seconds=0)
    report(prop, tier, seed, m, obs, results, t0)


def report(prop, tier, seed, m, obs, results, t0):
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    kf = known(prop)
    nviol = 0
    lines = []
    seen_known = set()
    funcs = set()
    undec = []
    for i in sorted(results):
        r = results[i]
        funcs |= set(r["functions"])
        if r["undecided"] and not r["violations"]:
            undec.append(obs[i].name)
            lines.append(f"UNDECIDED property={prop} obligation={obs[i].name} ({r['undecided'][0][:160]})")
        for v in r["violations"]:
            hit = [k for k in kf if k[0] == v["scenario"]]
            if hit:
                seen_known.add(hit[0])
                continue
            nviol += 1
            path = os.path.join(ev, f"replay-{prop}-{nviol}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, obligation=obs[i].name, rerun=f"python3-vt -m kfa.check {prop} --tier {tier} --only '{obs[i].name}'", **v), f, indent=1, default=str)
            where = ", ".join(x for x in v.get("functions", r["functions"]) if x)[:400]
            lines.append(f"  {obs[i].name}: {v['difference']} at {v['dims']}; analysed path through: {where}")
            lines.append(f"VIOLATION property={prop} replay={path}")
    for k in sorted(seen_known):
        lines.append(f"KNOWN-FINDING: property={prop} {k[1]}")
    n = len(results)
    decided = n - len(undec)
    full = [i for i in results if not results[i]["undecided"] and not results[i].get("bounded")]
    cov = dict(
        explanation=getattr(m, "EXPLANATION", "") + " Rule applied: " + getattr(m, "RULE", "the value graph of the code equals that of the specification on every path") + ".",
        obligations=n, decided=decided, undecided=undec, decided_with_symbolic_dimensions=len(full),
        paths=sum(r["paths"] for r in results.values()), reference_paths=sum(r["spec_paths"] for r in results.values()),
        loop_summaries=sum(r["streams"] for r in results.values()), graph_comparisons=sum(r["evaluations"] for r in results.values()),
        functions=sorted(funcs), samples=[dict(obligation=obs[i].name, contexts=[{k: str(v) for k, v in c.items()} if isinstance(c, dict) else c for c in results[i]["contexts"]], paths=results[i]["paths"], loops=results[i]["streams"], seconds=results[i]["seconds"]) for i in sorted(results)][:60],
        bounded={obs[i].name: results[i]["bounded"][:3] for i in results if results[i].get("bounded")},
        dropped_cases=sorted({d for r in results.values() for d in r["dropped"]})[:40],
    )
    doc = dict(property=prop, tier=tier, seed=seed, level=getattr(m, "LEVEL", "other"), coverage=cov, assumptions=getattr(m, "ASSUMPTIONS", ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    for l in lines:
        print(l)
    print(f"{prop}: {decided}/{n} obligations decided, {cov['paths']} paths, {cov['loop_summaries']} loop summaries, {len(funcs)} functions, {nviol} violations, {doc['wall_s']} s")
    sys.stdout.flush()
    os._exit(1 if nviol else 0)


ASSUMPTIONS = ["real arithmetic (rounding is not modelled)", "the transfer functions of numpy/scipy in kfa/npmodel.py describe those libraries",
               "user functions are pure functions of their arguments", "two different value graphs that agree at every deterministic random instantiation used are taken as equal (random interpretation)"]

if __name__ == "__main__":
    main()
