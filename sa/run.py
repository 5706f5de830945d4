"""python3-vt -m sa.run <property> [--tier quick|thorough] [--repo /repo]

Decides one property from the current source of the repository (never imported, never executed) and reports."""
import argparse
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

from . import analysis, drive, terms as tm
from .analysis import Explorer, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")

EXPLAIN = ("Source-level abstract interpretation: the syntax trees of /repo are walked by an abstract evaluator (no import, no execution); "
           "values are terms of a gated value-flow graph, all rays of a run are summarised by one generic ray per lane, run-wide branches are "
           "followed by trace partitioning. An obligation is an equality (or a heap/effect condition) between what the source computes and "
           "the specification; it is discharged by term identity, by normal form, or by random interpretation of the two value graphs "
           "(value numbering in the sense of Gulwani/Necula: sound refutation, probabilistic confirmation over the sampled interpretations).")


def _one(job):
    h, repo, seed = job
    try:
        if callable(getattr(h, "analyse", None)):
            return h.analyse(repo, seed)
        cover = drive.Cover(analysis.in_repo)
        explore = independence if getattr(h, "independence", False) else plain
        r = explore(h, repo, seed, None, cover)
        return driven(explore, h, repo, seed, cover, r)
    except Exception as e:
        return {"harness": h.name, "labels": {}, "partitions": 0, "infeasible": 0, "errors": ["analysis failure: %s\n%s" % (e, traceback.format_exc())],
                "fatal": True, "functions": {}, "lines": 0, "covered": [], "calls": 0, "interpretations": 0, "unks": [], "skipped": 0, "wall": 0}


def plain(h, repo, seed, pool=None, cover=None):
    return Explorer(h, repo, seed, pool=pool, cover=cover).go()


def driven(explore, h, repo, seed, cover, r):
    """once more, at interpretations that decide the conditions the other way that never varied"""
    t0 = time.time()
    r["conditions"] = {"%s:%s:%s %s" % (s[0], s[2], s[1], k): (a, b) for (s, k), (a, b, ts) in cover.seen.items()}
    if any(d["violated"] for d in r["labels"].values()):
        return r
    pools, tried = drive.pools(h, cover, seed)
    r["driven"] = tried
    for pool in pools:
        x = explore(h, repo, seed, pool, None)
        for l, d in x["labels"].items():
            L = r["labels"].setdefault(l, {"held": 0, "violated": 0, "undecided": 0, "vacuous": 0, "n": 0, "how": {}, "viol": [], "und": []})
            for k in ("held", "violated", "undecided", "vacuous", "n"):
                L[k] += d[k]
            for k, n in d["how"].items():
                L["how"][k] = L["how"].get(k, 0) + n
            L["viol"] += d["viol"]
            L["und"] += d["und"]
        for k in ("partitions", "calls", "skipped"):
            r[k] += x[k]
        r["errors"] += [e for e in x["errors"] if e not in r["errors"]]
        r["unks"] = list(set(r["unks"]) | set(x["unks"]))
        r["functions"].update({k: r["functions"].get(k, 0) + v for k, v in x["functions"].items()})
    r["driving_s"] = time.time() - t0
    return r


def independence(h, repo, seed, pool=None, cover=None):
    """the same value graphs interpreted once with several rays per run and once with every ray in a run of its own"""
    if pool is None:
        pool = tm.Pool(h.groups, seed, h.sizes)
    e1 = Explorer(h, repo, seed, pool=pool, cover=cover)
    r = e1.go()
    lab = {"held": 0, "violated": 0, "undecided": 0, "vacuous": 0, "n": 0, "how": {}, "viol": [], "und": []}
    e2 = Explorer(h, repo, seed, pool=pool.solo())
    r2 = e2.go()
    # value of each record for each interpretation point, in the partition that interpretation belongs to
    import numpy as np
    from . import arrays as ar

    def values(ex, pl):
        out = {}
        for mask, recs in ex.records:
            for label, cells in recs.items():
                cur = out.setdefault(label, [None, None])
                v = np.full(pl.K, np.nan)
                n = np.zeros(pl.K)
                for t, g in cells:
                    gv = pl.eval(g).astype(bool)
                    x = tm.pool_num(pl.eval(tm.num(t)))
                    n = n + gv
                    v = np.where(gv, np.where(np.isnan(v), 0, v) + x, v)
                a = cur[0] if cur[0] is not None else np.full(pl.K, np.nan)
                b = cur[1] if cur[1] is not None else np.full(pl.K, -1.0)
                cur[0] = np.where(mask, v, a)
                cur[1] = np.where(mask, n, b)
        return out
    a = values(e1, e1.pool_used)
    b = values(e2, e2.pool_used)
    for label in sorted(set(a) | set(b)):
        L = dict(lab, how={}, viol=[], und=[])
        if label not in a or label not in b:
            L["undecided"] = 1
            L["und"].append("recorded on one side only")
            r["labels"][label] = L
            continue
        (va, na), (vb, nb) = a[label], b[label]
        m = (na >= 0) & (nb >= 0)
        same = (na == nb) & ((np.abs(va - vb) <= 1e-7 + 1e-6 * np.abs(va)) | (np.isnan(va) & np.isnan(vb)) | (va == vb))
        bad = np.flatnonzero(m & ~same)
        if len(bad):
            i = int(bad[0])
            L["violated"] = 1
            L["viol"].append({"why": "a ray traced together with other rays gives %.9g (%d rows), traced alone %.9g (%d rows)" % (va[i], na[i], vb[i], nb[i]), "sites": cross_sites(e1), "n": 1, "path": []})
        elif m.any():
            L["held"] = 1
            L["n"] = int(m.sum())
            L["how"]["random interpretation"] = 1
        else:
            L["vacuous"] = 1
        r["labels"][label] = L
    for k in r2["labels"]:
        for f in ("undecided",):
            if r2["labels"][k][f]:
                r["labels"].setdefault(k, dict(lab, how={}, viol=[], und=[]))
                r["labels"][k][f] += r2["labels"][k][f]
                r["labels"][k]["und"] += r2["labels"][k]["und"]
    r["partitions"] += r2["partitions"]
    r["errors"] += r2["errors"]
    return r


def cross_sites(ex):
    """construction sites of the terms that couple rays (aggregates over a lane)"""
    out = []
    for mask, recs in ex.records:
        for label, cells in recs.items():
            for t, g in cells:
                for x in tm.has_kind(t, ("agg", "bagg")) or []:
                    s = x.site
                    if analysis.in_repo(s):
                        s = "%s:%s:%s" % (s[0], s[2], s[1])
                        if s not in out:
                            out.append(s)
    return out[:4]


def known_entries(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"known: property=(\S+) harness=(\S+) label=\"([^\"]*)\" match=\"([^\"]*)\" (.*)$", line)
            if m and m.group(1) == pid:
                out.append({"harness": m.group(2), "label": m.group(3), "match": m.group(4), "text": m.group(5), "line": line})
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    from .checks import registry
    spec = registry.CHECKS[a.property]
    tier = "thorough" if a.tier == "thorough" else "quick"
    hs = registry.harnesses(a.property, tier)
    jobs = [(h, a.repo, a.seed) for h in hs]
    if tier == "thorough":
        jobs += [(h, a.repo, a.seed + 100 * k) for h in hs for k in (1, 2) if not callable(getattr(h, "analyse", None))]
    jobs.sort(key=lambda j: -getattr(j[0], "cost", 1))
    with mp.Pool(min(8, len(jobs)) or 1, maxtasksperchild=1) as pool:
        results = []
        it = pool.imap_unordered(_one, jobs, chunksize=1)
        until = t0 + (800 if tier == "quick" else 20000)
        for k in range(len(jobs)):
            try:
                results.append(it.next(timeout=max(1, until - time.time())))
            except mp.TimeoutError:
                results.append({"harness": "time limit", "labels": {}, "partitions": 0, "calls": 0, "errors": [], "functions": {}, "unks": set(), "skipped": len(jobs) - k})
                pool.terminate()
                break
    rc = report(a, spec, tier, results, time.time() - t0)
    return rc


def report(a, spec, tier, results, wall):
    pid = a.property
    only = re.compile(spec["labels"]) if spec.get("labels") else None
    skip = re.compile(spec["skip"]) if spec.get("skip") else None
    viol, und, errors = [], [], []
    counts = {"held": 0, "undecided": 0, "vacuous": 0, "violated": 0}
    comparisons = 0
    how, functions, covered, unks = {}, {}, set(), set()
    labels = {}
    conds, driven_to = {}, {}
    for r in results:
        for c, (x, y) in r.get("conditions", {}).items():
            o = conds.get(c, (False, False))
            conds[c] = (o[0] or x, o[1] or y)
        for c, ok in r.get("driven", {}).items():
            driven_to[c] = driven_to.get(c, False) or ok
        for e in r["errors"]:
            errors.append((r["harness"], e, bool(r.get("fatal")), r.get("error_kinds", {}).get(e)))
        for f, n in r["functions"].items():
            functions[f] = functions.get(f, 0) + n
        covered |= set(map(tuple, r.get("covered", [])))
        unks |= set(r["unks"])
        for l, d in r["labels"].items():
            if l != "completes" and ((only and not only.search(l)) or (skip and skip.search(l))):
                continue
            for k in counts:
                counts[k] += d[k]
            comparisons += d["n"]
            labels.setdefault((r["harness"], l), 0)
            labels[(r["harness"], l)] += d["held"]
            for k, n in d["how"].items():
                how[k] = how.get(k, 0) + n
            if d["violated"]:
                viol.append((r["harness"], l, d["viol"][0]))
            if d["undecided"]:
                und.append((r["harness"], l, d["und"][0] if d["und"] else ""))
        if r["skipped"]:
            und.append((r["harness"], "partition budget", "%d partitions not explored" % r["skipped"]))
    fatal = []
    for h, e, f, kind in errors:
        if f or kind == "anchor":
            fatal.append((h, e))
        else:
            viol.append((h, "the client program runs", {"why": e, "sites": [], "path": [], "n": 1}))
            counts["violated"] += 1
    known = known_entries(pid)
    seen, fresh, old = set(), [], []
    for h, l, v in viol:
        k = [e for e in known if re.fullmatch(e["harness"], h) and e["label"] == l and e["match"] in json.dumps(v)]
        if k:
            old.append(k[0])
            continue
        if (h, l) in seen:
            continue
        seen.add((h, l))
        fresh.append((h, l, v))
    print("property %s (%s, seed %d): %d harness runs, %d trace partitions, %d functions and %d source lines of the repository interpreted" % (
        pid, tier, a.seed, len(results), sum(r["partitions"] for r in results), len(functions), len(covered)))
    print("obligations: held %d, violated %d, undecided %d, vacuous %d; %d interpretation points compared; by %s" % (
        counts["held"], counts["violated"], counts["undecided"], counts["vacuous"], comparisons, json.dumps(how)))
    for e in {e["line"]: e for e in old}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, e["text"]))
    for h, l, why in und[:12]:
        print("UNDECIDED: [%s] %s: %s" % (h, l, str(why)[:240]))
    for u in sorted(unks)[:8]:
        print("NOT MODELLED: %s" % u)
    edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    rdir = os.path.join(edir, "replay")
    if os.path.isdir(rdir):
        for f in os.listdir(rdir):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(rdir, f))
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        for i, (h, l, v) in enumerate(fresh[:8]):
            p = os.path.join(rdir, "%s-%d.json" % (pid, i))
            src = [x.src for x in getattr(report, "hs", []) if x.name == h]
            json.dump({"property": pid, "harness": h, "obligation": l, "finding": v, "seed": a.seed,
                       "replay": "python3-vt -m sa.run %s --tier %s" % (pid, tier)}, open(p, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  rule: [%s] %s" % (h, l))
            print("  %s" % str(v.get("why"))[:500])
            for s in v.get("sites", [])[:4]:
                print("  at %s" % s)
            if v.get("values"):
                print("  distinguishing interpretation: %s" % json.dumps(v["values"])[:600])
    samples = ["[%s] %s" % k for k in sorted(labels)][:12]
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": spec.get("level", "other"),
          "coverage": {
              "explanation": EXPLAIN + " " + spec.get("explain", ""),
              "obligations": counts["held"] + counts["violated"] + counts["undecided"],
              "discharged": counts["held"],
              "undecided": counts["undecided"], "vacuous": counts["vacuous"],
              "discharged_by": how,
              "interpretation_points_compared": comparisons,
              "harnesses": len({r["harness"] for r in results}),
              "trace_partitions": sum(r["partitions"] for r in results),
              "call_sites_interpreted": sum(r["calls"] for r in results),
              "functions_analysed": sorted(functions),
              "source_lines_analysed": len(covered),
              "unmodelled": sorted(unks), "undecided_list": ["[%s] %s: %s" % u for u in und][:20],
              "conditions_of_the_repository": len(conds),
              "conditions_that_never_varied": sorted(c for c, (x, y) in conds.items() if not (x and y)),
              "conditions_driven_the_other_way": sorted(c for c, ok in driven_to.items() if ok),
              "distinct_rules": len(labels), "samples": samples,
          },
          "assumptions": spec.get("assumptions", []) + registry_assumptions(),
          "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
    if fresh:
        return 1
    for h, e in fatal:
        print("ANALYSIS-BROKEN: [%s] %s" % (h, e[:1500]))
    if fatal:
        return 2
    if counts["held"] == 0:
        print("ANALYSIS-BROKEN: no obligation was decided")
        return 2
    return 0


def registry_assumptions():
    return ["the transfer functions of numpy, pandas, scipy, matplotlib and the Python builtins (written from their documentation) are right",
            "real arithmetic: rounding is ignored except that a refutation must persist in extended precision"]


if __name__ == "__main__":
    sys.exit(main())
