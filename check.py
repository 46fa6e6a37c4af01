#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--keep]
Decides one property: TLC model -> replay of its vectors into /repo -> recorded traces -> TLC trace validation.
Exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from harness import tlc, registry

PY = "/opt/venv/bin/python"


def known_findings(prop):
    """keys of the listed findings of this property: lines 'known: property=<id> key=<key> <text>'"""
    r = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def drive(prop, tier, seed, work, timeout):
    env = dict(os.environ)
    env.update(PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(work, "mpl"),
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
    os.makedirs(os.path.join(work, "mpl"), exist_ok=True)
    p = subprocess.run([PY, "-W", "ignore", os.path.join(ROOT, "harness", "drv_main.py"), prop, work, tier, str(seed)],
                       env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise RuntimeError("driver failed:\n" + p.stdout.decode("utf-8", "replace")[-3000:])
    return json.load(open(os.path.join(work, "meta.json")))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    reg = registry.REG[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    viol = []       # (what, data)
    known_hit = {}
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models=[], vectors_replayed=0)
    big = tier == "thorough"
    try:
        # 1. the exhaustive models ------------------------------------------------------------------------------
        vecs = []
        for mod, consts in reg.get("mc", {}).get(tier, reg.get("mc", {}).get("quick", [])):
            cfg = "INIT Init\nNEXT Next\n" + "".join("INVARIANT %s\n" % i for i in consts.get("inv", [])) + \
                  "".join("PROPERTY %s\n" % i for i in consts.get("prop", [])) + \
                  ("CONSTANTS\n" + "".join("  %s\n" % c for c in consts["const"]) if consts.get("const") else "") + \
                  ("CONSTRAINT %s\n" % consts["constraint"] if consts.get("constraint") else "")
            r = tlc.run(mod, cfg, workers=consts.get("workers", 8), timeout=3000 if big else 400, scratch=work)
            if r["violated"]:
                # the model does not depend on /repo: this is an error of the machinery, never a violation
                raise tlc.TlcError("model %s violates %s:\n%s" % (mod, r["violated"], r["out"][-2500:]))
            if r["distinct"] < consts.get("min", 2):
                raise tlc.TlcError("model %s explored only %d states" % (mod, r["distinct"]))
            v = tlc.vectors(r["out"])
            if len(v) < consts.get("minvec", 0):
                raise tlc.TlcError("model %s emitted only %d vectors" % (mod, len(v)))
            v.sort(key=lambda x: json.dumps(x, sort_keys=True))
            vecs += v
            cov["states"] += r["distinct"]
            cov["transitions"] += r["states"]
            cov["models"].append(dict(module=mod, constants=consts.get("const", []), distinct_states=r["distinct"],
                                      states_generated=r["states"], invariants=consts.get("inv", []), vectors=len(v),
                                      wall_s=round(r["wall"], 1)))
        json.dump(vecs, open(os.path.join(work, "vectors.json"), "w"))
        # 2. replay into / record from the real code -------------------------------------------------------------
        meta = drive(prop, tier, seed, work, timeout=2400 if big else 420)
        if "import_error" in meta:
            viol.append(("import", dict(clause="the package does not import: " + meta["import_error"])))
        elif meta["hanging"]:
            viol.append(("hanging", dict(clause="calls do not return: " + meta["hanging"])))
        elif meta["raised"]:
            viol.append(("raised", dict(clause="the code raised " + meta["raised"])))
        else:
            if vecs and meta["replayed"] < len(vecs):
                raise RuntimeError("only %d of %d vectors were replayed" % (meta["replayed"], len(vecs)))
            cov["vectors_replayed"] = meta["replayed"]
            cov["samples"] += [dict(replayed_vector=s) for s in meta["vec_samples"][:1]]
            for m in meta["mismatch"]:
                viol.append(("replay", m))
            # 3. the specification judges the recorded traces ------------------------------------------------------
            tf = os.path.join(work, "traces.ndjson")
            lines = open(tf).read().splitlines()
            if len(lines) < reg.get("min_traces", 1):
                raise RuntimeError("only %d traces recorded" % len(lines))
            tr = reg["tr"]
            cfg = "INIT TInit\nNEXT TNext\nCONSTANTS\n  InitSt <- %s\n  Apply <- %s\n" % (tr["init"], tr["apply"])
            try:
                r = tlc.run(tr["module"], cfg, env=dict(TRACE_FILE=tf), timeout=3000 if big else 420, scratch=work,
                            heap="12g" if big else "8g")
            except tlc.TlcEval as e:
                viol.append(("unevaluable", dict(clause="a recorded result is outside what the specification can "
                                                 "describe", detail=str(e)[-1500:])))
                r = None
            if r is not None:
                rej = {}
                for s in tlc.printed(r["out"], "@REJECT "):
                    _, t, l, clause = s.split(" ", 3)
                    rej[int(t)] = (int(l), clause)
                nev = sum(rej[i + 1][0] if i + 1 in rej else len(json.loads(x)["ev"]) for i, x in enumerate(lines))
                if r["distinct"] != nev + len(lines):
                    raise tlc.TlcError("trace run visited %d states, expected %d" % (r["distinct"], nev + len(lines)))
                cov["states"] += r["distinct"]
                cov["transitions"] += r["states"]
                cov["trace_events"] = nev
                cov["trace_wall_s"] = round(r["wall"], 1)
                cov["traces_validated_against_impl"] = len(lines)
                kf = known_findings(prop)
                for t, (l, clause) in sorted(rej.items()):
                    trace = json.loads(lines[t - 1])
                    if trace.get("kf") and trace["kf"] in kf:
                        known_hit[trace["kf"]] = kf[trace["kf"]]
                        continue
                    viol.append(("trace", dict(clause=clause, event=l, trace=trace)))
                small = [x for x in lines if len(x) < 1500]
                for x in (small[:1] + small[len(small) // 2:len(small) // 2 + 1]):
                    cov["samples"].append(dict(validated_trace=json.loads(x)))
        for k, txt in sorted(known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (prop, txt))
        ev = dict(property=prop, tier=tier, seed=seed, level=reg.get("level", "model_checking"), coverage=cov,
                  assumptions=reg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(os.environ.get("VERIF_EVID", ROOT), "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(os.environ.get("VERIF_EVID", ROOT), "evidence", prop + ".json"), "w"), indent=1)
        if viol:
            d = os.path.join(os.environ.get("VERIF_EVID", ROOT), "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, prop + ".json")
            json.dump([dict(kind=k, **v) for k, v in viol[:40]], open(path, "w"), indent=1)
            k, v = viol[0]
            print("%d rejected; first (%s): %s" % (len(viol), k, json.dumps(v)[:1200]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("OK %s: %d model states, %d vectors replayed, %d traces validated, %.1fs" % (
            prop, cov["states"], cov["vectors_replayed"], cov["traces_validated_against_impl"], time.time() - t0))
        return 0
    except (tlc.TlcError, tlc.TlcEval, RuntimeError, subprocess.TimeoutExpired) as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        return 2
    finally:
        if "--keep" in sys.argv:
            print("work dir", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
