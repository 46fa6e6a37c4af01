import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import drv

def main():
    prop, out, tier, seed = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    try:
        import CommDspy
    except BaseException as e:
        json.dump(dict(import_error=repr(e)), open(os.path.join(out, "meta.json"), "w"))
        return 0
    where = os.path.realpath(CommDspy.__file__)
    assert where.startswith(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep), where
    mod = importlib.import_module("drivers." + prop.lower())
    ctx = drv.Ctx(prop, seed, tier)
    vf = os.path.join(out, "vectors.json")
    vecs = json.load(open(vf)) if os.path.exists(vf) else []
    nv = 0
    hanging = raised = ""
    try:
        if vecs:
            mod.replay(ctx, vecs)
            nv = ctx.replayed
        mod.record(ctx)
    except drv.Hanging as e:
        hanging = str(e) or "call"
    except Exception as e:
        # what the code under test raised outside a recorded call, or a result or attribute of it that does not have the
        # form the driver reads (the driver reads every result of the unchanged tree); any other error is passed on
        top = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
        fr = traceback.extract_tb(e.__traceback__)
        theirs = any(os.path.realpath(f.filename).startswith(top) for f in fr)
        if not theirs and not isinstance(e, (TypeError, AttributeError, ValueError, IndexError, KeyError, ArithmeticError)):
            raise
        raised = ("" if theirs else "a result could not be read: ") + "%s: %s (%s)" % (type(e).__name__, str(e)[:200], fr[-1].name)
    with open(os.path.join(out, "traces.ndjson"), "w") as f:
        for tr in ctx.traces:
            f.write(json.dumps(tr) + "\n")
    json.dump(dict(hanging=hanging, raised=raised, replayed=nv, vectors=len(vecs), mismatch=ctx.mismatch, vec_samples=ctx.vec_samples,
                   traces=len(ctx.traces), events=sum(len(t["ev"]) for t in ctx.traces)),
              open(os.path.join(out, "meta.json"), "w"))
    return 0

sys.exit(main())
