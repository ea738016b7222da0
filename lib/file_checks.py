"""F01: the safe save, against SaveFile and SaveTrace."""
import json
import verif
from store_checks import events, excerpt


def report(ctx, results, want=lambda m: True):
    """Every mismatch a trace specification wrote is a violation."""
    kinds = {}
    for trace, mis, _ in results:
        for e in events(trace):
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
            if e["k"] == "begin":
                ctx.add("traces_validated_against_impl", 1)
            if len(ctx.samples) < 4:
                ctx.samples.append(e)
        reported = set()
        for m in mis:
            key = (m["tid"], m["cat"])
            if key in reported or not want(m):
                continue
            reported.add(key)
            ctx.violation("%s at event %d (%s): %s: specified %s, observed %s"
                          % (m["cat"], m["l"], m["k"], json.dumps(m["what"])[:300],
                             json.dumps(m["want"])[:400], json.dumps(m["got"])[:400]),
                          {"mismatch": m, "trace": excerpt(trace, m["l"]) if len(ctx.violations) < 50 else None})
    for k, n in kinds.items():
        ctx.notes.setdefault("events", {})
        ctx.notes["events"][k] = ctx.notes["events"].get(k, 0) + n


def F01(ctx):
    verif.model_check(ctx, "SaveFile", "SaveFile.cfg", ["shared_temp", "in_place", "remove_first", "backup", "swallow"],
                      consts={"Savers": '{"a", "b", "c"}'} if ctx.thorough() else None, workers=2)
    base = dict(sizes=[0, 1, 3, 100, 100, 5000, 70000, 1300000], nf=[1, 1, 2, 3], ops=6, together=[1], faults=0, deaths=0, depth=8)
    profiles = [dict(base, name="alone"), dict(base, name="faults", faults=70), dict(base, name="deaths", deaths=60),
                dict(base, name="overlap", together=[2, 2, 3], nf=[1, 1, 2], faults=15, deaths=10),
                dict(base, name="all", together=[1, 2, 3], faults=30, deaths=30, depth=12)]
    binary = verif.build(ctx)
    bs = verif.generate(ctx, "SaveGen", "SaveGen.cfg", profiles, ctx.size(600, 8000), ctx.seed)
    traces = verif.drive(ctx, binary, "TestSaveFile", bs)
    ctx.log("ran", len(bs), "behaviours")
    report(ctx, verif.validate(ctx, "SaveTrace", "SaveTrace.cfg", traces))
