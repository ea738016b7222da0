"""Text: tokens, normalisation, flattening, serialisation, the service."""
import json, os, random
import verif
from file_checks import report


def T01(ctx):
    """Every text over the classes up to a length, the full code space, and long texts."""
    n = ctx.size(5, 6)
    out = ctx.path("texts")
    verif.model_check(ctx, "Tokens", "Tokens.cfg", ["mark_joins", "quote_splits", "empty_token", "drop_last"],
                      consts={"MaxLen": "4"}, env={"TEXTOUT": ""}, workers=2)
    verif.tlc_ok(ctx, "Tokens", "Tokens.cfg", consts={"MaxLen": str(n)}, env={"TEXTOUT": out})
    texts = verif.csv_lines(out)
    rng = random.Random(ctx.seed)
    bs = [{"acts": t, "reps": ctx.size(2, 2), "rep": 0} for t in texts]
    bs += [{"acts": rng.choice(texts) + rng.choice(texts), "reps": 1, "rep": rng.choice([5, 30, 200, 2000])}
           for _ in range(ctx.size(100, 2000))]
    bs += [{"acts": rng.choice(texts) + rng.choice(texts) + ["L", "L"], "reps": 1, "rep": rng.choice([9000, 30000, 70000])}
           for _ in range(ctx.size(16, 200))]
    bs = [b for b in bs if b["acts"] or b["rep"] == 0]
    bs.append({"acts": [], "k": "sweep"})
    rng.shuffle(bs)
    for i, b in enumerate(bs):
        b.update(id=i, seed=rng.randrange(1 << 40))
    binary = verif.build(ctx)
    traces = verif.drive(ctx, binary, "TestTokens", bs)
    ctx.log("ran", len(bs), "texts")
    report(ctx, verif.validate(ctx, "TokensTrace", "TokensTrace.cfg", traces))
    ctx.add("traces_validated_against_impl", len(bs))
    ctx.notes["exhaustive_text_length"] = n


STOPS = {"VERIF_STOPWORDS": os.path.join(verif.VERIF, "data", "stopwords.json")}


def T02(ctx):
    verif.model_check(ctx, "Normal", "Normal.cfg", ["shared_index", "by_completion", "no_wait"],
                      consts={"MaxLen": "5"} if ctx.thorough() else None, workers=2)
    base = dict(nv=[20, 60, 150], lens=[0, 1, 2, 3, 5, 20], par=[1, 1, 2, 4], depth=8,
                acts=["lower", "stop_en", "stop_pt", "stem", "fold", "all", "all", "freq", "same"])
    profiles = [dict(base, name="short"), dict(base, name="long", lens=[100, 400], depth=3, par=[1, 2, 3]),
                dict(base, name="together", lens=[5, 30], par=[4, 8], depth=5)] * 4 + [
                dict(base, name="huge", lens=[1500, 4000, 4000, 33000, 66000], depth=1, par=[1, 2])]
    for race in (True, False):
        binary = verif.build(ctx, race=race, yields=race)
        bs = verif.generate(ctx, "NormalGen", "NormalGen.cfg", profiles, ctx.size(250, 3000), ctx.seed + (0 if race else 500), depth=100)
        traces = verif.drive(ctx, binary, "TestNormal", bs, env=dict(STOPS, GORACE="halt_on_error=1"))
        ctx.log("ran", len(bs), "histories")
        report(ctx, verif.validate(ctx, "NormalTrace", "NormalTrace.cfg", traces))


def T03(ctx):
    verif.model_check(ctx, "Flatten", "Flatten.cfg", ["last_key", "skip_empty", "two_levels", "keep_objects"],
                      consts={"Keys": '{"", "a", "b"}', "Depth": "2"} if ctx.thorough() else None, workers=2)
    base = dict(nk=8, widths=[0, 1, 2, 3, 5], depths=[0, 1, 2, 3], len=12, acts=["tree"])
    profiles = [dict(base, name="trees"), dict(base, name="deep", nk=4, widths=[1, 1, 1, 2], depths=[6, 12]),
                dict(base, name="ids", acts=["num", "num", "int", "int", "text", "text", "none"], len=40)] * 4 + [
                dict(base, name="wide", nk=30, widths=[10, 30], depths=[1, 2], len=3),
                dict(base, name="wider", nk=100, widths=[100], depths=[0, 1], len=1)]
    binary = verif.build(ctx)
    bs = verif.generate(ctx, "FlattenGen", "FlattenGen.cfg", profiles, ctx.size(400, 6000), ctx.seed, depth=100)
    traces = verif.drive(ctx, binary, "TestFlatten", bs)
    ctx.log("ran", len(bs), "histories")
    report(ctx, verif.validate(ctx, "FlattenTrace", "FlattenTrace.cfg", traces))


def E01(ctx):
    verif.model_check(ctx, "Serial", "Serial.cfg", ["pooled", "aliased", "consumes"],
                      consts={"MaxOps": "7"} if ctx.thorough() else None, workers=2)
    base = dict(sizes=[0, 0, 1, 2, 3, 8], msizes=[0, 0, 1, 2, 3, 8], ops=[6, 12], threads=[1], pools=["plain", "hard", "hard"], mix=["ser", "ser", "des", "des", "scribble", "look"])
    profiles = [dict(base, name="small"), dict(base, name="large", sizes=[1, 30, 60], msizes=[1, 30, 60], ops=[4]),
                dict(base, name="many", sizes=[0, 300, 3000], msizes=[0, 0, 2], ops=[3], mix=["des", "look"]),
                dict(base, name="together", threads=[3, 4], ops=[6])] * 5 + [
                dict(base, name="huge", sizes=[33000, 66000], msizes=[0, 0, 1], ops=[2], mix=["des", "look"])]
    for race in (False, True):
        binary = verif.build(ctx, race=race, yields=race)
        bs = verif.generate(ctx, "SerialGen", "SerialGen.cfg", profiles, ctx.size(240, 3000), ctx.seed + (500 if race else 0), depth=100)
        traces = verif.drive(ctx, binary, "TestSerial", bs, env={"GORACE": "halt_on_error=1"})
        ctx.log("ran", len(bs), "histories")
        report(ctx, verif.validate(ctx, "SerialTrace", "SerialTrace.cfg", traces))


def service_scores(ctx, trace, scores):
    """Similarities shown, against the BM25 sums Service derived, best first."""
    from store_checks import events, score
    evs, out = events(trace), []
    for x in scores:
        e = evs[x["l"] - 1]
        want = {d: score(p) for d, p in (x["parts"] or {}).items()} if isinstance(x["parts"], dict) else {}
        best = sorted(want.values(), reverse=True)
        for i, d in enumerate(e["res"]):
            ctx.add("scores_compared", 1)
            g = float(e["sims"][i])
            for w in (want.get(d), best[i] if i < len(best) else None):
                if w is not None and not abs(w - g) <= 1e-9 * max(1.0, abs(w)):
                    out.append({"l": x["l"], "cat": "similarity", "what": [d, e["res"]], "want": w, "got": g, "k": "ret", "gen": 0, "tid": x["tid"]})
                    break
    return out


def H01(ctx):
    import service
    from concurrent.futures import ThreadPoolExecutor
    base = dict(nv=[8, 20, 40], nd=[5, 12, 30], titles=[0, 1, 2, 4], texts=[0, 1, 5, 20], queries=[1, 1, 2, 3, 8], threads=[2, 4, 8], ops=[5, 12],
                mix=["post", "get", "get"])
    mixed = ["post", "get", "post", "post", "bad", "get", "post", "get", "post", "get", "bad", "get"]
    few = ["get", "post", "get", "get"]
    profiles = [dict(base, name="mixed", acts=mixed * 2 + ["restart", "get", "get"] + mixed + ["restart"] + ["get"] * 6),
                dict(base, name="together", acts=few + ["par"] + ["get"] * 3 + ["par"] * 2 + ["get"] * 3 + ["restart"] + ["get"] * 3 + ["par"] + ["get"] * 4),
                dict(base, name="first", nd=[8], nv=[6], titles=[1, 2], texts=[1, 3], queries=[1, 2], threads=[8], ops=[3],
                     acts=["par", "get", "get", "bad", "restart", "par", "get", "get"]),
                dict(base, name="long", nv=[40], nd=[12], titles=[0, 3, 60], texts=[300, 1500], queries=[1, 2], acts=["post"] * 8 + ["get"] * 6 + ["post", "restart"] + ["get"] * 6),
                dict(base, name="again", nv=[2, 3], nd=[16], titles=[0, 1, 1], texts=[1, 600, 3000], queries=[1], threads=[8], ops=[4],
                     mix=["post", "get", "get", "get"], acts=(["par"] + ["get"] * 3) * 8),
                dict(base, name="many", nv=[6, 12], nd=[30, 60], queries=[0, 1, 2, 40], acts=["post"] * 40 + ["get"] * 8 + ["post"] * 10 + ["get"] * 4 + ["restart"] + ["get"] * 10)]
    norm = service.forms(ctx)
    binary = service.build_server(ctx)
    bs = verif.generate(ctx, "ServiceGen", "ServiceGen.cfg", profiles, ctx.size(32, 200), ctx.seed, depth=200)
    runs = [service.Run(ctx, binary, norm, b) for b in bs]
    with ThreadPoolExecutor(32) as ex:
        list(ex.map(lambda r: r.run(), runs))
    ctx.log("ran", len(runs), "histories")
    traces = []
    for i in range(4):
        p = ctx.path("service%d.ndjson" % i)
        with open(p, "w") as f:
            for r in runs[i::4]:
                for e in r.events:
                    f.write(json.dumps(e) + "\n")
        traces.append(p)
    res = verif.validate(ctx, "Service", "Service.cfg", traces)
    report(ctx, [(t, mis + service_scores(ctx, t, sc), sc) for t, mis, sc in res])
