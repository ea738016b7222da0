"""Checks of the stores: behaviours from StoreGen, run on the real code, judged by StoreTrace."""
import functools, json, math, os
import verif
from verif import CheckError

BASE = {"backends": ["mem", "disk"], "caches": [0, 1, 2, 100], "nd": [2, 3, 4], "nf": [1, 2, 3], "nt": [2, 3, 4],
        "ntf": [0, 1, 2, 3], "maxtf": 3, "extralen": [0, 0, 0, 1, 5], "nfs": [1, 1, 2, 3], "nq": [1, 2],
        "nqt": [0, 1, 2, 3, 4], "advs": [1, 2, 3, 5, 7, 10, 13, 15, 16], "pools": ["plain", "plain", "alike", "hard"],
        "classes": ["any"], "parts": [["post"], ["idx"], ["stat"], ["docs"], ["somedocs"], ["somedocs"], ["post", "idx", "stat", "docs"]],
        "depth": 30, "slow": [0], "acts": ["save", "obs"], "tail": ["obsall"], "name": "base"}


def prof(name, **kw):
    p = dict(BASE)
    p.update(kw)
    p["name"] = name
    return p


def score(part):
    total = 0.0
    for q in part:
        for x in (q or []):
            boost = x["b"] / 10.0 or 1.0
            idf = math.log(1 + (x["N"] - x["n"] + 0.5) / (x["n"] + 0.5))
            avg = x["tot"] / x["N"]
            tf = x["tf"]
            total += boost * idf * (tf * 2.2 / (tf + 1.2 * (0.25 + 0.75 * (x["len"] / avg))))
    return total


def compare_scores(ctx, trace, scores):
    """The BM25 sums StoreTrace derived, against what the search returned."""
    want = {x["l"]: x["parts"] for x in scores}
    out, n = [], 0
    with open(trace) as f:
        for l, line in enumerate(f, 1):
            if l not in want:
                continue
            e = json.loads(line)
            for i, part in enumerate(want[l]):
                w, g = score(part), float(e["scores"][i])
                n += 1
                if not (abs(w - g) <= 1e-9 * max(1.0, abs(w))):
                    out.append({"l": l, "cat": "score", "what": [e["q"], e["res"][i]], "want": w, "got": g,
                                "parts": part, "k": "search", "gen": 0, "tid": None})
    ctx.add("scores_compared", n)
    return out


@functools.lru_cache(16)
def events(trace):
    with open(trace) as f:
        return [json.loads(x) for x in f]


def excerpt(trace, l):
    """The trace that event l belongs to, up to it."""
    evs = events(trace)[:l]
    start = max([i for i, e in enumerate(evs) if e["k"] == "begin"] or [len(evs) - 1])
    return evs[start:]


def judge(ctx, results, wants, died=True):
    """wants(mismatch) says whether it breaks the property under check."""
    findings = verif.known_findings()
    kinds, other = {}, {}
    for trace, mis, scores in results:
        mis = mis + compare_scores(ctx, trace, scores)
        for e in events(trace):
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
            if e["k"] == "begin":
                ctx.add("traces_validated_against_impl", 1)
                if len(ctx.samples) < 2:
                    ctx.samples.append(e)
            elif len(ctx.samples) < 4 and e["k"] in ("save", "reopen", "search"):
                ctx.samples.append(e)
        reported = set()
        for m in mis:
            if m["cat"] == "kf1":
                ctx.add("kf1_histories", 1)
                if "KF-1" in findings:
                    p, text = findings["KF-1"]
                    if p == ctx.prop:
                        ctx.known["KF-1"] = text
                    continue
            if not wants(m):
                other[m["cat"]] = other.get(m["cat"], 0) + 1
                continue
            key = (m["tid"], m["cat"])
            if key in reported:
                continue
            reported.add(key)
            ctx.violation("%s at event %d (%s, after %d reopenings): %s: specified %s, observed %s"
                          % (m["cat"], m["l"], m["k"], m["gen"], json.dumps(m["what"])[:300],
                             json.dumps(m["want"])[:400], json.dumps(m["got"])[:400]),
                          {"mismatch": m, "trace": excerpt(trace, m["l"]) if len(ctx.violations) < 50 else None})
    ctx.notes["events"] = kinds
    if other:
        ctx.notes["mismatches_of_other_properties"] = other


def run_store(ctx, profiles, num, wants, env=None, race=False, few=None, group=1):
    """few: further profiles and how many behaviours of them, for what is too big to be common."""
    binary = verif.build(ctx, race=race, yields=race)
    bs = verif.generate(ctx, "StoreGen", "StoreGen.cfg", profiles, num, ctx.seed)
    if few:
        more = verif.generate(ctx, "StoreGen", "StoreGen.cfg", few[0], few[1], ctx.seed + 500)
        step = max(1, len(bs) // len(more))
        for i, b in enumerate(more):
            bs.insert(i * (step + 1), b)
        for i, b in enumerate(bs):
            b["id"] = i
    ctx.log("generated", len(bs), "behaviours")
    if group > 1:
        bs = [{"id": i, "acts": g[0]["acts"], "more": [b["acts"] for b in g[1:]]}
              for i, g in enumerate(bs[i:i + 2 + i // group % (group - 1)] for i in range(0, len(bs), group))]
    traces = verif.drive(ctx, binary, "TestStore", bs, env=env)
    ctx.log("ran them")
    res = verif.validate(ctx, "StoreTrace", "StoreTrace.cfg", traces)
    ctx.log("validated")
    judge(ctx, res, wants)


DRIVER = ("panic", "hang", "escape", "open")


def cats(*names, gen=None):
    def f(m):
        if m["cat"] in DRIVER:
            return True
        return m["cat"] in names and (gen is None or m["gen"] >= gen or m["k"] in ("reopen", "peek"))
    return f


def store_model(ctx):
    verif.model_check(ctx, "Store", "Store.cfg",
                      ["mem_no_remove", "dsk_size", "dsk_keep_posting", "dsk_df"],
                      consts={"Docs": "{d1, d2, d3}", "MaxTf": "1"} if ctx.thorough() else None, workers=2)


def S01(ctx):
    store_model(ctx)
    run_store(ctx, [prof("live", acts=["save"] * 4 + ["post", "obs", "obs", "adv"], parts=BASE["parts"] + [["post", "idx"]] * 4),
                    prof("posts", acts=["save", "post", "post", "obs"], parts=[["post"], ["idx"], ["post", "docs"]], nd=[2], nt=[2, 3])],
              ctx.size(500, 6000), cats("post", "idx"), few=(masses(["mem", "disk"], ["post", "idx"]) + lives(["mem", "disk"], ["post", "idx"]), ctx.size(32, 200)))


def S02(ctx):
    store_model(ctx)
    run_store(ctx, [prof("live", acts=["save"] * 4 + ["obs", "obs", "adv"], parts=[["stat"]] * 4 + [["somedocs"], ["docs"]]),
                    prof("few", nd=[1, 2], nt=[1, 2], acts=["save"] * 4 + ["obs"], parts=[["stat"], ["stat"], ["somedocs"]])],
              ctx.size(500, 6000), cats("size", "len", "df"), few=(masses(["mem", "disk"], ["stat"]) + lives(["mem", "disk"], ["stat"]), ctx.size(40, 250)))


def S03(ctx):
    run_store(ctx, [prof("live", backends=["disk"], caches=[0, 1, 1, 2, 3, 100], nd=[3, 4, 6],
                         acts=["save"] * 4 + ["obs"] * 3 + ["adv"] * 3, parts=[["somedocs"]] * 3 + [["docs"]],
                         depth=40, tail=["obsall"]),
                    prof("quiet", backends=["disk"], caches=[0, 1, 2, 5], nd=[3, 4, 6], acts=["save"] * 4 + ["obs", "obs", "adv", "quiet"],
                         parts=[["somedocs"]] * 3 + [["docs"]], depth=40, tail=["quiet", "obsall"]),
                    prof("sessions", backends=["disk"], caches=[0, 1, 2, 5], nd=[3, 4], nf=[2, 3],
                         acts=["save", "save", "save", "obs", "obs", "adv", "quiet", "reopen"],
                         parts=[["somedocs"]] * 3 + [["docs"]], depth=40, tail=["obsall"]),
                    ticks([["somedocs"], ["docs"]], tail=["tick", "save", "save", "quiet", "obsall"]),
                    prof("mem", backends=["mem"], acts=["save", "save", "obs"], parts=[["docs"], ["somedocs"]])],
              ctx.size(400, 5000), cats("docs", "rawdoc", "argsave"),
              few=(masses(["mem", "disk"], ["docs"], ["quiet", "obs"]) + lives(["mem", "disk"], ["docs"]), ctx.size(32, 200)))


def disk(name, **kw):
    kw.setdefault("backends", ["disk"])
    kw.setdefault("caches", [0, 1, 2, 100])
    kw.setdefault("parts", [["post", "idx", "stat", "docs"], ["somedocs"]])
    kw.setdefault("depth", 30)
    return prof(name, **kw)


def ticks(parts, **kw):
    """Saves while the savers of what was saved before are at work."""
    return disk("ticks", slow=[200, 1000], nd=[1, 2, 3], acts=["save"] * 5 + ["tick", "tick", "obs"], parts=parts, depth=24,
                caches=[0, 1, 1, 2], **kw)


def crowd(backends):
    """Searches that match many documents."""
    return prof("crowd", backends=backends, nd=[300, 700, 1000, 1400], nf=[1, 2], nt=[2, 3], depth=2, pools=["plain", "alike"],
                acts=["savemany"], tail=["search"] * 3, nq=[1, 2], nqt=[1, 2, 3], caches=[0, 5, 2000])


def masses(backends, part, tail=(), **more):
    """Hundreds of documents, or dozens of fields, between two ticks; large numbers."""
    kw = dict(backends=backends, pools=["plain", "plain", "hard"], parts=[part], slow=[0, 0, 200], caches=[0, 5, 2000], depth=2,
              acts=["savemany"])
    big = dict(BASE, nd=[2, 4], nf=[1, 2], maxtf=70000, extralen=[0, 1, 40000, 9000000], depth=12, acts=["save", "save", "obs", "adv"],
               backends=backends, parts=[part], name="big", tail=list(tail) + ["obs"])
    mass = dict(dict(kw, nd=[70, 300, 600, 1100], nf=[1, 2], nt=[2, 3]), **more)
    return [prof("mass", tail=["obs", "savemany", "save", "adv"] + list(tail) + ["obs"], **mass),
            prof("fields", nd=[40, 90], nf=[17, 40, 80], nt=[1, 2], tail=["obs", "save", "save", "adv"] + list(tail) + ["obs"], **kw), big]


def lives(backends, part, tail=()):
    """Stores that live for hours, are opened dozens of times, or have one document saved hundreds of times."""
    kw = dict(backends=backends, parts=[part], caches=[0, 1, 2, 100], nd=[2, 3, 4], nf=[1, 2], nt=[2, 3], pools=["plain", "hard"])
    return [prof("aged", acts=["save", "save", "age", "obs"], depth=24, tail=["save", "age", "obs"] + list(tail), **kw),
            prof("reopened", acts=["save", "save", "quiet", "reopen", "adv"], depth=150, tail=["save", "quiet", "obs"] + list(tail), **kw),
            prof("busy", acts=["save"] * 30 + ["adv", "obs"], depth=370, tail=["obs", "save", "quiet", "obs"] + list(tail), **kw)]


def gens(parts):
    """Histories over several sessions: orderly ones, and with crashes at any step."""
    return [disk("sessions", slow=[0, 0, 100, 500], acts=["save"] * 6 + ["adv", "adv", "quiet", "quiet", "reopen", "obs"], parts=parts,
                 tail=["quiet", "reopen", "obsall", "save", "save", "quiet", "reopen", "obsall"]),
            disk("quietonly", acts=["save"] * 3 + ["quiet"], parts=parts, nd=[2, 3], depth=16,
                 tail=["quiet", "reopen", "save", "quiet", "reopen", "save", "save", "quiet", "reopen", "quiet", "merge", "reopen"]),
            ticks(parts, tail=["tick", "save", "save", "quiet", "obsall", "reopen"]),
            disk("crashes", acts=["save"] * 6 + ["adv", "crashadv", "crashadv", "reopen", "obs"], parts=parts, depth=16,
                 tail=["crashadv", "quiet", "reopen", "obsall"])]


def durable(ctx, savers, parts, wants, num, extra=()):
    disk_model(ctx, savers)
    part, tail = sorted(set(sum(parts, [])) - {"somedocs"}), ["quiet", "reopen", "save", "quiet", "reopen"]
    run_store(ctx, gens(parts) + list(extra), num, wants,
              few=(masses(["disk"], part, tail) + lives(["disk"], part, tail), ctx.size(32, 200)))


PARTS = {"I": (dict(PARTS='{"I"}', Docs="{d1, d2}", Fields="{f1}"),
               ["fragment_in_place", "merge_replaces", "merge_deletes_first", "merge_deletes_all"]),
         "N": (dict(PARTS='{"N"}', Fields="{f1}", Terms="{t1, t2}"), ["nf_overwrite"]),
         "M": (dict(PARTS='{"M"}'), []),
         "D": (dict(PARTS='{"D"}'), ["partial_update", "no_pending", "delete_then_write"]),
         "merges that fail": (dict(PARTS='{"I"}', Docs="{d1, d2}", Fields="{f1}", MaxFaults="1"), ["merge_gives_up"]),
         "reads that fail": (dict(PARTS='{"D"}', MaxFaults="1"), ["unread_is_absent"])}


def disk_model(ctx, parts):
    """The implementation-shaped disk store, by the saver: they touch disjoint files."""
    for p in parts:
        c, slips = PARTS[p]
        c = dict(c)
        if ctx.thorough():
            c.update(MaxClock="9", MaxCrashes="2")
        verif.model_check(ctx, "DiskStore", "DiskStore.cfg", slips, consts=c, workers=ctx.size(3, 8), heap="8g", timeout=2400)


def D01(ctx):
    durable(ctx, "I", [["post"], ["idx"]], cats("rpostlost", "rpostnew", "post", "idx", "mergedlost", gen=1), ctx.size(300, 4000),
            [disk("wide", nd=[2, 3], nf=[1], nt=[150], ntf=[100, 150], depth=6, parts=[["post"]],
                  acts=["save", "save", "adv"], tail=["quiet", "reopen", "quiet", "reopen"])])


def D02(ctx):
    durable(ctx, "MN", [["stat"]], cats("rmet", "rdf", "size", "len", "df", gen=1), ctx.size(300, 4000))


def D03(ctx):
    durable(ctx, "D", [["docs"], ["somedocs"]], cats("rdocs", "docs", gen=1), ctx.size(300, 4000),
            [disk("partial", nd=[2, 3, 5], nf=[2, 3, 4], nfs=[1], caches=[0, 1, 2], depth=25,
                  acts=["save"] * 4 + ["adv", "quiet", "reopen", "obs"], parts=[["somedocs"], ["docs"]],
                  tail=["obsall", "quiet", "reopen"])])


def D04(ctx):
    disk_model(ctx, "INMD")
    run_store(ctx, [disk("fssteps", nd=[2, 3], nf=[1, 2], nt=[2, 3], depth=12,
                         acts=["save"] * 4 + ["crashadv"] * 3 + ["quiet"], tail=["crashadv", "save", "save", "obsall", "search", "quiet", "reopen"]),
                    disk("again", nd=[2], nf=[1], nt=[2], depth=10, acts=["save", "save", "crashadv", "crashadv", "reopen"],
                         advs=[13, 15, 16, 30], tail=["crashadv", "crashadv", "save", "obsall", "search"])],
              ctx.size(240, 3000),
              cats("rpostlost", "rpostnew", "rmet", "rdf", "rdocs", "idx", "post", "size", "len", "df", "docs",
                   "hits", "rawhits", "rawdoc", gen=1),
              few=(masses(["disk"], ["post"], ["crashadv", "save", "crashadv"], advs=[10, 13, 15], nd=[40, 70], nf=[1, 9, 17])[:1], ctx.size(8, 60)))


def D05(ctx):
    disk_model(ctx, "I")
    run_store(ctx, [disk("merging", caches=[1, 100], acts=["save"] * 4 + ["adv"] * 4 + ["merged", "merge", "reopen"], depth=40,
                         advs=[1, 2, 4, 9, 13, 14, 15, 16, 26], parts=[["post"]], tail=["merge", "merged", "reopen", "merge", "merged"]),
                    disk("together", caches=[1, 100], slow=[300, 1000, 3000], nd=[2, 3], nf=[1, 2], acts=["save"], depth=4, parts=[["post"]],
                         tail=["until", "save", "save", "adv13", "merge", "merged", "save"] * 3 + ["until", "save", "save", "adv13", "quiet", "reopen"]),
                    disk("steps", nd=[2], nf=[1, 2], nt=[2, 3], caches=[1], depth=14, advs=[13, 15, 16, 30],
                         acts=["save"] * 3 + ["crashadv", "merge", "merged"], tail=["merge", "merged", "crashadv"])],
              ctx.size(300, 3000), cats("mergedlost", "mergednew", "merged", "rpostlost", "rpostnew"),
              few=(masses(["disk"], ["post"], ["merge", "merged", "save", "save", "adv", "merge", "merged", "reopen", "merge", "merged"])
                   + lives(["disk"], ["post"], ["merge", "merged", "reopen"]), ctx.size(32, 200)))


def D07(ctx):
    disk_model(ctx, "I")
    again = ["save", "save", "adv", "save", "restart", "save", "merge", "census"]
    run_store(ctx, [disk("again", nd=[1, 2], nf=[1, 2], nt=[1, 2], ntf=[1, 2, 2], nfs=[1, 2], acts=["save"] * 5 + ["adv"], depth=12,
                         tail=["merge", "census"] + again * 3 + ["restart", "census"], advs=[1, 3, 5, 7, 10, 13, 15]),
                    disk("often", nd=[3], nf=[2, 3], nt=[3], slow=[0, 200], acts=["save"] * 8 + ["adv", "obs"], depth=40, parts=[["somedocs"]],
                         tail=["merge", "census", "restart", "save", "save", "restart"] * 3 + ["merge", "census"])],
              ctx.size(200, 2500), cats("debris", "working"),
              few=(lives(["disk"], ["stat"], ["merge", "census"] + again + ["save", "save", "save", "restart", "census"]), ctx.size(16, 100)))


ALL = ("post", "idx", "size", "len", "df", "docs", "rpostlost", "rpostnew", "rmet", "rdf", "rdocs", "mergedlost", "mergednew",
       "merged", "hits", "once", "rawhits", "rawdoc", "rawstat", "score", "order", "debris")


def I01(ctx):
    kw = dict(nd=[2, 3], nf=[1, 2], nt=[2, 3], pools=["plain", "alike", "hard"], slow=[0, 0, 200], parts=BASE["parts"] + [["post", "idx", "stat", "docs"]] * 3)
    run_store(ctx, [prof("both", backends=["mem", "disk", "disk"], acts=["save"] * 4 + ["obs", "obs", "search", "adv"], depth=24, tail=["obsall", "search"], **kw),
                    disk("sessions", acts=["save"] * 4 + ["obs", "search", "adv", "quiet", "reopen"], depth=24,
                         tail=["quiet", "reopen", "obsall", "save", "quiet", "reopen", "merge", "merged"], **kw),
                    disk("crashes", acts=["save"] * 4 + ["adv", "crashadv", "obs"], depth=14, tail=["obsall", "quiet", "reopen"], **kw)],
              ctx.size(300, 3600), cats(*ALL), group=3)


CLASSES = ["any", "change", "space", "files", "write", "read", "remove", "rename", "mkdir", "create"]


def D08(ctx):
    disk_model(ctx, ["merges that fail", "reads that fail"])
    kw = dict(classes=CLASSES, nd=[2, 3, 4], nf=[1, 2], nt=[2, 3], nfs=[1], caches=[0, 1, 1, 100], parts=[["post", "idx", "stat", "docs"], ["somedocs"]])
    after = ["mend", "obsall", "merge", "merged", "search", "save", "quiet", "obsall", "reopen", "merge", "merged"]
    run_store(ctx, [disk("faults", acts=["save"] * 4 + ["adv", "adv", "obs", "search", "fault", "mend", "reopen"], depth=24, tail=after, **kw),
                    disk("merges", acts=["save"] * 3 + ["adv", "mend"], depth=10, tail=["fault", "save", "merge", "obsall"] + after,
                         **dict(kw, classes=["remove", "change", "files", "rename"])),
                    disk("piling", acts=["save"] * 3 + ["adv"], depth=6, tail=["stuck"] + ["save", "save", "adv"] * 30 + after,
                         **dict(kw, classes=["remove"], nd=[60], nf=[1], advs=[5, 10])),
                    disk("reads", acts=["save"] * 3 + ["adv"], depth=12, tail=["quiet", "fault", "save", "save", "obs", "search", "save", "quiet"] + after,
                         **dict(kw, classes=["files", "read"], nf=[2, 3], caches=[0, 1])),
                    disk("opening", acts=["save"] * 3 + ["adv"], depth=8, tail=["fault", "reopen"] + after, **kw)],
              ctx.size(400, 5000),
              cats("post", "idx", "size", "len", "df", "docs", "rpostlost", "rpostnew", "rmet", "rdf", "rdocs", "mergedlost", "mergednew",
                   "merged", "hits", "once", "rawhits", "rawdoc", "rawstat"))


def D06(ctx):
    hard = dict(pools=["hard", "hard", "hard", "alike"], nd=[4, 6, 8], nf=[3, 4, 5], nt=[3, 5], nfs=[1, 2, 3], caches=[0, 1, 2])
    run_store(ctx, [disk("names", acts=["save"] * 8 + ["adv", "quiet", "obs"], depth=24,
                         tail=["obsall", "quiet", "reopen", "save", "save", "save", "quiet", "obsall", "quiet", "reopen", "merge", "merged", "obsall"], **hard),
                    disk("crashnames", acts=["save"] * 8 + ["crashadv"], depth=14, tail=["crashadv", "quiet", "reopen"], **hard)],
              ctx.size(300, 4000), cats("post", "idx", "size", "len", "df", "docs", "rmet", "rdf", "rdocs", "rpostlost", "rpostnew",
                                        "mergedlost", "mergednew", "merged"))


SEARCH = dict(nq=[1, 1, 2, 3, 4], nqt=[0, 1, 1, 2, 3, 5])


def search_profiles():
    return [prof("live", acts=["save"] * 3 + ["search"] * 2, depth=30, tail=["search"] * 3, **SEARCH),
            prof("bigger", nd=[12, 20], nt=[4, 6], acts=["saveall"] + ["save"] * 6 + ["search"] * 3, depth=30, tail=["search"] * 4, **SEARCH),
            prof("many", nd=[40, 70], nt=[3, 50], ntf=[3, 40], nf=[1, 2], depth=5, acts=["saveall", "save"],
                 tail=["search"] * 6, nq=[1, 2], nqt=[1, 2, 5, 20, 60]),
            prof("ties", nd=[5, 8], nt=[2], ntf=[1], maxtf=1, extralen=[0], nf=[1, 2], acts=["save"] * 5 + ["search"], depth=24,
                 tail=["search"] * 3, **SEARCH),
            prof("disk", backends=["disk"], caches=[0, 1, 2], acts=["save"] * 4 + ["search"] * 2 + ["adv", "quiet", "reopen"], depth=30,
                 tail=["search", "quiet", "reopen", "search", "search"], **SEARCH)]


def Q01(ctx):
    store_model(ctx)
    run_store(ctx, search_profiles(), ctx.size(400, 5000), cats("hits", "once", "rawhits", "rawdoc", "rawstat", "argquery"),
              few=([crowd(["mem", "disk"])], ctx.size(16, 100)))


def Q02(ctx):
    store_model(ctx)
    run_store(ctx, search_profiles(), ctx.size(400, 5000), cats("score", "order"),
              few=([crowd(["mem", "disk"])], ctx.size(16, 100)))


def Q03(ctx):
    verif.model_check(ctx, "SearchPar", "SearchPar.cfg",
                      ["collect_late", "keep_slot", "keep_slot_if_none", "close_early", "drop_rest", "gather_late"],
                      consts={"Docs": "{d1, d2, d3, d4}", "Slots": "1"} if ctx.thorough() else None, workers=2)
    tail = ["searches"] * 4
    run_store(ctx, [prof("small", acts=["save"] * 3 + ["searches"], depth=14, tail=tail, **SEARCH),
                    prof("ties", nd=[6, 9], nt=[2, 3], ntf=[1, 2], maxtf=1, extralen=[0], nf=[1, 2, 3], acts=["save"], depth=16, tail=tail, **SEARCH),
                    prof("many", nd=[40, 80], nt=[3, 40], ntf=[3, 30], nf=[1, 2], nfs=[1], depth=4, acts=["saveall", "saveall", "save"],
                         tail=tail, nq=[1, 2, 3], nqt=[0, 1, 2, 20, 70]),
                    prof("evicting", backends=["disk"], caches=[0, 1, 2, 4], nd=[6, 10], acts=["save"] * 4 + ["adv", "quiet", "searches"],
                         depth=14, tail=tail, **SEARCH)],
              ctx.size(240, 3000), cats("differs", "parhits", "leak"), race=True, env={"GORACE": "halt_on_error=1"},
              few=([prof("crowd", nd=[150, 400, 900], nf=[1, 2], nt=[2, 3], depth=2, pools=["plain"], acts=["savemany"], tail=["searches"] * 2,
                         caches=[0, 5, 2000], nq=[1, 2], nqt=[1, 2, 3])], ctx.size(8, 60)))
