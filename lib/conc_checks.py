"""Concurrency: the caches, concurrent use of a disk store, searches during saves."""
import verif
from file_checks import report


def conc(ctx, profiles, num, spec="Lin", race=True, reps=2, test="TestConc"):
    binary = verif.build(ctx, race=race, yields=True)
    bs = verif.generate(ctx, "ConcGen", "ConcGen.cfg", profiles, num, ctx.seed, depth=100)
    traces = verif.drive(ctx, binary, test, bs, env={"VERIF_REPS": str(reps), "GORACE": "halt_on_error=1"})
    ctx.log("ran %d programs, %d times each" % (len(bs), reps))
    report(ctx, verif.validate(ctx, spec, spec + ".cfg", traces))
    ctx.log("validated")


LBASE = dict(nk=[1, 2, 3, 5], nd=1, nf=1, nt=1, pools=["plain", "hard"], caps=[0, 1, 2, 3, 4], nq=[1], nqt=[1], nsf=[1], sleeps=[1])


def K01(ctx):
    verif.model_check(ctx, "LRU", "LRU.cfg", ["get_no_move", "put_no_move", "put_keeps_value", "evict_front", "evict_late"],
                      consts={"MaxOps": "7"} if ctx.thorough() else None, workers=2)
    lru = dict(LBASE, kind="lru", impls=["lru"], mix=["put", "put", "get"])
    common = [dict(lru, name="one thread", threads=[1], ops=[20, 60], nk=[2, 3, 5, 8], caps=[0 - 2, 0, 1, 2, 3, 5, 8]),
              dict(lru, name="two", threads=[2], ops=[3, 5, 8]),
              dict(lru, name="more", threads=[3, 4], ops=[2, 3, 4], mix=["put", "get"])]
    conc(ctx, common * 6 + [dict(lru, name="large", threads=[1], ops=[1500], nk=[120, 400], caps=[33, 64, 100, 257])],
         ctx.size(600, 8000), reps=ctx.size(2, 3))


def K03(ctx):
    m = dict(LBASE, kind="map", impls=["local", "shard", "shard"], caps=[1, 2, 3, 7, 10, 64, 1000], nk=[1, 2, 4, 8], mix=["mset", "mget"],
             pools=["plain", "hard", "digests"])
    conc(ctx, [dict(m, name="one thread", threads=[1], ops=[30, 60], nk=[8, 40]),
               dict(m, name="digests", threads=[1], ops=[60], nk=[12, 24], pools=["digests"], impls=["shard"],
                    caps=[1, 2, 3, 5, 7, 10, 12, 13, 17, 31, 100, 641]),
               dict(m, name="data", threads=[1], ops=[30], impls=["local"], mix=["mset", "mset", "mget", "data"]),
               dict(m, name="more", threads=[2, 3, 4], ops=[3, 5])],
         ctx.size(600, 8000), reps=ctx.size(2, 3))


def C01(ctx):
    verif.model_check(ctx, "StoreConc", "StoreConc.cfg", ["save_rlock", "saver_reads", "nested_read"],
                      consts={"MaxSaves": "4", "MaxTicks": "2"} if ctx.thorough() else None, workers=2)
    st = dict(LBASE, kind="store", impls=["disk"], caps=[0, 1, 2, 10], nd=2, nf=1, nt=2, sleeps=[1, 2, 5, 7, 10, 13, 15],
              mix=["save", "save", "save", "docs", "size", "len", "df", "fields", "fields", "index"])
    conc(ctx, [dict(st, name="two", threads=[2], ops=[4, 6]),
               dict(st, name="three", threads=[3], ops=[3, 4]),
               dict(st, name="sleeping", threads=[2, 3, 4], ops=[4, 6], nd=2, nf=2,
                    mix=["save", "save", "post", "docs", "df", "size", "fields", "sleep", "sleep", "index"]),
               dict(st, name="evicting", threads=[3], ops=[5], nd=4, caps=[1, 2], sleeps=[5, 10, 5],
                    mix=["save", "save", "fields", "fields", "sleep"])],
         ctx.size(800, 6000), reps=ctx.size(2, 3))


def K02(ctx):
    verif.model_check(ctx, "WriteBehind", "WriteBehind.cfg", ["drop_when_full", "first_wins", "never", "publish_buffer_only", "old_wins"],
                      consts={"MaxPuts": "4", "MaxClock": "7"} if ctx.thorough() else None, workers=2)
    base = dict(impls=["rcu", "sync"], nk=[1, 2, 3], pools=["plain", "hard"], mix=["put", "put", "get"], threads=[1], ops=[1, 2, 3], vals=[0],
                naps=[1, 500, 2999, 3000, 3001], advs=[1, 999, 1000, 1500, 2999, 3000, 3001, 5000], each=[1], depth=16,
                acts=["par", "par", "adv", "reads"])
    profiles = [dict(base, name="one"), dict(base, name="values", vals=[0, 1, 2, 2], nk=[1, 2], depth=24),
                dict(base, name="several", threads=[2, 3, 4], ops=[1, 2, 4], mix=["put", "put", "get", "nap"], depth=10),
                dict(base, name="bursts", acts=["burst", "adv"], depth=3, each=[1, 50, 1000, 3000]),
                dict(base, name="readers", threads=[4, 8], ops=[6], mix=["put", "get", "get", "nap"], naps=[1000, 3000], nk=[1, 2], depth=4)]
    binary = verif.build(ctx, race=True, yields=True)
    bs = verif.generate(ctx, "WBGen", "WBGen.cfg", profiles, ctx.size(400, 5000), ctx.seed, depth=100)
    traces = verif.drive(ctx, binary, "TestWriteBehind", bs, env={"GORACE": "halt_on_error=1"})
    ctx.log("ran", len(bs), "histories")
    report(ctx, verif.validate(ctx, "WBTrace", "WBTrace.cfg", traces))


def C02(ctx):
    verif.model_check(ctx, "StoreConc", "StoreConc.cfg", ["stats_first", "two_sections"],
                      consts={"Searchers": "{s1, s2}", "MaxSearches": "2"} if ctx.thorough() else None, workers=2)
    verif.model_check(ctx, "StoreConc", "StoreConc.cfg", ["no_filter"],
                      consts={"Stale": "TRUE", "Writers": "{w1}" if not ctx.thorough() else "{w1, w2}"}, workers=2)
    ov = dict(LBASE, kind="overlap", impls=["disk"], caps=[0, 1, 2, 10], nd=4, nf=2, nt=3, sleeps=[1, 5, 7, 10],
              nq=[1, 1, 2, 3], nqt=[1, 2, 3], nsf=[1, 1, 2], mix=["save", "save", "search", "search", "sleep"])
    conc(ctx, [dict(ov, name="two", threads=[2], ops=[4, 6], mix=["save", "search"]),
               dict(ov, name="first", threads=[2, 3], ops=[1, 2], nd=3, nf=1, nt=1, nqt=[1], mix=["save", "search"]),
               dict(ov, name="more", threads=[3, 4, 6], ops=[4, 8], nd=6),
               dict(ov, name="wide", threads=[2, 4], ops=[6], nf=1, nt=150, nqt=[1, 5, 80]),
               dict(ov, name="fields", threads=[3, 4], ops=[4, 8], nf=4, nsf=[2, 3, 4]),
               dict(ov, name="many", threads=[4], ops=[10], nd=40, nt=4, mix=["save", "save", "save", "search", "sleep"])],
         ctx.size(500, 4000), spec="Overlap", reps=ctx.size(3, 5))
