"""What each check runs."""
import os
import vt
from vt import QUICK, Suite
import gen_index as gi
import gen_stores as gs
import gen_paths as gp
import gen_conc as gc
import gen_compile as gm
import gen_update as gu
import gen_console as gk
import gen_parts as gt
import gen_system as gy
import gen_many as gn
import gen_long as gl


def binary_for(work, area, env=None):
    return work.build(race="GORACE" in (env or {}))


COMMANDS = {"VERIF_CMD_UPDATE": "opencorpora_update", "VERIF_CMD_CONSOLE": "opencorpora_test"}
RACE = {"GORACE": "halt_on_error=1 exitcode=66"}


def sample(r, items, n):
    items = list(items)
    return items if len(items) <= n else r.sample(items, n)


def index_suite(c, eps, **kw):
    c.suite(Suite("index", "TraceIndex", "TraceIndex.cfg", eps, c.binary, shards=7, **kw))


def many_suite(c, eps):
    c.suite(Suite("many", "TraceMany", "TraceMany.cfg", eps, c.binary, shards=7))


def long_suite(c, eps):
    c.suite(Suite("long", "TraceLong", "TraceLong.cfg", eps, c.binary, shards=7))


def start(c):
    c.binary = c.work.build()
    return c.rnd


def many(n_quick, n_thorough, f):
    return [f() for _ in range(n_quick if QUICK else n_thorough)]


DUMP = {"op": "dump", "h": "last"}


def c01(c):
    c.model("MCIndex.tla", "MCIndexCore.cfg")
    c.model("MCText.tla", "MCText.cfg" if QUICK else "MCTextDeep.cfg")
    r = start(c)
    scripts = c.gen("GenIndex.tla", "GenIndexCore.cfg")
    eps = gi.from_scripts(r, sample(r, scripts, 1500 if QUICK else 20000), [DUMP])
    eps += many(40, 600, lambda: gi.ep_lookup(r, r.choice([20, 40, 80])))
    eps += many(6, 60, lambda: gi.ep_lookup_two(r, 60))
    eps += many(6, 80, lambda: gi.ep_hot(r, r.choice([40, 120])))
    eps += many(2, 20, lambda: gi.ep_wide(r, 60))
    index_suite(c, eps)
    many_suite(c, [gn.ep_sets_full(r)])
    long_suite(c, [gl.ep_long(r, 6000)])


def c02(c):
    c.model("MCIndex.tla", "MCIndexCore.cfg")
    r = start(c)
    scripts = c.gen("GenIndex.tla", "GenIndexCore.cfg")
    eps = gi.from_scripts(r, sample(r, scripts, 1500 if QUICK else 20000), [DUMP])
    eps += many(25, 400, lambda: gi.ep_enum(r, r.choice([15, 30, 60])))
    eps += many(4, 40, lambda: gi.ep_wide(r, 100))
    eps += [gi.ep_grid(17, 16)]
    index_suite(c, eps)
    c.model("MCMany.tla", "MCMany.cfg")
    many_suite(c, many(1, 8, lambda: gn.ep_plain(r, 66000)))
    long_suite(c, [gl.ep_long(r, r.randint(5000, 9000)), gl.ep_long(r, 66000)] + many(0, 10, lambda: gl.ep_long(r, r.choice([300, 5000, 20000, 70000]))))


def c03(c):
    c.model("MCIndex.tla", "MCIndexFile.cfg")
    r = start(c)
    scripts = [s for s in c.gen("GenIndex.tla", "GenIndexFile.cfg") if any(o["op"] == "load" for o in s)]
    eps = gi.from_scripts(r, sample(r, scripts, 1200 if QUICK else 20000), [{"op": "dump", "h": "A"}, {"op": "dump", "h": "B"}], handles=("A", "B"))
    eps += many(30, 500, lambda: gi.ep_persist(r, r.choice([10, 30, 60])))
    eps += many(5, 50, lambda: gi.ep_hot(r, 60))
    eps += [gi.ep_grid(17, 16), gi.ep_many(65600)] + ([] if QUICK else [gi.ep_grid(260, 256)])
    index_suite(c, eps)
    many_suite(c, many(1, 8, lambda: gn.ep_plain(r, 66000)))
    long_suite(c, [gl.ep_long(r, 9000), gl.ep_long(r, 1100000, False)])


def c04(c):
    c.model("MCIndex.tla", "MCIndexTrunc.cfg")
    r = start(c)
    eps = many(30, 400, lambda: gi.ep_damage(r, r.choice([5, 20, 40])))
    eps += many(20, 100, lambda: gi.ep_damage_tiny(r))
    eps += many(40, 600, lambda: gi.ep_golden_cut(r))
    index_suite(c, eps)


def c05(c):
    c.model("MCIndex.tla", "MCIndexCore.cfg")
    r = start(c)
    scripts = [s for s in c.gen("GenIndex.tla", "GenIndexCore.cfg") if any(o["op"] == "opt" for o in s)]
    tail = [DUMP, {"op": "save", "h": "last", "f": "f"}, {"op": "opt", "h": "last"}, DUMP, {"op": "save", "h": "last", "f": "f"}]
    eps = gi.from_scripts(r, sample(r, scripts, 1000 if QUICK else 20000), tail)
    eps += many(30, 500, lambda: gi.ep_compact(r, r.choice([15, 40, 80])))
    eps += many(5, 50, lambda: gi.ep_hot(r, 80))
    eps += [gi.ep_waste(r, *x) for x in ((12, 1), (25, 1), (60, 1), (70, 2), (150, 1), (1, 12), (2, 40), (30, 30), (0, 20), (300, 3)) + (() if QUICK else ((1100, 3),))]
    eps += many(0, 60, lambda: gi.ep_waste(r, r.randint(0, 120), r.randint(1, 20)))
    eps += [e for e in gi.eps_limits(r) if "tag sets on a word" in e[0]["note"]]
    index_suite(c, eps)
    many_suite(c, [gn.ep_plain(r, 66500)] + ([] if QUICK else many(0, 6, lambda: gn.ep_plain(r, 66500)) + many(0, 2, lambda: gn.ep_combos_full(r))))


def c06(c):
    c.model("MCIndex.tla", "MCIndexLimits.cfg")
    r = start(c)
    index_suite(c, gi.eps_limits(r))
    full = (gn.ep_sets_full, gn.ep_combos_full, gn.ep_singles_full)
    many_suite(c, [f(r) for f in full for _ in range(1 if QUICK else 4)])
    eps = [gs.ep_store_fill(r, k) for k in ("ts", "tsi", "vt", "vi")] + [gs.ep_registry_fill(r)]
    eps += [gs.ep_store_huge(r, k) for k in ("tsi", "vi")]
    eps += [gs.ep_registry_codec_full(r, n) for n in (255, 256)] + many(10, 100, lambda: gs.ep_registry_codec(r, 12))
    eps += [gs.ep_set_codec_long(r, k, n) for k in ("ts", "tso") for n in (255, 256)]
    stores_suite(c, eps)


def c18(c):
    c.model("MCIndex.tla", "MCIndexFile.cfg")
    r = start(c)
    eps = many(120, 1500, lambda: gi.ep_golden(r, 10))
    eps += many(20, 300, lambda: gi.ep_format(r, r.choice([5, 15, 30])))
    eps += gi.eps_first_version(r)
    eps += [gi.ep_golden_long(r, w, n) for w in ("sets", "combos") for n in ((33000, 65535) if QUICK else (32768, 40000, 65535))]
    eps += many(1, 12, lambda: gi.ep_golden_long(r, "tables", 0))
    index_suite(c, eps)


def stores_suite(c, eps, **kw):
    c.suite(Suite("stores", "TraceStores", "TraceStores.cfg", eps, c.binary, shards=7, **kw))


def c07(c):
    c.model("RegistryImpl.tla", "MCRegistry.cfg")
    r = start(c)
    eps = many(150, 3000, lambda: gs.ep_registry(r, r.choice([20, 60])))
    eps += many(4, 40, lambda: gs.ep_registry_fill(r))
    stores_suite(c, eps)
    # through the index as well
    index_suite(c, many(40, 600, lambda: gi.ep_enum(r, 25)))


def c08(c):
    c.model("RegistryImpl.tla", "MCRegistry.cfg")
    r = start(c)
    eps = many(120, 2000, lambda: gs.ep_registry_codec(r, 12))
    eps += [gs.ep_registry_codec_full(r, n) for n in (100, 127, 128, 254, 255, 256)]
    stores_suite(c, eps)


def c09(c):
    c.model("StoresImpl.tla", "MCStoresTable.cfg")
    c.model("StoresImpl.tla", "MCStoresColl.cfg")
    c.negative("StoresImpl.tla", "MCStoresWrap.cfg", "Invariant AnswersOK is violated")
    r = start(c)
    scripts = c.gen("GenStores.tla", "GenStores.cfg")
    eps = [gs.ep_store_script(r, s) for s in sample(r, scripts, 1200 if QUICK else 4000)]
    for kind in gs.KINDS:
        eps += many(25, 500, lambda: gs.ep_store(r, kind, r.choice([20, 50, 120])))
        eps += many(2, 12, lambda: gs.ep_store_fill(r, kind))
        eps += many(1, 10, lambda: gs.ep_store_long(r, kind))
        if kind in ("c16", "tsi", "vi"):
            eps += many(1, 10, lambda: gs.ep_store_huge(r, kind))
        if kind not in gs.CAP:
            eps += many(1, 4, lambda: gs.ep_store_big(r, kind, 2500))
    stores_suite(c, eps)


def c10(c):
    c.model("MCSetCodec.tla", "MCSetCodec.cfg")
    c.negative("MCSetCodec.tla", "MCSetCodecPart.cfg", "is violated")
    r = start(c)
    eps = many(150, 3000, lambda: gs.ep_set_codec(r, 12))
    for kind in ("s8", "ts", "tso"):
        eps += [gs.ep_set_codec_long(r, kind, n) for n in (127, 128, 254, 255, 256, 257, 300, 512)]
    eps += [gs.ep_set_codec_long(r, "s16", n) for n in (127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537)]
    stores_suite(c, eps)


def c11(c):
    c.model("MCPacking.tla", "MCPacking.cfg")
    r = start(c)
    stores_suite(c, gs.eps_packing(r, 2 if QUICK else 40))


def c20(c):
    c.model("MCPaths.tla", "MCPathsQuick.cfg" if QUICK else "MCPaths.cfg")
    r = start(c)
    scratch = c.work.path("scratch")
    os.mkdir(scratch)
    eps = many(300, 6000, lambda: gp.ep_paths(r, r.choice([15, 30])))
    eps += many(30, 600, lambda: gp.ep_names(r, r.choice([20, 60])))
    eps += many(60, 1000, lambda: gp.ep_loader(r))
    c.suite(Suite("paths", "TracePaths", "TracePaths.cfg", eps, c.binary, env={"VERIF_SCRATCH": scratch}, shards=7))


def c12(c):
    c.model("ConcReaders.tla", "MCConcReaders.cfg" if QUICK else "MCConcReaders3.cfg")
    c.negative("ConcReaders.tla", "MCConcReadersLazy.cfg", "Invariant NoConflict is violated")
    r = start(c)
    raced = c.work.build(race=True)
    eps = many(60, 900, lambda: gc.ep_readers(r, r.choice([6, 15, 30])))
    eps += many(15, 200, lambda: gc.ep_readers_held(r, r.choice([6, 15])))
    eps += many(10, 100, lambda: gc.ep_savers(r, 20))
    c.suite(Suite("conc", "TraceIndex", "TraceIndex.cfg", eps, raced, env=RACE, shards=5, schedule=True))
    # without the race detector there are more and other interleavings
    eps = many(30, 600, lambda: gc.ep_readers(r, r.choice([6, 15, 30]), rounds=20))
    eps += many(10, 200, lambda: gc.ep_savers(r, 20))
    c.suite(Suite("conc", "TraceIndex", "TraceIndex.cfg", eps, c.binary, shards=5, schedule=True))


def c13(c):
    c.model("ConcCreate.tla", "MCConcCreate.cfg")
    c.negative("ConcCreate.tla", "MCConcCreateFill.cfg", "Invariant Stored is violated")
    c.negative("ConcCreate.tla", "MCConcCreateTake.cfg", "Invariant Distinct is violated")
    r = start(c)
    raced = c.work.build(race=True)
    mk = lambda: gc.ep_create(r, r.choice([2, 3, 8]), r.choice([3, 20, 100]), r.choice([1, 3, 6]))
    c.suite(Suite("conc", "TraceCreate", "TraceCreate.cfg", many(60, 800, mk), raced, env=RACE, shards=5, schedule=True))
    eps = many(100, 1500, mk) + many(6, 60, lambda: gc.ep_create(r, 8, 600, 2))
    c.suite(Suite("conc", "TraceCreate", "TraceCreate.cfg", eps, c.binary, shards=5, schedule=True))


def compile_suite(c, eps):
    scratch = c.work.path("scratch")
    os.makedirs(scratch, exist_ok=True)
    c.suite(Suite("compile", "TraceIndex", "TraceIndex.cfg", eps, c.binary, env={"VERIF_SCRATCH": scratch}, shards=7))


def compile_scripts(c):
    n = 1500 if QUICK else 20000
    return c.gen("MCCompile.tla", "GenCompile.cfg", extra=("-simulate", "num=%d" % n, "-depth", "90", "-seed", str(vt.SEED)))


def c14(c):
    c.model("MCCompile.tla", "MCCompileQuick.cfg" if QUICK else "MCCompile.cfg", workers="6")
    r = start(c)
    eps = [gm.from_script(r, t, r.random() < 0.3) for t in compile_scripts(c)[:600 if QUICK else 20000]]
    eps += many(150, 3000, lambda: gm.ep_compile(r, r.choice([1, 3, 6])))
    eps += many(8, 100, lambda: gm.ep_compile(r, 40, 6))
    eps += [gm.ep_compile(r, n, k) for n, k in ((4200, 1), (30, 150))]
    eps += [] if QUICK else [gm.ep_compile(r, n, k) for n, k in ((1100, 2), (2100, 1), (8300, 1), (20, 600), (3, 5000))]
    eps += many(1, 6, lambda: gm.ep_slow(r, 4, 11500)) + many(5, 60, lambda: gm.ep_slow(r, 4, r.choice([10, 100, 1100])))
    eps += gm.eps_limits(r)
    compile_suite(c, eps)


def c15(c):
    c.model("MCCompile.tla", "MCCompileQuick.cfg" if QUICK else "MCCompile.cfg", workers="6")
    r = start(c)
    eps = [gm.from_script(r, t, r.random() < 0.7) for t in compile_scripts(c)[:600 if QUICK else 20000]]
    eps += many(200, 4000, lambda: gm.ep_bad(r, r.choice([1, 2, 4])))
    eps += many(12, 200, lambda: gm.ep_cuts(r, r.choice([1, 2]), 120))
    eps += gm.eps_limits(r)
    compile_suite(c, eps)


def update_suite(c, eps):
    scratch = c.work.path("scratch")
    os.makedirs(scratch, exist_ok=True)
    env = {"VERIF_SCRATCH": scratch, "VERIF_CMD_UPDATE": c.work.build_cmd("opencorpora_update")}
    c.suite(Suite("update", "TraceUpdate", "TraceUpdate.cfg", eps, c.binary, env=env, shards=7, schedule=True))


def update_models(c):
    if QUICK:
        c.model("UpdateMachine.tla", "MCUpdate.cfg")
        c.model("UpdateMachine.tla", "MCUpdateBad.cfg")
    else:
        c.model("UpdateMachine.tla", "MCUpdateDeep.cfg")
    c.negative("UpdateMachine.tla", "MCUpdateInPlace.cfg", "Invariant Whole is violated")
    c.negative("UpdateMachine.tla", "MCUpdateNoResume.cfg", "Invariant Converges is violated")
    c.negative("UpdateMachine.tla", "MCUpdatePubDuring.cfg", "Invariant Converges is violated")


def c16(c):
    update_models(c)
    r = start(c)
    cases = c.gen("GenUpdate.tla", "GenUpdate.cfg")
    if QUICK:
        cases = r.sample(cases, 2500)
    eps = [gu.ep_case(r, x) for x in cases]
    eps += many(120, 3000, lambda: gu.ep_history(r, r.choice([6, 12, 20])))
    eps += many(10, 50, lambda: gu.ep_published_during(r))
    update_suite(c, eps)


def c17(c):
    update_models(c)
    r = start(c)
    eps = gu.eps_faults(r, 26)
    eps += many(40, 400, lambda: gu.ep_fault(r, r.choice(gu.STARTS), gu.fault(r, r.randint(1, 60)), big=True))
    eps += many(120, 2500, lambda: gu.ep_fault(r, r.choice(gu.STARTS), gu.fault(r, r.randint(1, 25)), then=gu.fault(r, r.randint(1, 25))))
    eps += many(100, 1500, lambda: gu.ep_cut(r, r.choice(gu.STARTS), r.choice([0, 1, 500, 999, r.randint(0, 999)])))
    eps += many(40, 800, lambda: gu.ep_storm(r, r.choice([5, 10])))
    if not QUICK:
        eps += gu.eps_faults(r, 60, big=True)
    update_suite(c, eps)


def c19(c):
    c.model("ConsoleMachine.tla", "MCConsole.cfg" if QUICK else "MCConsoleDeep.cfg")
    r = start(c)
    scratch = c.work.path("scratch")
    os.makedirs(scratch, exist_ok=True)
    env = {"VERIF_SCRATCH": scratch, "VERIF_CMD_CONSOLE": c.work.build_cmd("opencorpora_test")}
    lines = c.gen("ConsoleMachine.tla", "GenConsole.cfg")
    eps = gk.eps_lines(lines, 60)
    eps += many(60, 1500, lambda: gk.ep_console(r, r.choice([20, 60])))
    eps += many(12, 150, lambda: gk.ep_bad_start(r))
    c.suite(Suite("console", "TraceConsole", "TraceConsole.cfg", eps, c.binary, env=env, shards=7))


def c22(c):
    c.model("MCIndex.tla", "MCIndexIds.cfg")
    c.negative("MCIndex.tla", "MCIndexIdsAlways.cfg", "Action property AlwaysVars is violated")
    r = start(c)
    scripts = c.gen("GenIndex.tla", "GenIndexCore.cfg")
    eps = gi.from_scripts(r, sample(r, scripts, 600 if QUICK else 20000), [{"op": "chain", "h": "last"}])
    scripts = [s for s in c.gen("GenIndex.tla", "GenIndexFile.cfg") if any(o["op"] == "load" for o in s)]
    tail = [{"op": "chain", "h": "A"}, {"op": "chain", "h": "B"}]
    eps += gi.from_scripts(r, sample(r, scripts, 400 if QUICK else 20000), tail, handles=("A", "B"))
    eps += many(60, 900, lambda: gi.ep_chain(r, r.choice([6, 15, 30])))
    eps += many(30, 400, lambda: gi.ep_chain(r, r.choice([4, 12]), gi.golden(r)))
    eps += many(2, 20, lambda: gi.ep_chain_big(r, r.choice([12, 100, 256]), 150))
    index_suite(c, eps)
    many_suite(c, [gn.trails(f(r)) for f in ((gn.ep_sets_full,) if QUICK else (gn.ep_sets_full, gn.ep_combos_full, gn.ep_singles_full, lambda r: gn.ep_plain(r, 66500)))])


def c21(c):
    c.model("MCSame.tla", "MCSame.cfg")
    if not QUICK:
        c.model("MCSame.tla", "MCSameFilled.cfg")
    c.negative("MCSame.tla", "MCSameAny.cfg", "Invariant SameBytes is violated")
    r = start(c)
    eps = many(90, 1500, lambda: gi.ep_same(r, r.choice([6, 15, 40])))
    eps += many(6, 60, lambda: gi.ep_same(r, 60, 0.3))
    eps += many(250, 3000, lambda: gi.ep_same(r, r.choice([8, 14, 25]), r.choice([0, 0.05]), churn=True))
    eps += many(20, 300, lambda: gi.ep_same_file(r, r.choice([4, 10])))
    index_suite(c, eps)
    eps = many(60, 1000, lambda: gm.ep_same(r, r.choice([1, 3, 6])))
    eps += many(5, 60, lambda: gm.ep_same(r, 30))
    compile_suite(c, eps)


def c23(c):
    c.model("MCParts.tla", "MCParts.cfg" if QUICK else "MCPartsDeep.cfg")
    c.negative("MCParts.tla", "MCPartsAhead.cfg", "Invariant ReadRight is violated")
    c.negative("MCParts.tla", "MCPartsPadding.cfg", "Invariant CutNoticed is violated")
    c.negative("MCParts.tla", "MCPartsAdding.cfg", "Invariant ReadRight is violated")
    r = start(c)
    eps = many(150, 3000, lambda: gt.ep_streams(r, r.choice([4, 10])))
    eps += many(6, 100, lambda: gt.ep_pairs(r))
    for kind in gt.KINDS:
        eps += many(3, 40, lambda: gt.ep_big(r, kind))
    eps += gt.eps_full(r)
    c.suite(Suite("parts", "TraceParts", "TraceParts.cfg", eps, c.binary, shards=7))


def c24(c):
    c.model("Ownership.tla", "MCOwnCopy.cfg")
    c.model("Ownership.tla", "MCOwnView.cfg")
    c.negative("Ownership.tla", "MCOwnKeep.cfg", "Invariant Kept is violated")
    c.negative("Ownership.tla", "MCOwnGive.cfg", "Invariant Kept is violated")
    r = start(c)
    eps = many(60, 900, lambda: gi.ep_owner(r, r.choice([4, 10, 25])))
    eps += many(30, 500, lambda: gi.ep_kept(r, r.choice([4, 10, 25])))
    index_suite(c, eps)
    eps = []
    for kind in gs.KINDS:
        eps += many(12, 300, lambda: gs.owned(r, gs.ep_store(r, kind, r.choice([20, 50, 120]))))
        eps += many(1, 8, lambda: gs.owned(r, gs.ep_store_long(r, kind)))
        eps += many(1, 8, lambda: gs.owned(r, gs.ep_store_fill(r, kind)))
        if kind not in gs.CAP:
            eps += many(1, 4, lambda: gs.owned(r, gs.ep_store_big(r, kind, 1200)))
    eps += many(25, 500, lambda: gs.owned(r, gs.ep_registry(r, r.choice([20, 60]))))
    stores_suite(c, eps)


def c25(c):
    c.model("ConcUpdate.tla", "MCConcUpdate.cfg")
    if not QUICK:
        c.model("ConcUpdate.tla", "MCConcUpdateEmpty.cfg")
        c.model("ConcUpdate.tla", "MCConcUpdatePub.cfg")
        c.model("ConcUpdate.tla", "MCConcUpdateThree.cfg")
    c.negative("ConcUpdate.tla", "MCConcUpdateShared.cfg", "Invariant Whole is violated")
    c.negative("ConcUpdate.tla", "MCConcUpdatePlace.cfg", "Invariant Whole is violated")
    r = start(c)
    eps = gu.eps_race(r, 90, 2 if QUICK else 1)
    eps += many(150, 4000, lambda: gu.ep_race(r, r.choice(gu.STARTS), gu.spans(r, 2, 60, r.choice([3, 5, 9]))))
    eps += many(60, 1500, lambda: gu.ep_race(r, r.choice(gu.STARTS), gu.spans(r, 3, 60, r.choice([3, 6, 12])), procs=3))
    eps += many(60, 1500, lambda: gu.ep_race(r, r.choice(gu.STARTS), gu.spans(r, 2, 60, r.choice([2, 4])), kill=True))
    eps += many(30, 800, lambda: gu.ep_race(r, r.choice(gu.STARTS), gu.spans(r, 2, 60, r.choice([2, 4])), kinds=0.5))
    eps += many(20, 400, lambda: gu.ep_race(r, r.choice(gu.STARTS), gu.spans(r, 2, 90, r.choice([2, 4, 8])), big=True))
    eps += gu.eps_load(r, 8 if QUICK else 40)
    eps += many(30, 800, lambda: gu.ep_race(r, r.choice(gu.STARTS), gu.spans(r, 3, 60, r.choice([4, 8])), procs=3, loads=1, big=r.random() < 0.5))
    eps += many(60, 1500, lambda: gu.ep_together(r, r.choice([2, 3, 6])))
    update_suite(c, eps)


def c26(c):
    c.model("MCSystem.tla", "MCSystem.cfg")
    c.negative("MCSystem.tla", "MCSystemDeaf.cfg", "Invariant Fresh is violated")
    c.negative("MCSystem.tla", "MCSystemLive.cfg", "Invariant True1 is violated")
    r = start(c)
    scratch = c.work.path("scratch")
    os.makedirs(scratch, exist_ok=True)
    env = {"VERIF_SCRATCH": scratch, "VERIF_CMD_UPDATE": c.work.build_cmd("opencorpora_update"),
           "VERIF_CMD_CONSOLE": c.work.build_cmd("opencorpora_test")}
    eps = many(90, 2500, lambda: gy.ep_system(r, r.choice([6, 12, 20]), r.choice([2, 3, 4]), r.choice([1, 3, 6])))
    eps += many(6, 80, lambda: gy.ep_system(r, 8, 3, 40))
    eps += many(10, 150, lambda: gy.ep_gone(r))
    c.suite(Suite("system", "TraceSystem", "TraceSystem.cfg", eps, c.binary, env=env, shards=7, schedule=True))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
          "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24,
          "C25": c25, "C26": c26}
