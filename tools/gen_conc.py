"""Random episodes for the concurrency driver: what goroutines do side by side."""
import gen_index as gi


def reads(g, h, files, n, held):
    r = g.r
    ops = []
    for _ in range(n):
        k = r.random()
        w = g.some_node(h) if r.random() < 0.6 and g.s[h].nodes else r.choice(g.absent(h))
        if k < 0.5:
            via = r.choice(["string", "runes", "item", "parent"])
            op = {"op": "fetch", "w": w, "via": via}
            if via in ("item", "parent"):
                op["split"] = r.randint(0, len(w) - 1)
        elif k < 0.75:
            op = {"op": "path", "w": w}
        elif k < 0.85 and held and g.s[h].words:
            op = {"op": "held", "w": list(r.choice(g.s[h].words))}
        elif k < 0.9:
            op = {"op": "dump", "probe": g.absent(h)[:4]}
        elif k < 0.96:
            op = {"op": "counts"}
        elif k < 0.98:
            op = {"op": "chain"}
        else:
            op = {"op": "resave", "f": r.choice(files)}
        ops.append(op)
    return ops


def threads_of(g, h, files, held, nthreads, nops):
    same = reads(g, h, files, nops, held)
    k = g.r.random()
    if k < 0.3:                                            # all the same
        return [same for _ in range(nthreads)]
    return [reads(g, h, files, nops, held) for _ in range(nthreads)]


def ep_readers(r, n, rounds=3):
    """A and B hold the same content: what is read on A side by side is first read on B one by one."""
    g = gi.Gen(r, maxlen=r.choice([2, 3, 4, 6]), ntags=r.choice([1, 3, 8]), maxset=r.choice([1, 2, 4]))
    g.new("A")
    g.new("B")
    g.twins = ["A", "B"]
    g.build("A", n)
    if r.random() < 0.4:
        g.opt("A")
    g.twins = []
    nthreads, nops = r.choice([2, 4, 8]), r.choice([3, 8, 15])
    if r.random() < 0.5:                                   # as filled
        ths = [[o for o in th if o["op"] != "resave"] for th in threads_of(g, "A", ["f"], False, nthreads, nops)]
        ths = [th or [{"op": "counts"}] for th in ths]
        if r.random() < 0.5:
            g.save("B", "f")
            g.save("B", "g")
        g.op(op="par", h="B", seq=True, threads=ths)
        g.dump("B")
        g.op(op="par", h="A", threads=ths, rounds=rounds)
        g.dump("A")
        if r.random() < 0.4:                               # further use
            g.build("A", 6)
            g.dump("A")
    else:                                                  # as loaded
        g.save("A", "f")
        g.load("B", "f")
        ths = threads_of(g, "B", ["f"], False, nthreads, nops)
        g.op(op="par", h="B", seq=True, threads=ths)
        g.dump("B")
        g.op(op="resave", h="B", f="f")
        g.load("C", "f")
        g.op(op="par", h="C", threads=ths, rounds=rounds)
        g.dump("C")
        g.op(op="resave", h="C", f="f")
        if r.random() < 0.5:                               # warm
            g.op(op="par", h="C", threads=threads_of(g, "C", ["f"], False, nthreads, nops), rounds=rounds)
            g.dump("C")
            g.op(op="resave", h="C", f="f")
    return g.done("readers")


def ep_readers_held(r, n, rounds=3):
    """Readers of nodes kept since they were added."""
    g = gi.Gen(r, maxlen=3, ntags=3, maxset=3)
    g.new("A")
    g.new("B")
    g.twins = ["A", "B"]
    g.build("A", n)
    g.twins = []
    added = [o["w"] for o in g.ops if o["op"] == "add" and o["h"] == "A"]
    g.s["A"].words = g.s["B"].words = added or []
    if not added:
        return ep_readers_held(r, n, rounds)
    ths = [[{"op": "held", "w": list(r.choice(added))} for _ in range(4)] + reads(g, "A", ["f"], 3, True) for _ in range(4)]
    ths = [[o for o in th if o["op"] != "resave"] for th in ths]
    g.op(op="par", h="B", seq=True, threads=ths)
    g.dump("B")
    g.op(op="par", h="A", threads=ths, rounds=rounds)
    g.dump("A")
    return g.done("readers of held nodes")


def ep_savers(r, n):
    """Several goroutines save at the same time while others read."""
    g = gi.Gen(r, maxlen=4, ntags=5, maxset=3)
    g.new("A")
    g.build("A", n)
    g.dump("A")
    g.save("A", "f")
    g.op(op="par", h="A", seq=True, threads=[[{"op": "resave", "f": "f"}] * 2])
    ths = [[{"op": "resave", "f": "f"}] * 2 for _ in range(3)] + [reads(g, "A", ["f"], 6, False) for _ in range(3)]
    g.op(op="par", h="A", threads=ths, rounds=3)
    g.op(op="resave", h="A", f="f")
    g.dump("A")
    return g.done("savers")


def ep_create(r, threads, per, groups):
    ops = [{"op": "reset", "note": "creators"}, {"op": "items", "s": "s"}]
    for _ in range(groups):
        counts = [r.randint(0, per) for _ in range(threads)]
        ops.append({"op": "make", "s": "s", "counts": counts, "yield": r.random() < 0.3})
        if r.random() < 0.25:
            ops.append({"op": "itemsagain", "s": "s"})
    return ops
