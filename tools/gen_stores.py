"""Episodes for the area "stores": set stores, tag registries, binary forms, identifiers."""
KINDS = ["t8", "t16", "c8", "c16", "ts", "tsi", "vt", "vi"]
NARROW = {"t8", "c8", "ts", "tsi"}              # 8-bit elements
PAIRS = {"vt", "vi"}                            # elements are 32 bit
PAIR_IDS = {"c16", "tsi", "vi"}                 # identifiers are 32 bit
CAP = {"t8": 256, "c8": 256}
MODES = ["all", "one", "two", "three", "rand", "idle", "dataerr"]


def elem(r, kind, pool=None):
    if kind in NARROW:
        v = r.choice(pool) if pool else r.choice([0, 1, 2, 3, 127, 128, 254, 255, r.randrange(256)])
        return v
    if kind in PAIRS:
        if pool:
            v = r.choice(pool)
            return [v % 3, v * 7 % 65536]
        return [r.choice([0, 0, 1, 255, 256, 65535]), r.choice([0, 1, 255, 256, 32768, 65535, r.randrange(65536)])]
    return r.choice(pool) if pool else r.choice([0, 1, 255, 256, 257, 32767, 32768, 65535, r.randrange(65536)])


def a_set(r, kind, maxlen=5, pool=None):
    n = r.choice([1, 1, 2, 2, 3, 3, 4, maxlen])
    return [elem(r, kind, pool) for _ in range(min(n, maxlen))]


def an_id(r, kind):
    if kind in PAIR_IDS:
        return [r.choice([0, 1, 2, 3, 5, 255, 256, 65535]), r.choice([0, 1, 2, 7, 255, 256, 65535])]
    if kind == "c8":
        return r.choice([0, 1, 2, 255, 256, 257, 512, 1024, 65535, r.randrange(65536)])
    if kind == "t8":
        return r.choice([0, 1, 2, 5, 127, 128, 255])
    return r.choice([0, 1, 2, 5, 255, 256, 32768, 65535])


def key(x):
    return tuple(tuple(e) if isinstance(e, list) else e for e in x)


def likely_ids(kind, counts):
    """Identifiers a store of this kind would use, plus neighbours: only queries, not expectations."""
    out = []
    top = max(counts) if counts else 1
    if kind in ("t8", "t16", "ts", "vt"):
        n = sum(counts.values())
        return list(range(min(n + 2, 256 if kind == "t8" else 65536)))
    for size in range(0, top + 2):
        for i in range(counts.get(size, 0) + counts.get(size + 1, 0) + 2):
            out.append([size, i] if kind in PAIR_IDS else (size * 256 + i) % 65536)
    seen, res = set(), []
    for x in out:
        k = tuple(x) if isinstance(x, list) else x
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res


def gets(kind, stored):
    counts = {}
    for x in stored:
        counts[len(x)] = counts.get(len(x), 0) + 1
    return {"op": "gets", "s": "a", "ids": likely_ids(kind, counts)}


def shuffled(r, x):
    y = list(x)
    r.shuffle(y)
    return y


def ep_store(r, kind, n, maxlen=5):
    pool = None if r.random() < 0.4 else list(range(1, r.choice([3, 4, 8])))
    ops = [{"op": "reset", "note": "store " + kind}, {"op": "mk", "s": "a", "kind": kind}]
    stored = set()
    lst = []
    for _ in range(n):
        k = r.random()
        if k < 0.45 or not lst:
            x = shuffled(r, r.choice(lst)) if lst and r.random() < 0.3 else a_set(r, kind, maxlen, pool)
            ops.append({"op": "put", "s": "a", "x": x})
            s = key(sorted(x))
            if s not in stored:
                stored.add(s)
                lst.append(sorted(x))
        elif k < 0.65:
            ops.append({"op": "find", "s": "a", "x": sorted(r.choice(lst))})
        elif k < 0.8:
            x = a_set(r, kind, maxlen + 3, pool)
            ops.append({"op": "find", "s": "a", "x": sorted(x) if r.random() < 0.8 else x})
        elif k < 0.84:
            ops.append({"op": r.choice(["find", "put"]), "s": "a", "x": []})
        elif k < 0.92:
            ops.append({"op": "get", "s": "a", "id": an_id(r, kind)})
        else:
            ops.append(gets(kind, lst))
    ops.append(gets(kind, lst))
    for x in shuffled(r, lst)[:12]:
        ops.append({"op": "find", "s": "a", "x": x})
        ops.append({"op": "put", "s": "a", "x": shuffled(r, x)})
    ops.append(gets(kind, lst))
    return ops


def ep_store_script(r, script):
    kind = r.choice(KINDS)
    conv = (lambda v: [v - 1, 7 - v]) if kind in PAIRS else (lambda v: v)
    ops = [{"op": "reset", "note": "script " + kind}, {"op": "mk", "s": "a", "kind": kind}]
    lst = []
    for x in script:
        y = [conv(v) for v in x]
        ops.append({"op": "put", "s": "a", "x": y})
        if key(sorted(y)) not in {key(z) for z in lst}:
            lst.append(sorted(y))
    ops.append(gets(kind, lst))
    for n in (1, 2, 3, 4):
        for ones in range(n + 1):
            ops.append({"op": "find", "s": "a", "x": sorted([conv(1)] * ones + [conv(2)] * (n - ones))})
    return ops


def ep_store_fill(r, kind):
    """Up to the last identifier and beyond."""
    ops = [{"op": "reset", "note": "fill " + kind}, {"op": "mk", "s": "a", "kind": kind}]
    cap = CAP.get(kind, 65536)
    room = r.choice([1, 2, 3])
    if kind in CAP and r.random() < 0.5:
        # really fill it: sets of two
        sets = [sorted([a, b]) for a in range(23) for b in range(a, 23)][:cap + 4]
        r.shuffle(sets)
        lst = []
        for x in sets[:cap + 3]:
            ops.append({"op": "put", "s": "a", "x": x})
        lst = sets[:cap]
        ops.append({"op": "gets", "s": "a", "ids": list(range(256)) if kind == "t8" else list(range(256, 512)) + [0, 255, 512, 513]})
        for x in sets:
            ops.append({"op": "find", "s": "a", "x": x})
        return ops
    ops.append({"op": "prefill", "s": "a", "n": cap - room})
    mk = (lambda i: [[0, 1], [2, i], [65535, 65535]]) if kind in PAIRS else (lambda i: [i, 254, 255])
    spots = [0, 1, cap // 2, cap - room - 1, cap - room, cap - 1]
    ids = [([2 if kind != "vi" else 3, i] if kind in PAIR_IDS else (512 + i if kind == "c8" else i)) for i in spots]
    ops.append({"op": "gets", "s": "a", "ids": ids[:4]})
    if r.random() < 0.5:
        ops.append({"op": "again", "s": "a", "ids": ids[:4]})
    for i in range(room + 2):
        ops.append({"op": "put", "s": "a", "x": shuffled(r, mk(i))})
        ops.append({"op": "find", "s": "a", "x": sorted(mk(i))})
    if kind in ("c8", "c16", "tsi", "vi"):
        ops.append({"op": "put", "s": "a", "x": mk(0)[:2]})
    ops.append({"op": "again", "s": "a", "ids": ids})
    for i in range(room + 2):
        ops.append({"op": "put", "s": "a", "x": mk(i)})
        ops.append({"op": "find", "s": "a", "x": sorted(mk(i))})
    ops.append({"op": "gets", "s": "a", "ids": ids})
    return ops


def ep_store_big(r, kind, n):
    """Thousands of sets, of few sizes, so that tables are long; old ones put again."""
    ops = [{"op": "reset", "note": "big " + kind}, {"op": "mk", "s": "a", "kind": kind}]
    seen, lst, xs = set(), [], []
    size = r.choice([3, 4])
    while len(lst) < n:
        if lst and r.random() < 0.2:
            x = shuffled(r, lst[r.randrange(min(len(lst), 50))] if r.random() < 0.3 else r.choice(lst))
        else:
            x = [elem(r, kind, range(r.choice([60, 250]))) for _ in range(size if r.random() < 0.95 else size - 1)]
        xs.append(x)
        if key(sorted(x)) not in seen:
            seen.add(key(sorted(x)))
            lst.append(sorted(x))
    step = r.choice([n, n // 3 + 1])
    for i in range(0, len(xs), step):
        ops.append({"op": "putall", "s": "a", "xs": xs[i:i + step]})
    old = lst[:20] + [r.choice(lst) for _ in range(40)] + lst[-20:]
    for x in old:
        ops.append({"op": "find", "s": "a", "x": x})
    ops.append({"op": "putall", "s": "a", "xs": [shuffled(r, x) for x in old]})
    for x in old[::4]:
        ops.append({"op": "find", "s": "a", "x": sorted(x[:-1] + [elem(r, kind, range(250))])})
    ids = [r.randrange(n + 5) for _ in range(40)] + [0, 1, 255, 256, 511, 512, 1023, 1024]
    ops.append({"op": "again", "s": "a", "ids": [[size - r.randrange(2), i] for i in ids] if kind in PAIR_IDS else ids})
    return ops


def ep_store_long(r, kind):
    """Long sets."""
    ops = [{"op": "reset", "note": "long " + kind}, {"op": "mk", "s": "a", "kind": kind}]
    sizes = r.sample([31, 64, 127, 128, 200, 254, 255, 256], 4) + ([257, 300] if kind in ("c8", "c16") else [256])
    lst = []
    for n in sizes:
        x = sorted(elem(r, kind) for _ in range(n))
        y = list(x)
        y[r.randrange(n)] = elem(r, kind)
        for z in (x, y):
            ops.append({"op": "put", "s": "a", "x": shuffled(r, z)})
            ops.append({"op": "find", "s": "a", "x": sorted(z)})
            lst.append(sorted(z))
    for z in lst:
        ops.append({"op": "put", "s": "a", "x": shuffled(r, z)})
    for z in lst:
        ops.append({"op": "find", "s": "a", "x": z[:-1]})
    return ops


def ep_store_huge(r, kind):
    """Sets about as large as the number of the table of their size can tell, and small ones they could be taken for."""
    ops = [{"op": "reset", "note": "huge " + kind}, {"op": "mk", "s": "a", "kind": kind}]
    pick = elem(r, kind), elem(r, kind)

    def some(n):
        k = r.choice([0, 1, n // 2, n - 1, n])
        return sorted([pick[0]] * k + [pick[1]] * (n - k))
    small = [some(n) for n in (1, 2, 3)]
    ops += [{"op": "put", "s": "a", "x": x} for x in small if r.random() < 0.7]
    big = [some(n) for n in r.sample([65535, 65536, 65537, 65538, 65539], 4)]
    for x in big:
        ops += [{"op": "find", "s": "a", "x": x}, {"op": "put", "s": "a", "x": x}, {"op": "find", "s": "a", "x": x}]
    ops += [{"op": "put", "s": "a", "x": x} for x in small] + [{"op": "find", "s": "a", "x": x} for x in small]
    return ops


# --- registries ---------------------------------------------------------------------------
def bts(s):
    return list(s.encode("utf-8"))


NAMES = ["NOUN", "VERB", "ADJF", "nomn", "gent", "sing", "plur", "----", "", "    ", "ab", "abcde", "noun", "NOU", "  ab",
         "яд", "Name", "abcdef", "abcdg", "abcd", "NOUN1", "NOUN2", "ядро", "ядра", "яды", "яд\x00\x00", "\x00abcd", "\x00abce",
         "----\x00", "-----", "A\x00B\x00", "\x00\x00\x00\x00"]


def name4(i):
    s = ""
    for _ in range(4):
        s += "ABCDEFGHIJKLMNOP"[i % 16]
        i //= 16
    return bts(s)


def ep_registry(r, n):
    ops = [{"op": "reset", "note": "registry"}]
    names = [bts(x) for x in r.sample(NAMES, r.randrange(3, len(NAMES)))] + [name4(r.randrange(65536)) for _ in range(r.choice([0, 5, 20]))]
    start = []
    if r.random() < 0.4:
        seen = set()
        for x in r.sample(names, min(3, len(names))):
            if tuple(x) not in seen:
                seen.add(tuple(x))
                start.append([x, r.choice(names)])
    ops.append({"op": "rmk", "s": "a", "tags": start})
    for i in range(n):
        k = r.random()
        x = r.choice(names)
        if k < 0.45:
            ops.append({"op": "rput", "s": "a", "n": x, "p": r.choice(names) if r.random() < 0.7 else []})
        elif k < 0.7:
            ops.append({"op": "rfind", "s": "a", "n": x})
        elif k < 0.9:
            ops.append({"op": "rget", "s": "a", "id": r.choice([0, 1, 2, 3, 5, 10, 127, 128, 255])})
        else:
            ops.append({"op": "rdump", "s": "a"})
    ops.append({"op": "rdump", "s": "a"})
    for x in names:
        ops.append({"op": "rfind", "s": "a", "n": x})
    return ops


def ep_registry_fill(r):
    ops = [{"op": "reset", "note": "registry full"}, {"op": "rmk", "s": "a", "tags": []}]
    base = r.randrange(1000)
    order = list(range(258))
    r.shuffle(order)
    for i in order:
        ops.append({"op": "rput", "s": "a", "n": name4(base + i), "p": [] if i % 3 else name4(base)})
        if r.random() < 0.05:
            ops.append({"op": "rput", "s": "a", "n": name4(base + r.choice(order)), "p": name4(1)})
            ops.append({"op": "rdump", "s": "a"})
    ops.append({"op": "rdump", "s": "a"})
    for i in order:
        ops.append({"op": "rfind", "s": "a", "n": name4(base + i)})
    for i in (0, 1, 127, 128, 254, 255):
        ops.append({"op": "rget", "s": "a", "id": i})
    return ops


# --- memory ------------------------------------------------------------------------------------
def owned(r, ops):
    """The same history twice: with a caller that leaves alone what it lent, then with one that writes to it. In the
    first one answers are kept, and looked at again."""
    first = [dict(o, keep=True) if o["op"] in ("get", "gets") else o for o in ops[1:]]
    at = r.randrange(1, len(first) + 1)
    again = [dict(o, s="b", vandal=True) for o in ops[1:] if "s" in o]
    return [ops[0]] + first[:at] + [{"op": "kept"}] + first[at:] + [{"op": "kept"}] + again


# --- binary forms ----------------------------------------------------------------------------
def tail(r):
    return [r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 17]))]


def rt(r, kind, v):
    return {"op": "rt", "kind": kind, "v": v, "tail": tail(r), "mode": r.choice(MODES), "seed": r.randrange(1 << 20)}


def some_name(r, wrong=0.0):
    if r.random() < wrong:
        return r.choice([bts("a"), bts("ab"), bts("abc"), bts("abcde"), bts("abcdefgh"), bts("яды"), [255] * 3, [0] * 5,
                         bts("NOUN "), bts("NOUN   "), bts(" NOUN"), [32] * 5, bts("NOUN\x00"), bts("\x00NOUN"), bts("NOUN\n"), bts("-----"), bts("---"),
                         bts("яд "), bts("\ufeffA"), [32] * 3])
    return r.choice([bts("NOUN"), bts("яд"), [], bts("----"), bts("    "), bts("   a"), bts("a   "), bts(" -- "), [0, 0, 0, 0],
                     [255, 254, 253, 252], [32, 32, 32, 0], name4(r.randrange(65536)), [r.randrange(256) for _ in range(4)]])


def ep_registry_codec(r, n):
    ops = [{"op": "reset", "note": "registry bytes"}]
    for _ in range(n):
        k = r.random()
        if k < 0.35:
            ops.append(rt(r, "reg", [[some_name(r), some_name(r)] for _ in range(r.choice([0, 1, 2, 3, 7, 20]))]))
        elif k < 0.5:
            ops.append(rt(r, "regraw", [[some_name(r), some_name(r)] for _ in range(r.choice([1, 2, 3, 7]))]))
        elif k < 0.6:
            ops.append(rt(r, "regraw", [[some_name(r, 0.2), some_name(r, 0.2)] for _ in range(r.choice([1, 2, 3]))]))
        elif k < 0.7:
            ops.append(rt(r, "tag", [[some_name(r, 0.2), some_name(r, 0.2)]]))
        elif k < 0.8:
            ops.append(rt(r, "name", some_name(r, 0.4)))
        elif k < 0.9:
            ops.append({"op": "unmarshal", "bytes": some_name(r, 0.4)})
        else:
            ops.append({"op": "marshal", "v": some_name(r, 0.4)})
    return ops


def ep_registry_codec_full(r, n):
    base = r.randrange(1000)
    return [{"op": "reset", "note": "registry bytes %d" % n},
            rt(r, "reg", [[name4(base + i), name4(i) if i % 2 else []] for i in range(n)])]


def ep_set_codec(r, n):
    ops = [{"op": "reset", "note": "set bytes"}]
    for _ in range(n):
        kind = r.choice(["s8", "s16", "ts", "tso"])
        ln = r.choice([0, 0, 1, 1, 2, 3, 5, 10, 40])
        if kind == "s16":
            v = [r.choice([0, 1, 255, 256, 257, 32768, 65535, r.randrange(65536)]) for _ in range(ln)]
        else:
            v = [r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(ln)]
        ops.append(rt(r, kind, v))
    return ops


def ep_set_codec_long(r, kind, ln):
    top = 65536 if kind == "s16" else 256
    return [{"op": "reset", "note": "set bytes %s %d" % (kind, ln)}, rt(r, kind, [r.randrange(top) for _ in range(ln)])]


# --- identifiers --------------------------------------------------------------------------------
EDGE = [0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65279, 65280, 65281, 65534, 65535]


def eps_packing(r, n):
    eps = [[{"op": "reset", "note": "pack8 %d" % k}] + [{"op": "pack8", "a": a} for a in range(k * 64, k * 64 + 64)] for k in range(4)]
    eps += [[{"op": "reset", "note": "unpack16 %d" % k}, {"op": "unpack16", "from": k * 8192, "to": (k + 1) * 8192}] for k in range(8)]
    edges = [[a, b] for a in EDGE for b in EDGE]
    for kind in ("id32", "tagset", "variant"):
        for part in range(n):
            rnd = [[r.randrange(65536), r.randrange(65536)] for _ in range(1500)]
            rnd += [[r.choice(EDGE), r.randrange(65536)] for _ in range(250)] + [[r.randrange(65536), r.choice(EDGE)] for _ in range(250)]
            rnd += [[1 << r.randrange(16), 1 << r.randrange(16)] for _ in range(100)]
            xs = edges + rnd if part == 0 else rnd
            eps.append([{"op": "reset", "note": "pack32 " + kind}, {"op": "pack32", "kind": kind, "pairs": xs},
                        {"op": "unpack32", "kind": kind, "xs": xs}])
    return eps
