"""Episodes for the area "parts": binary forms of the parts of an index, in streams."""
import gen_index as gi
from gen_stores import MODES

KINDS = ["s8", "s16", "ts", "tso", "name", "tag", "reg", "tst", "tsi", "var", "vt", "vi", "item", "items"]
EDGE16 = [0, 1, 2, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535]


def num16(r):
    return r.choice(EDGE16) if r.random() < 0.6 else r.randrange(65536)


def halves(r):
    k = r.random()
    return [0, num16(r)] if k < 0.5 else [num16(r), 0] if k < 0.6 else [num16(r), num16(r)]


def letter(r):
    return r.choice([[0, 0x430], [0, 97], [0, 65535], [1, 0], [0x10, 0xFFFF], [0, 0], [0, 45], [0, r.randrange(65536)]])


def name(r):
    k = r.random()
    if k < 0.12:
        return []
    if k < 0.2:
        return r.choice([[32] * 4, [45] * 4, [32, 32, 32, 65], [65, 32, 32, 32], [0] * 4, [255] * 4, [32, 65, 32, 32]])
    if k < 0.85:
        return gi.tag_name(r.randint(0, 60))
    return [r.randrange(256) for _ in range(4)]


def some(r, f, sizes):
    return [f(r) for _ in range(r.choice(sizes))]


def byte(r):
    return r.choice([0, 1, 2, 127, 128, 254, 255, r.randrange(256)])


def value(r, kind, big=False):
    sizes = [0, 1, 1, 2, 3, 5] + ([40, 127, 128, 255] if big else [])
    small = [0, 1, 1, 2, 3]
    few = [0, 1, 2, 3] + ([20, 255, 256, 300] if big else [])
    if kind in ("s8", "ts", "tso"):
        return some(r, byte, sizes)
    if kind == "s16":
        return some(r, num16, sizes + ([256, 300] if big else []))
    if kind == "name":
        return name(r)
    if kind == "tag":
        return [name(r), name(r)]
    if kind == "reg":
        return [[name(r), name(r)] for _ in range(r.choice(sizes[:6] + ([60, 255] if big else [])))]
    if kind == "tst":
        return [some(r, byte, small) for _ in range(r.choice(few))]
    if kind == "tsi":
        return [[some(r, byte, small) for _ in range(r.choice([0, 1, 2]))] for _ in range(r.choice(few))]
    if kind == "var":
        return some(r, halves, sizes)
    if kind == "vt":
        return [some(r, halves, small) for _ in range(r.choice(few))]
    if kind == "vi":
        return [[some(r, halves, small) for _ in range(r.choice([0, 1, 2]))] for _ in range(r.choice([0, 1, 2, 3] + ([20, 255] if big else [])))]
    if kind == "item":
        return [halves(r), halves(r), letter(r), halves(r)]
    if kind == "items":
        return [[halves(r), letter(r), halves(r)] for _ in range(r.choice([0, 1, 2, 3, 6] + ([40, 70, 300] if big else [])))]
    return gi.golden(r)[0]


def part(r, kind=None, big=False):
    kind = kind or r.choice(KINDS + ["index"])
    return [kind, value(r, kind, big)]


def stream(r, parts):
    return {"op": "stream", "parts": parts, "tail": [r.choice([0, 1, 84, 255]) for _ in range(r.choice([0, 1, 2, 3, 8]))],
            "mode": r.choice(MODES), "seed": r.randrange(1 << 20), "each": r.random() < 0.5}


def ep_streams(r, n):
    ops = [{"op": "reset", "note": "streams"}]
    for _ in range(n):
        k = r.random()
        if k < 0.3:
            ps = [part(r)]
        elif k < 0.5:
            kind = r.choice(KINDS)
            ps = [part(r, kind) for _ in range(r.choice([2, 3]))]
        else:
            ps = [part(r) for _ in range(r.choice([2, 3, 4]))]
        ops.append(stream(r, ps))
    return ops


def ep_pairs(r):
    """Every kind before every other."""
    ops = [{"op": "reset", "note": "pairs"}]
    kinds = KINDS + ["index"]
    for a in kinds:
        b = r.choice(kinds)
        ops.append(stream(r, [part(r, a), part(r, b), part(r, a)]))
    return ops


def ep_big(r, kind):
    return [{"op": "reset", "note": "long " + kind}, stream(r, [part(r, r.choice(KINDS)), part(r, kind, True), part(r, r.choice(KINDS))])]


def eps_full(r):
    """As many as the counters of the forms can count, and more."""
    eps = []

    def ep(what, *parts):
        eps.append([{"op": "reset", "note": what}, stream(r, list(parts))])
    after = ["name", gi.tag_name(3)]
    for n in (127, 128, 255, 256, 257, 512):
        ep("set of %d" % n, ["ts", [i % 256 for i in range(n)]], after)
        ep("set of %d" % n, ["tso", [i % 256 for i in range(n)]], after)
        ep("combination of %d" % n, ["var", [[0, i] for i in range(n)]], after)
        ep("table with a set of %d" % n, ["tst", [[1], [i % 256 for i in range(n)]]], after)
        ep("index with a set of %d" % n, ["tsi", [[], [[1], [i % 256 for i in range(n)]]]], after)
        ep("table with a combination of %d" % n, ["vt", [[[0, 1]], [[1, i] for i in range(n)]]], after)
        ep("index with a combination of %d" % n, ["vi", [[], [[[1, i] for i in range(n)]]]], after)
        ep("%d combination tables" % n, ["vi", [[]] * (n - 1) + [[[[0, 1]]]]], after)
        ep("%d tag set tables" % n, ["tsi", [[]] * (n - 1) + [[[1]]]], after)
        ep("%d combinations" % n, ["vt", [[[i, 1]] for i in range(n)]], after)
        ep("%d tag sets" % n, ["tst", [[i % 256] for i in range(n)]], after)
        ep("%d items" % n, ["items", [[[0, i], [0, 97 + i % 20], [1, i]] for i in range(n)]], after)
        ep("%d tags" % n, ["reg", [[gi.tag_name(i), []] for i in range(n)]], after)
    for n in (65535, 65536):
        ep("%d tag sets" % n, after, ["tst", [[i % 256] for i in range(n)]])
        ep("index of %d tag sets" % n, after, ["tsi", [[[i % 256] for i in range(n)]]])
    return eps
