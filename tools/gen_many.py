"""Indexes of very many words: area "many"."""
import gen_index as gi


def shape(r, n):
    k = r.random()
    if k < 0.4:
        return {"n": n, "b1": 0x20000, "w": 0, "b2": 0}
    w = r.choice([257, 300, 1000]) if k < 0.9 else 65000
    return {"n": n, "b1": r.choice([0x400, 97]), "w": w, "b2": 0x20000}


def coprime(r, n):
    while True:
        k = r.choice([1, 1, n - 1, r.randrange(1, n), 65537, 40503])
        a, b = n, k
        while b:
            a, b = b, a % b
        if a == 1:
            return k


def words(r, n, h="A"):
    return {"op": "words", "h": h, "mul": coprime(r, n), "add": r.choice([0, 0, r.randrange(n)])}


def give(sets, lo, hi, h="A", **kw):
    return dict({"op": "give", "h": h, "from": lo, "to": hi, "sets": sets}, **kw)


def start(note, tags, sh):
    return [{"op": "reset", "note": note, "tags": [gi.tag_name(i) for i in range(tags)], "shape": sh}]


def some_sets(r, tags, n, sizes=(1, 2, 3)):
    return [sorted(r.choice(range(tags)) for _ in range(r.choice(sizes))) for _ in range(n)]


LOOK = {"op": "look", "h": "A"}


def alone(r, put, n):
    """Words each with a tag set no other word has: the first one made, the last one, some between."""
    made = [put["add"] % n, (put["add"] + put["mul"] * (n - 1)) % n] + r.sample(range(n), 3)
    return [give([[k for k in range(6) if j >> k & 1] + [6, 7]], i, i + 1) for j, i in enumerate(made, r.randrange(40))]


def ep_plain(r, n):
    """More nodes than 16 bits can number, with tag sets; to a file and back; compacted."""
    sh = shape(r, n)
    put = words(r, n)
    ops = start("many words", 8, sh) + [{"op": "new", "h": "A"}, {"op": "tags", "h": "A"}, put]
    if r.random() < 0.3:
        ops.append(LOOK)
    k = r.choice([3, 5, 7])
    ops += [give(some_sets(r, 6, k), 0, n), give(some_sets(r, 6, 5), 0, n),
            give(some_sets(r, 6, 4), 0, n, by=15, rests=sorted(r.sample(range(15), 5)), div=r.choice([1, 3]))]
    ops += alone(r, put, n) + [LOOK]
    ops += [{"op": "save", "h": "A", "f": "f"}, {"op": "opt", "h": "A"}, LOOK, words(r, n), {"op": "save", "h": "A", "f": "g"},
            {"op": "load", "h": "B", "f": "g"}, dict(LOOK, h="B"), {"op": "load", "h": "A", "f": "f"}, LOOK,
            {"op": "opt", "h": "A"}, LOOK, give(some_sets(r, 6, 2), n // 2, n, by=7, rests=[2, 3]), LOOK]
    return ops


def ep_sets_full(r, sure=False):
    """As many tag sets of a size as there are identifiers, and more."""
    extra = 3
    n0 = r.choice([65533, 65534, 65535]) if not sure else 65535
    n = 65536 + extra
    a = 41
    sets = [[i % a, i // a % a, i // (a * a)] for i in range(n)]
    sets = [sorted([x, a + y, 2 * a + z]) for x, y, z in sets]
    tags = 3 * a
    sh = shape(r, n)
    ops = start("tag sets of a size", tags, sh) + [{"op": "forge", "f": "f", "rules": [give(sets, 0, n0)]}, {"op": "load", "h": "A", "f": "f"}]
    if r.random() < 0.5:
        ops.append(LOOK)
    for i in range(n0, n):
        ops.append(give([sets[i]], i, i + 1))
        if i >= 65534:
            ops.append({"op": "save", "h": "A", "f": "g"})
    ops += [LOOK, give([[1], [2, 3]], 0, 40)]
    if r.random() < 0.5:
        ops += [{"op": "opt", "h": "A"}]
    return ops + [LOOK, {"op": "load", "h": "B", "f": "g"}, dict(LOOK, h="B")]


def ep_combos_full(r):
    """As many combinations of a size as there are identifiers, and more; compaction makes room."""
    n0, n = r.choice([65534, 65535, 65536]), 65540
    one = [[0, x] for x in range(2, 252)]
    two = [sorted([1, 2 + y % 200, 202 + y // 200]) for y in range(270)]
    sh = shape(r, n)
    first, second = dict(give(one, 0, n0)), dict(give(two, 0, n0), div=250)
    ops = start("combinations of a size", 253, sh) + [{"op": "forge", "f": "f", "rules": [first, second]}, {"op": "load", "h": "A", "f": "f"}]
    if r.random() < 0.5:
        ops.append(LOOK)
    ops += [give(one, n0, n), give(two, n0, n, div=250), LOOK]
    # give words of the beginning another tag set: their combinations get free
    ops += [give([[5, 6, 7, 8]], 10, 14), give(two, n0, n, div=250), {"op": "save", "h": "A", "f": "g"}]
    ops += [{"op": "opt", "h": "A"}, LOOK, {"op": "save", "h": "A", "f": "g"}, give(two, n0, n, div=250), LOOK,
            {"op": "load", "h": "B", "f": "g"}, dict(LOOK, h="B")]
    return ops


def ep_singles_full(r):
    """More words of one tag set than there are identifiers of such combinations: the word which is refused stays as it was."""
    n0, n = r.choice([65534, 65535, 65536]), 65540
    a = 36
    sets = [[i % a, a + i // a % a, 2 * a + i // (a * a)] + ([123] if i % 3 == 0 else []) for i in range(n)]
    sh = shape(r, n)
    ops = start("words of one tag set", 124, sh) + [{"op": "forge", "f": "f", "rules": [give(sets, 0, n0)]}, {"op": "load", "h": "A", "f": "f"}]
    ops += [give([sets[i]], i, i + 1) for i in range(n0, n)] + [LOOK]
    ops += [give([[7]], 100, 103), {"op": "save", "h": "A", "f": "g"}, {"op": "opt", "h": "A"}, LOOK]
    ops += [give([sets[i]], i, i + 1) for i in range(65535, n)] + [LOOK, {"op": "save", "h": "A", "f": "g"}, {"op": "load", "h": "B", "f": "g"}, dict(LOOK, h="B")]
    return ops


def trails(ops):
    """The same, with identifiers followed after the last look at each handle."""
    last = {o["h"]: k for k, o in enumerate(ops) if o["op"] == "look"}
    res = []
    for k, o in enumerate(ops):
        res.append(o)
        if k in last.values():
            res.append(dict(o, op="trail"))
    return res
