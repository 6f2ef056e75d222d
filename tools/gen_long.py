"""Indexes of a few very long words: area "long"."""


def around(r, *points):
    s = set()
    for p in points:
        s |= {p - 1, p, p + 1}
    return sorted(x for x in s if x >= 0)


def ep_long(r, n, text=True):
    """Words of up to n letters; the first one is made longer when the nodes of another one have come between."""
    short = r.randint(2, 40)
    at = [x for x in around(r, 1, short, n) if x <= n or text] + sorted(r.randrange(n) for _ in range(4))
    marks = [x for x in (128, 256, 1024, 4096, 32768, 65536, 1 << 20) if x < n]
    at2 = [x for x in around(r, 1, n, *marks) if x <= n] if n < 10000 else [n]
    ops = [{"op": "reset", "note": "words of %d letters" % n}, {"op": "new", "h": "A"}]

    def look(h):
        more = [{"op": "probe", "h": h, "s": 2, "at": around(r, *marks), "text": False}] if marks else []
        return more + [{"op": "probe", "h": h, "s": 1, "at": around(r, short, 2 * short), "text": True},
                {"op": "probe", "h": h, "s": 2, "at": at2, "text": text and (n < 10000 or h == "B")},
                {"op": "probe", "h": h, "s": 2, "at": at, "text": False}, {"op": "probe", "h": h, "s": 3, "at": [1, 2], "text": True},
                {"op": "count", "h": h}]
    ops += [{"op": "add", "h": "A", "s": 1, "n": short}, {"op": "tag", "h": "A", "s": 1, "n": short}]
    if r.random() < 0.5:
        ops.append({"op": "add", "h": "A", "s": 2, "n": r.randrange(1, n)})
    ops += [{"op": "add", "h": "A", "s": 2, "n": n}, {"op": "add", "h": "A", "s": 1, "n": 2 * short},
            {"op": "tag", "h": "A", "s": 2, "n": n}, {"op": "tag", "h": "A", "s": 2, "n": n + 1 if text else n - 1}, {"op": "tag", "h": "A", "s": 1, "n": 2 * short}]
    for k in r.sample(range(1, n), 3):
        ops.append({"op": "tag", "h": "A", "s": 2, "n": k})
    ops += look("A")
    ops += [{"op": "save", "h": "A", "f": "f"}, {"op": "load", "h": "B", "f": "f"}] + look("B")
    ops += [{"op": "add", "h": "B", "s": 3, "n": 2}, {"op": "add", "h": "B", "s": 2, "n": n + 5}, {"op": "opt", "h": "B"}] + look("B")
    return ops
