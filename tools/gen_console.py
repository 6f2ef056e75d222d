"""Episodes for the area "console": dictionary files, and lines typed at the console."""
import gen_index as gi

LETTERS = [97, 98, 1073, 1105, 49, 45, 39, 32, 0x4E2D, 0x1F600, 0x301, 110, 116]


def cps(s):
    return [ord(c) for c in s]


def image(r):
    b, tags, words = gi.golden(r, LETTERS)
    return b, tags, words


def counts(b):
    return b[3]


def number(r, top):
    n = r.choice([0, 1, 2, top - 1, top, top + 1, r.randint(0, max(top, 1)), 255, 256, 65535, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, 1 << 70])
    n = max(n, 0)
    f = r.choice(["%d"] * 6 + ["0x%x", "0X%X", "0%o", "0b", "+%d", "00%d", "%dz", "0o%o", "-0x%x"])
    return "0b" + bin(n)[2:] if f == "0b" else f % n


def line(r, tags, words, n_sets, items):
    k = r.random()
    full = r.random() < 0.5
    c = lambda s: s if full else s[0]
    if k < 0.25:
        w = list(r.choice(words)) if words and r.random() < 0.75 else [r.choice(LETTERS) for _ in range(r.randint(0, 5))]
        if r.random() < 0.1:
            w = w + [r.choice(LETTERS)]
        return w
    if k < 0.45:
        x = r.random()
        if tags and x < 0.4:
            name = bytes(r.choice(tags)[1]).decode("latin1")
            return cps(c("tag") + " " + r.choice([name, name.lower(), name.upper(), name.swapcase(), name + "x", name[:3]]))
        return cps(c("tag") + " " + (number(r, len(tags)) if x < 0.9 else "count"))
    if k < 0.62:
        x = r.random()
        if x < 0.1:
            return cps(c("set") + " tables")
        if x < 0.4:
            return cps(c("set") + " table " + number(r, n_sets))
        t, i = r.randint(0, n_sets + 1), r.randint(0, 4)
        return cps(c("set") + " " + r.choice(["%d", "0x%x"]) % (t * 65536 + i) if x < 0.8 else c("set") + " " + number(r, 5))
    if k < 0.77:
        t, i = r.randint(0, 4), r.randint(0, 4)
        return cps(c("var") + " " + (r.choice(["%d", "0x%x"]) % (t * 65536 + i) if r.random() < 0.8 else number(r, 5)))
    if k < 0.95:
        x = r.random()
        if x < 0.05:
            return cps(c("node") + " count")
        if x < 0.5:
            return cps(c("node") + " ") + (list(r.choice(words)) if words else [98])
        return cps(c("node") + " " + (str(r.randint(0, items)) if x < 0.8 else number(r, items)))
    return cps(r.choice(["tag", "set", "s", "var", "v", "node", "n", "t", "set table", "tag 1 2", "node 1 2", "tags", "nodes", "t ", " ", "tag -", "set table x", "var x", "variant", "Exit", "EXIT"]))


def trailer(b, words):
    """numbers of tables of sets and of nodes"""
    at = 4 + 8 * b[3] + 3
    return int.from_bytes(bytes(b[at:at + 4]), "big"), len(words)


def ep_console(r, n, reloads=True):
    b, tags, words = image(r)
    ops = [{"op": "reset", "note": "console"}, {"op": "file", "bytes": b}, {"op": "start"}]
    for _ in range(n):
        if reloads and r.random() < 0.05:
            x = r.random()
            if x < 0.7:
                b, tags, words = image(r)
                ops.append({"op": "file", "bytes": b})
            elif x < 0.8:
                ops.append({"op": "file", "absent": True})
                ops.append({"op": "line", "line": cps("tag count")})
                ops += [{"op": "file", "bytes": b}]
            ops.append({"op": "line", "line": cps(r.choice(["reload", "r"]))})
        sets, items = trailer(b, words)
        ops.append({"op": "line", "line": line(r, tags, words, sets, items)})
    if r.random() < 0.5:
        ops.append({"op": "line", "line": cps(r.choice(["exit", "e"]))})
    else:
        ops.append({"op": "eof"})
    return ops


def ep_bad_start(r):
    b, _, _ = image(r)
    ops = [{"op": "reset", "note": "no dictionary"}]
    if r.random() < 0.7:
        ops.append({"op": "file", "bytes": b[:r.randrange(len(b))]})
    ops.append({"op": "start"})
    ops += [{"op": "file", "bytes": b}, {"op": "start"}, {"op": "line", "line": cps("node count")}]
    ops.append({"op": "file", "bytes": b[:r.randrange(len(b))]} if r.random() < 0.6 else {"op": "file", "absent": True})
    ops += [{"op": "line", "line": cps("tag count")}, {"op": "line", "line": cps("reload")}, {"op": "eof"}]
    return ops


# what Console.tla calls Img0 and Img1
def it(p, i, l, v):
    return gi.u32(p) + gi.u32(i) + gi.u32(l) + gi.u16(v[0]) + gi.u16(v[1])


NONE = [32] * 4
IMG0 = [84, 68, 0, 0, 84, 73, 0] + gi.u32(0) + [67, 68, 0, 0, 73, 68, 0] + gi.u32(1) + [0] * 16
IMG1 = ([84, 68, 0, 3] + NONE + cps("AAaa") + cps("AAaa") + cps("NOUN") + cps("NOUN") + cps("noun") +
        [84, 73, 0] + gi.u32(2) + gi.u16(2) + [1, 1, 1, 0] + gi.u16(1) + [2, 0, 1] +
        [67, 68, 0, 2] + gi.u32(1) + [1] + gi.u16(0) + gi.u16(1) + gi.u32(1) + [2] + gi.u16(0) + gi.u16(0) + gi.u16(1) + gi.u16(0) +
        [73, 68, 0] + gi.u32(6) + it(0, 0, 0, (0, 0)) + it(0, 1, 97, (1, 0)) + it(1, 2, 1073, (2, 0)) + it(0, 3, 49, (0, 0)) +
        it(1, 4, 32, (1, 0)) + it(4, 5, 98, (2, 0)))


def eps_lines(lines, per):
    eps = []
    for b in (IMG0, IMG1):
        for at in range(0, len(lines), per):
            ops = [{"op": "reset", "note": "lines of the model"}, {"op": "file", "bytes": b}, {"op": "start"}]
            ops += [{"op": "line", "line": x} for x in lines[at:at + per]]
            eps.append(ops + [{"op": "eof"}])
    return eps
