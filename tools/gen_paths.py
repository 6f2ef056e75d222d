"""Episodes for the area "paths": trees of files in a scratch directory and calls of the helpers."""


def b(s):
    return list(s.encode("utf-8", "surrogateescape"))       # "\udcXX" is the byte XX on its own


NAMES = ["a", "b.txt", "c.tar.gz", ".hidden", ".x.y", "noext.", "dir", "d.d", "яда", "a b", "..x", "...", "-", "UPPER.XML", "UPPER.xml", "idx", "a.a", "x.b.big.b", ".a.a"]
ODD = ["a\udcff", "\udcd0", "x\ny", "tail ", " lead", "t\tb", "n" * 200, "я" * 120, "a\\b", "%s%d.x", "~", "$HOME", "*", "?.x", "e\u0301",
       "\u00e9", "a:b", "file:", "\u202egpj.a", "\ufeffa", "a.\udcfe.b", "~root", "a;b", "'q'", '"', "con", "a\r", "\x01.\x7f"]


def arg(comps, abs_=False, slash=False):
    return {"abs": abs_, "c": [b(x) for x in comps], "slash": slash}


def ep_names(r, n):
    """Many names over few letters: dots at every place, parts that repeat each other."""
    ops = [{"op": "reset", "note": "names"}]
    letters = r.choice(["ab.", "a.", "a.b", "aя. ", "ab..", "A.a", "a\udcff.", "a\n .", "e\u0301\u00e9."])
    names = set()
    for _ in range(n):
        s = "".join(r.choice(letters) for _ in range(r.choice([1, 2, 3, 4, 5, 6, 8, 12])))
        if s.strip(".") or len(s) > 2:
            names.add(s)
    names = sorted(names)
    d = []
    if r.random() < 0.5:
        d = [r.choice(names)]
        ops.append({"op": "mkdir", "p": arg(d, True)})
    for s in names:
        if [s] != d:
            ops.append({"op": r.choice(["file", "file", "mkdir"]), "p": arg(d + [s], True)})
    for s in names:
        if [s] != d:
            ops.append({"op": "resolve", "p": arg(d + [s], r.random() < 0.5, r.random() < 0.1)})
    ops.append({"op": "tree"})
    return ops


def ep_paths(r, n):
    ops = [{"op": "reset", "note": "paths"}]
    dirs, files, links = [[]], [], []
    names = r.sample(NAMES, r.randrange(3, len(NAMES)))
    if r.random() < 0.4:
        names += r.sample(ODD, r.randrange(3, 12))
    cwd = []
    have = set()

    def fresh():
        for _ in range(20):
            p = r.choice(dirs) + [r.choice(names)]
            if tuple(p) not in have:
                return p
        return None

    def absarg(p):
        return arg(p, True)

    for _ in range(r.choice([2, 5, 9])):
        p = fresh()
        if p is None:
            break
        have.add(tuple(p))
        k = r.random()
        if k < 0.4:
            ops.append({"op": "mkdir", "p": absarg(p)})
            dirs.append(p)
        elif k < 0.55:
            ops.append({"op": "file", "p": absarg(p)})
            files.append(p)
        elif k < 0.75:      # a dictionary's file
            p = p[:-1] + [r.choice(["dict.xml", "dict.xml.bz2"])]
            if tuple(p) not in have:
                have.add(tuple(p))
                ops.append({"op": r.choice(["file", "file", "mkdir"]), "p": absarg(p)})
                files.append(p)
        else:
            t = r.choice(dirs + files + [["missing"]])
            to = absarg(t) if r.random() < 0.5 else arg([".."] * (len(p) - 1) + t if t else [".."] * (len(p) - 1) + ["."])
            ops.append({"op": "link", "p": absarg(p), "to": to})
            links.append(p)

    def some_path():
        k = r.random()
        base = list(r.choice(dirs + files + links + [["missing"], ["missing", "x.y"]]))
        if k < 0.15 and files:
            base = r.choice(files) + ["below"]
        if r.random() < 0.25 and links:
            base = r.choice(links) + [r.choice(names)]
        if r.random() < 0.2:
            base = base + [r.choice(names + ["x.", ".y"])]
        # noise that cleaning removes
        out = []
        for c in base:
            if r.random() < 0.15:
                out.append(".")
            if r.random() < 0.1:
                out += [r.choice(names), ".."]
            if r.random() < 0.05:
                out.append("")
            out.append(c)
        if r.random() < 0.1:
            out.append("..")
        if r.random() < 0.5:
            return arg(out, True, r.random() < 0.15)
        common = 0
        while common < min(len(cwd), len(base)) and cwd[common] == base[common]:
            common += 1
        return arg([".."] * (len(cwd) - common) + base[common:] or ([""] if r.random() < 0.5 else ["."]), False, bool(base[common:]) and r.random() < 0.15)

    def some_domain():
        return arg(r.choice([["opencorpora"], ["x.y"], ["a", "b"], [""], ["."], [".."], ["..", "..", "up"], ["a", "..", "c"], [".h"],
                             ["яда"], ["opencorpora"], ["opencorpora", "deeper"], ["x", "", "y"]]))

    def place():
        k = r.random()
        if k < 0.25:
            return arg([])
        if k < 0.6:
            d = r.choice(dirs + links)
            return arg(d, True) if r.random() < 0.5 or not d else arg([".."] * len(cwd) + d, False, r.random() < 0.3)
        p = some_path()
        return dict(p, slash=p["slash"] and any(p["c"]))

    def loader():
        res = {"op": "loader", "d": place()}
        if r.random() < 0.5:
            res["was"] = place()
        return res
    for _ in range(n):
        k = r.random()
        if k < 0.6:
            ops.append({"op": "resolve", "p": some_path()})
        elif k < 0.7:
            d = r.choice(dirs)
            ops.append({"op": "cd", "p": absarg(d)})
            cwd = list(d)
        elif k < 0.76:
            ops.append(loader())
        elif k < 0.84:
            ops.append({"op": "where", "d": some_domain(), "f": arg(r.choice([["dict.xml"], ["a", "b.idx"], [""], ["..", "z"], ["."]]))})
        elif k < 0.92:
            d = some_domain()
            ops.append({"op": "mkdomain", "d": d})
            if r.random() < 0.5:
                ops.append({"op": "mkdomain", "d": d})
            ops.append({"op": "tree"})
        elif k < 0.95 and not cwd and tuple([".data"]) not in have and r.random() < 0.4:
            have.add((".data",))
            kind = r.choice(["mkdir", "file"])
            ops.append({"op": "cd", "p": absarg([])})
            ops.append({"op": kind, "p": absarg([".data-x"])} if any(o["op"] == "mkdomain" for o in ops) else {"op": kind, "p": absarg([".data"])})
            have.add((".data-x",))
        else:
            ops.append({"op": "resolve", "p": some_path()})
    ops.append({"op": "tree"})
    return ops


def ep_loader(r):
    """The domain's own directory and another one, with any of a loader's files in them."""
    ops = [{"op": "reset", "note": "loader"}, {"op": "mkdomain", "d": arg(["opencorpora"])}, {"op": "mkdir", "p": arg(["x"])}]
    for d in ([".data", "opencorpora"], ["x"], []):
        for f in ("dict.xml", "dict.xml.bz2"):
            k = r.random()
            if k < 0.5:
                ops.append({"op": r.choice(["file", "file", "file", "mkdir"]), "p": arg(d + [f])})
            elif k < 0.6:
                ops.append({"op": "link", "p": arg(d + [f]), "to": r.choice([arg(["dict.xml"]), arg(["none"]), arg([f]), arg(["x"], True)])})
    places = [arg([]), arg([]), arg(["x"]), arg(["x"], True), arg(["."]), arg(["x", ".."]), arg(["none"]), arg([".data", "opencorpora"])]
    for _ in range(6):
        op = {"op": "loader", "d": r.choice(places)}
        if r.random() < 0.6:
            op["was"] = r.choice(places)
        ops.append(op)
        if r.random() < 0.2:
            ops.append({"op": "cd", "p": arg(r.choice([["x"], [], [".data"]]), True)})
    return ops
