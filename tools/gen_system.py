"""Histories of the updater and the console in one directory: area "system"."""
import bz2
import gen_compile as gm
import gen_update as gu


def cps(s):
    return [ord(c) for c in s]


def other(r, doc, toks):
    """Another edition of the same shape: two letters exchanged in its words, or two grammemes."""
    if r.random() < 0.5 and len(doc.names) > 1:
        a, b = r.sample(doc.names, 2)
        of = ("v", "parent")
    else:
        a, b = ([c] for c in r.sample(doc.alphabet, 2))
        of = ("t",)

    def swap(vals):
        if of == ("t",):
            return [b[0] if c == a[0] else a[0] if c == b[0] else c for c in vals]
        return b if vals == a else a if vals == b else vals
    doc.words = [swap(w) for w in doc.words] if of == ("t",) else doc.words
    return [dict(t, a={k: swap(v) if k in of and (t["e"] in ("f", "l", "g")) else v for k, v in t["a"].items()})
            if t["k"] == "s" else t for t in toks]


def version(r, doc, no, bad=None, like=None):
    """The document as it is now; bad: has a defect, or does not unpack; like: in the shape of an earlier one."""
    toks = other(r, doc, like) if like else doc.tokens()
    doc.last = toks
    root = next(i for i, t in enumerate(toks) if t["k"] == "s")
    toks[root] = gm.S("dictionary", {"revision": list(b"%d" % no)})
    cut = None
    if bad == "document":
        toks, k = gm.defect(r, toks)
        cut = r.random() if k == "cut" else None
    op = gm.compile_op(r, toks, cut)
    xml = bytes(op["src"])
    src = bz2.compress(xml)
    if bad == "archive":
        src = src[:len(src) * 2 // 3]
    return {"u": bad != "archive", "src": gu.b64(src), "xml": gu.b64(xml), "toks": op["toks"], "words": []}


class System(gu.History):
    def __init__(self, r, n, nlemmas):
        self.r = r
        doc = gm.Doc(r, nlemmas, r.choice([2, 4]))
        self.vers, words, names = [], [], []
        for i in range(n):
            like = i > 0 and r.random() < 0.3
            if i and not like:       # a later edition: some words and tags go, others come, many stay
                doc.words = [w if r.random() < 0.7 else doc.word() for w in doc.words]
                doc.nlemmas = max(1, doc.nlemmas + r.choice([-1, 0, 0, 1]))
                if r.random() < 0.3:
                    doc.names = [x for x in doc.names if r.random() < 0.8] or doc.names
                if r.random() < 0.3:
                    doc.names = doc.names + [[78, 69, 87, 65 + i]]
            bad = r.choice(["document", "archive"]) if 0 < i < n - 1 and r.random() < 0.2 else None
            self.vers.append(version(r, doc, i + 1, bad, doc.last if like else None))
            words += [t["a"]["t"] for t in self.vers[-1]["toks"] if t["k"] == "s" and t["e"] in ("f", "l") and "t" in t["a"]]
            names += [x for x in doc.names if all(33 <= c < 127 for c in x)]
        self.words, self.names, self.doc = words or [[97]], names or [[78]], doc
        self.ops = [{"op": "reset", "vers": self.vers, "clock": gu.clock(r), "note": "system"}]
        self.now, self.pub, self.lm = 20, 0, -1
        self.up = False

    def word(self):
        r = self.r
        w = r.choice(self.words)
        k = r.random()
        if k < 0.65:
            return w
        if k < 0.8:
            return w[:r.randint(0, len(w))]
        return w + [r.choice(self.doc.alphabet)] if k < 0.9 else self.doc.word()

    def ask(self, n=1):
        r = self.r
        for _ in range(n):
            k = r.random()
            if k < 0.6:
                x = self.word()
            elif k < 0.8:
                x = cps(r.choice(["node ", "n "])) + self.word()
            elif k < 0.85:
                x = cps("node count")
            elif k < 0.9:
                x = cps("tag count")
            elif k < 0.95:
                x = cps(r.choice(["tag ", "t "])) + r.choice(self.names)
            else:
                x = cps("tag %d" % r.randint(0, 12))
            self.add(op="line", line=x)

    def start(self):
        self.add(op="start")

    def reload(self):
        self.add(op="line", line=cps(self.r.choice(["reload", "r"])))


def ep_system(r, n, vers, nlemmas):
    h = System(r, vers, nlemmas)
    h.publish()
    if r.random() < 0.1:
        h.start()
    h.update(force=False)
    h.start()
    h.ask(3)
    for _ in range(n):
        k = r.random()
        if k < 0.3 and h.pub < vers:
            h.publish()
        elif k < 0.55:
            h.update(fault=gu.fault(r, r.randint(1, 45)) if r.random() < 0.35 else None)
        elif k < 0.65:
            h.offline()
            h.update()
            h.online()
        elif k < 0.85:
            if r.random() < 0.8:
                h.reload()
            else:
                if r.random() < 0.5:
                    h.add(op="eof")
                h.start()
        elif k < 0.88:
            h.add(op="remove", f=r.choice(["src", "xml"]))
        h.ask(r.choice([1, 2, 4]))
    while h.pub < vers:
        h.publish()
    h.update(force=False)
    h.ask(2)
    h.reload()
    h.ask(4)
    for w in h.words[-12:]:
        h.add(op="line", line=w)
    h.add(op="eof")
    return h.ops


def ep_gone(r):
    """Started and reloaded without a dictionary."""
    h = System(r, 2, 2)
    h.start()
    h.publish()
    h.update(force=False, fault=gu.fault(r, r.randint(1, 20)))
    h.start()
    h.update(force=False)
    h.start()
    h.ask(3)
    h.add(op="remove", f="dat")
    h.ask(2)
    h.reload()
    h.update(force=True)
    h.start()
    h.ask(3)
    return h.ops
