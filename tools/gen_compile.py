"""Random dictionary documents: as the tokens an XML reader gives, and as text in many layouts. What each
token sequence means is decided by spec/Compile.tla."""
import gen_index as gi

WORDS = [0x430, 0x431, 0x432, 0x433, 0x451, 0x44F, 0x2D, 0x61, 0x7A, 0x27, 0x22, 0x26, 0x3C, 0x3E, 0x1F600, 0x301, 0x20]
ALPHABETS = [WORDS[:3], WORDS[:6], [0x430, 0x61], WORDS]
NAMES4 = [[65, 38, 66, 67], [60, 65, 66, 62], [208, 176, 208, 177], [240, 159, 152, 128], [65, 32, 66, 67], [34, 39, 65, 66]]


def S(e, a=None):
    return {"k": "s", "e": e, "a": a or {}}


E = {"k": "e"}
ELEMENTS = ["dictionary", "grammemes", "grammeme", "name", "alias", "description", "restrictions", "restr", "left",
            "right", "lemmata", "lemma", "l", "f", "g", "link_types", "type", "links", "link", "other", "Lemma", "x",
            "lemmata.lemma", "grammemes.grammeme", "lemma.f", "f.g", "l.g", ".", "lemma."]


def text_of(vals, name):
    return bytes(vals).decode("utf-8", "surrogatepass") if name in ("v", "parent", "name", "id", "rev", "version", "revision") else "".join(map(chr, vals))


def xml_char(r):
    """A character XML can carry and no reader changes."""
    while True:
        x = gi.scalar(r)
        if x >= 0xA0 and x not in (0xFFFE, 0xFFFF) and x not in (0x85, 0x2028):
            return x


class Doc:
    """A random document: grammemes, lemmas, and what else there is."""

    def __init__(self, r, nlemmas, maxforms=4, ngrams=None):
        self.r = r
        self.alphabet = r.choice(ALPHABETS) if r.random() < 0.85 else [xml_char(r) for _ in range(4)] + [0x430]
        n = ngrams or r.choice([1, 2, 4, 9, 30])
        self.names = []
        for i in range(n):
            nm = r.choice(NAMES4) if r.random() < 0.15 else gi.tag_name(i * 5 + r.randint(0, 3))
            if nm not in self.names:
                self.names.append(nm)
        self.words = [self.word() for _ in range(max(2, nlemmas))]
        self.forms = {}
        self.nlemmas, self.maxforms = nlemmas, maxforms

    def word(self):
        r = self.r
        w = [r.choice(self.alphabet) for _ in range(r.randint(1, 6) if r.random() < 0.99 else r.choice([16, 33, 65, 129, 257]))]
        return w if any(c != 0x20 for c in w) else [0x430]

    def split(self, vals):
        """Text in portions, with comments between them."""
        r = self.r
        if r.random() < 0.25 and len(vals) > 1:
            s = bytes(vals).decode()
            if len(s) > 1:
                k = r.randint(1, len(s) - 1)
                return [{"k": "t", "s": list(s[:k].encode())}, {"k": "m"}, {"k": "t", "s": list(s[k:].encode())}]
        return [{"k": "t", "s": vals}]

    def noise(self, inside):
        r = self.r
        k = r.random()
        if k < 0.12:
            return [{"k": "m"}]
        if k < 0.5:
            return [{"k": "t", "s": r.choice([[10], [32], [10, 32, 32], [9]])}]
        if k < 0.53 and inside:
            return [{"k": "t", "s": list("текст & <a>".encode())}]
        return []

    def extra(self, a, needed):
        """Attributes nobody asks for."""
        r = self.r
        if r.random() < 0.15:
            a[r.choice(["xml", "note", "T", "V", "ids"])] = [0x78, 0x26]
        if r.random() < 0.05 and "v" not in a and needed != "g":
            a["err"] = [0x31]
        return a

    def grammeme(self, name, parent):
        r = self.r
        t = [S("grammeme", self.extra({"parent": parent}, "grammeme"))] + self.noise(True)
        parts = [[S("name")] + self.split(name) + [E]]
        if r.random() < 0.6:
            parts.append([S("alias"), {"k": "t", "s": list("СУЩ".encode())}, E])
        if r.random() < 0.6:
            parts.append([S("description"), {"k": "t", "s": list("имя & суть".encode())}, E])
        r.shuffle(parts)
        for p in parts:
            t += p + self.noise(True)
        return t + [E]

    def gs(self, names):
        t = []
        for n in names:
            t += [S("g", self.extra({"v": n}, "g"))] + ([{"k": "m"}] if self.r.random() < 0.03 else []) + [E] + self.noise(True)
        return t

    def lemma(self, no):
        r = self.r
        lg = r.sample(self.names, min(len(self.names), r.choice([0, 1, 1, 2, 3, 4, 5, 8])))
        rest = [n for n in self.names if n not in lg]
        base = r.choice(self.words)
        parts = [[S("l", self.extra({"t": base}, "l"))] + self.noise(True) + self.gs(lg) + [E]]
        for _ in range(r.randint(0, self.maxforms)):
            w = r.choice(self.words) if r.random() < 0.6 else base + [r.choice(self.alphabet)]
            if w[-1] == 0x20:
                w = w + [0x430]
            fg = r.sample(rest, min(len(rest), r.choice([0, 0, 1, 1, 2, 3, 4])))
            parts.append([S("f", self.extra({"t": w}, "f"))] + self.gs(fg) + [E])
        k = r.random()
        if k < 0.2:
            r.shuffle(parts)
        elif k < 0.3:
            parts = parts[1:] + parts[:1]
        elif k < 0.35:
            parts = parts[1:]                    # no base form at all
        t = [S("lemma", self.extra({"id": list(str(no).encode()), "rev": list(str(r.randint(0, 99999)).encode())}, "lemma"))]
        for p in parts:
            t += self.noise(True) + p
        return t + self.noise(True) + [E]

    def ignored(self, kind):
        r = self.r
        if kind == "restrictions":
            t = [S("restrictions")]
            for i in range(r.randint(0, 2)):
                t += [S("restr", {"type": [0x6D], "auto": [0x30]}), S("left", {"type": [0x6C]}), {"k": "t", "s": list(b"NOUN")}, E,
                      S("right", {"type": [0x6C]}), {"k": "t", "s": []}, E, E]
            return t + [E]
        if kind == "link_types":
            return [S("link_types")] + [S("type", {"id": [0x31]}), {"k": "t", "s": list(b"ADJF-ADJS")}, E] * r.randint(0, 2) + [E]
        return [S("links")] + [S("link", {"id": [0x31], "from": [0x31], "to": [0x32], "type": [0x31]}), E] * r.randint(0, 3) + [E]

    def tokens(self):
        r = self.r
        t = []
        if r.random() < 0.7:
            t += [{"k": "m", "d": "pi"}] + self.noise(False)
        if r.random() < 0.2:
            t += [{"k": "m", "d": "doctype"}]
        t += [S("dictionary", r.choice([{}, {"version": list(b"0.92"), "revision": list(b"417127")}, {"revision": list(b"1")}, {"version": list(b"1"), "revision": list(b"0")}]))] + self.noise(True)
        t += [S("grammemes")] + self.noise(True)
        for i, n in enumerate(self.names):
            parent = [] if i == 0 or r.random() < 0.4 else r.choice(self.names + [list(b"POST")])
            t += self.grammeme(n, parent) + self.noise(True)
            if r.random() < 0.03:
                t += self.grammeme(n, r.choice(self.names))        # declared again
        t += [E] + self.noise(True)
        sections = [x for x in ("restrictions", "link_types", "links") if r.random() < 0.5]
        r.shuffle(sections)
        k = r.randint(0, len(sections))
        for x in sections[:k]:
            t += self.ignored(x) + self.noise(True)
        t += [S("lemmata")] + self.noise(True)
        for no in range(1, self.nlemmas + 1):
            t += self.lemma(no) + self.noise(True)
        t += [E] + self.noise(True)
        for x in sections[k:]:
            t += self.ignored(x) + self.noise(True)
        return t + [E] + self.noise(False)


# --- as text -----------------------------------------------------------------------------------
def esc(r, s, attr=None, quote='"'):
    out = []
    for ch in s:
        k = r.random()
        if ch in "<&" or (attr and ch == quote) or (ch == ">" and not attr):
            out.append({"<": "&lt;", "&": "&amp;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}[ch] if k < 0.7 else "&#%d;" % ord(ch))
        elif k < 0.02 and ch not in "\n\t ":
            out.append("&#x%X;" % ord(ch) if k < 0.01 else "&#%d;" % ord(ch))
        else:
            out.append(ch)
    return "".join(out)


def render(r, toks):
    """Text of a document as segments (text, number of tokens it completes)."""
    segs, stack, i = [], [], 0
    tight = r.random() < 0.3
    while i < len(toks):
        t = toks[i]
        if t["k"] == "s":
            attrs = list(t["a"].items())
            r.shuffle(attrs)
            s = "<" + t["e"]
            for name, vals in attrs:
                q = "'" if r.random() < 0.2 else '"'
                s += (" " if tight or r.random() < 0.9 else "\n  ") + name + ("=" if tight or r.random() < 0.95 else " = ") \
                    + q + esc(r, text_of(vals, name), True, q) + q
            if i + 1 < len(toks) and toks[i + 1]["k"] == "e" and r.random() < 0.7:
                segs.append((s + ("" if tight else r.choice(["", " "])) + "/>", 2))
                i += 2
                continue
            segs.append((s + ">", 1))
            stack.append(t["e"])
        elif t["k"] == "e":
            segs.append(("</" + (stack.pop() if stack else "dictionary") + (">" if tight or r.random() < 0.95 else " >"), 1))
        elif t["k"] == "t":
            s = bytes(t["s"]).decode()
            if s and stack and r.random() < 0.1 and "]]>" not in s:
                segs.append(("<![CDATA[" + s + "]]>", 1))
            else:
                segs.append((esc(r, s), 1))
        elif t["k"] == "m":
            d = t.get("d", "comment")
            if d == "pi":
                segs.append(('<?xml version="1.0" encoding="utf-8" standalone="yes"?>', 1))
            elif d == "doctype":
                segs.append(("<!DOCTYPE dictionary [<!ELEMENT dictionary ANY>]>", 1))
            else:
                segs.append((r.choice(["<!-- -->", "<!-- <lemma id='1' rev='1'><f t='нет'/></lemma> -->", "<?note <f t='нет'/>?>"]), 1))
        elif t["k"] == "x":
            segs.append((t["x"], 1))
        i += 1
    return segs


BROKEN = ["</wrong>", "<", "<>", "&nbsp;", "&", "<f t=a>", "<f t=\"a>", "<f t>", "\x01", "<!-- -- -->", "<![CDATA[", "<!--", "<1>", "</>", "<?"]

OPENERS = ("<![CDATA[", "<!--", "<?", "<", "&")     # what follows could complete them


def depth_at(toks, k):
    path = []
    for t in toks[:k]:
        if t["k"] == "s":
            path.append(t["e"])
        elif t["k"] == "e":
            path.pop()
    return path


def defect(r, toks):
    """A document with one defect, somewhere."""
    toks = [dict(t) for t in toks]
    root = next(i for i, t in enumerate(toks) if t["k"] == "s")
    end = max(i for i, t in enumerate(toks) if t["k"] == "e")
    k = r.choice(["cut", "cut", "broken", "element", "attribute", "undeclared", "form", "nothing", "name", "endless", "number"])
    starts = [i for i, t in enumerate(toks) if t["k"] == "s"]
    if k == "broken":
        at = r.randint(root + 1, end)
        toks.insert(at, {"k": "x", "x": r.choice(BROKEN)})
    elif k == "element":
        at = r.randint(root + 1, end)
        toks[at:at] = [S(r.choice(ELEMENTS), {"id": [0x31], "rev": [0x31], "t": [0x430], "v": [65, 65, 65, 65], "parent": []}), dict(E)]
    elif k == "attribute":
        cands = [i for i in starts if any(x in toks[i]["a"] for x in ("id", "rev", "t", "v", "parent"))]
        if cands:
            t = toks[r.choice(cands)]
            a = dict(t["a"])
            del a[r.choice([x for x in ("id", "rev", "t", "v", "parent") if x in a])]
            t["a"] = a
    elif k == "undeclared":
        cands = [i for i in starts if toks[i]["e"] == "g"]
        if cands:
            t = toks[r.choice(cands)]
            v = t["a"]["v"]
            t["a"] = dict(t["a"], v=r.choice([[90, 90, 90, 90], v[:-1], v + [65], [x ^ 32 if 65 <= x <= 122 else x for x in v], []]))
            try:
                bytes(t["a"]["v"]).decode()
            except UnicodeDecodeError:
                t["a"]["v"] = [90, 90, 90, 90]
    elif k == "form":
        cands = [i for i in starts if toks[i]["e"] == "f"]
        if cands:
            t = toks[r.choice(cands)]
            t["a"] = dict(t["a"], t=[])
    elif k == "nothing":
        toks = r.choice([[], [{"k": "m"}], [{"k": "t", "s": [10]}], [{"k": "m", "d": "pi"}, {"k": "t", "s": [10]}], [S("grammemes"), dict(E)],
                         [S("other"), S("dictionary"), dict(E), dict(E)], [S("html"), dict(E)]])
    elif k == "name":
        cands = [i for i, t in enumerate(toks) if t["k"] == "t" and depth_at(toks, i)[-1:] == ["name"]]
        if cands:
            toks[r.choice(cands)]["s"] = r.choice([[65], [65, 66, 67], [65, 66, 67, 68, 69], list("сущ".encode()), [10, 65, 66, 67, 68]])
    elif k == "number":
        bad = list(r.choice(["", "a", "12a", "a12", "-", "1 1", "1,5", "1.2.3", "№1", "٣", "0x1f", "0b1", "0o7", "1_000", " 12", "12 ", "１２"]).encode())
        if r.random() < 0.4:
            field = r.choice(["version", "revision"])
            if field == "version" and 0x5F in bad:      # the version may be any floating point number, 1_000 is one
                bad = [0x61]
            toks[root]["a"] = dict(toks[root]["a"], **{field: bad})
        else:
            cands = [i for i in starts if toks[i]["e"] == "lemma"]
            if cands:
                t = toks[r.choice(cands)]
                t["a"] = dict(t["a"], **{r.choice(["id", "rev"]): bad})
    elif k == "endless":
        opened = [i for i, t in enumerate(toks) if t["k"] == "e"]
        del toks[r.choice(opened)]
    return toks, k


def compile_op(r, toks, cut=None):
    segs = render(r, toks)
    if cut is None:
        text = "".join(s for s, _ in segs).encode()
        used = toks
        # what follows something malformed is not read any more, and the text may not even be what it says
        xs = [i for i, t in enumerate(toks) if t["k"] == "x"]
        if xs:
            used = toks[:xs[0] + 1]
            if toks[xs[0]]["x"] in OPENERS:
                i = 0
                for k, (s, n) in enumerate(segs):
                    i += n
                    if i > xs[0]:
                        text = "".join(s for s, _ in segs[:k + 1]).encode()
                        break
    else:
        data = [s.encode() for s, _ in segs]
        total = sum(map(len, data))
        at = int(cut * total)
        text, used, pos, i = b"".join(data)[:at], [], 0, 0
        for d, (_, n) in zip(data, segs):
            if pos + len(d) <= at:
                used += toks[i:i + n]
                pos += len(d)
                i += n
                continue
            if pos < at and not (toks[i]["k"] == "t" and not depth_at(toks, i)):
                used.append({"k": "x"})
            break
    clean = [{k: v for k, v in t.items() if k not in ("d", "x")} for t in used]
    return {"op": "compile", "toks": clean, "src": list(text)}


def probes(r, doc):
    res = [doc.word() for _ in range(4)] + [list(map(ord, "нет"))]
    for w in doc.words[:6]:
        res += [w + [0x430], w[:-1], [c - 32 if 0x430 <= c <= 0x44F else c for c in w], w + [0x20], [0x20] + w]
    return [w for w in res if w]


def look(r, doc):
    return [{"op": "loadindex", "h": "A"}, {"op": "dump", "h": "A", "probe": probes(r, doc)}]


def ep_compile(r, nlemmas, maxforms=4):
    """Good documents, one after another."""
    ops = [{"op": "reset", "note": "good documents"}]
    for _ in range(r.choice([1, 1, 2])):
        doc = Doc(r, nlemmas, maxforms)
        ops.append(compile_op(r, doc.tokens()))
        ops += look(r, doc)
    if r.random() < 0.3:    # the same document in another layout
        toks = doc.tokens()
        ops += [compile_op(r, toks)] + look(r, doc) + [compile_op(r, toks)] + look(r, doc)
    return ops


def ep_slow(r, nlemmas, ms):
    """Reading that takes its time, somewhere in the middle."""
    ops = [{"op": "reset", "note": "slow reading"}]
    doc = Doc(r, nlemmas)
    toks = doc.tokens()
    inside = [i for i, t in enumerate(toks) if t["k"] == "s" and t["e"] in ("lemma", "l", "f", "name")]
    return ops + [dict(compile_op(r, toks), pause=ms, at=r.choice(inside) + 1)] + look(r, doc)


def relaid(r, doc, toks):
    """The same document with other comments, layout, ignored sections and attributes nobody asks for."""
    res, path, i = [], [], 0
    known = {"grammeme": ("parent",), "lemma": ("id", "rev"), "l": ("t",), "f": ("t",), "g": ("v",)}
    while i < len(toks):
        t = toks[i]
        i += 1
        if t["k"] == "m" and r.random() < 0.5:
            continue
        if t["k"] == "t" and path[-1:] != ["name"] and r.random() < 0.7:
            continue
        if t["k"] == "s":
            path.append(t["e"])
            a = {k: v for k, v in t["a"].items() if k in known.get(t["e"], ()) or r.random() < 0.5}
            if t["e"] == "lemma":
                a["id"], a["rev"] = list(str(r.randint(1, 99999)).encode()), list(str(r.randint(1, 99999)).encode())
            if t["e"] == "l":
                a["t"] = doc.word()
            if t["e"] in known:
                a = doc.extra(a, t["e"])
            t = {"k": "s", "e": t["e"], "a": a}
        elif t["k"] == "e":
            path.pop()
            if path == ["dictionary"] and r.random() < 0.3:
                res.append(t)
                res += doc.ignored(r.choice(["restrictions", "link_types", "links"]))
                continue
        res.append(t)
        if t["k"] in "se" and path and path[-1] != "name":
            res += [x for x in doc.noise(False)]
    return res


def ep_same(r, nlemmas):
    """One document in many layouts, with other documents in between: always the same file."""
    doc = Doc(r, nlemmas)
    toks = doc.tokens()
    ops = [{"op": "reset", "note": "the same document", "prints": True}]
    for _ in range(4):
        ops.append(compile_op(r, relaid(r, doc, toks)))
        k = r.random()
        if k < 0.2:
            ops.append({"op": "removecompiled"})
        elif k < 0.4:
            ops.append(compile_op(r, Doc(r, 2).tokens()))
        elif k < 0.5:
            ops.append(compile_op(r, defect(r, toks)[0]))
        elif k < 0.7:
            ops += look(r, doc)
    return ops


def ep_bad(r, nlemmas):
    """Bad documents, with and without a compiled dictionary present."""
    ops = [{"op": "reset", "note": "bad documents"}]
    doc = Doc(r, nlemmas)
    if r.random() < 0.6:
        ops.append(compile_op(r, doc.tokens()))
        ops += look(r, doc)
    for _ in range(4):
        toks = doc.tokens()
        bad, k = defect(r, toks)
        ops.append(compile_op(r, bad, cut=r.choice([r.random(), 0.9 + r.random() / 10]) if k == "cut" else None))
        if r.random() < 0.15:
            ops.append({"op": "removecompiled"})
        ops += look(r, doc)
    if r.random() < 0.5:
        ops.append(compile_op(r, doc.tokens()))
        ops += look(r, doc)
    return ops


def ep_cuts(r, nlemmas, n):
    """One document cut off at many places."""
    doc = Doc(r, nlemmas, 2)
    toks = doc.tokens()
    ops = [{"op": "reset", "note": "cut documents"}]
    if r.random() < 0.5:
        ops.append(compile_op(r, toks))
        ops += look(r, doc)
    for i in range(n):
        ops.append(compile_op(r, toks, cut=(i + r.random()) / n))
    return ops + look(r, doc)


def from_script(r, toks, old):
    """A token sequence made by TLC from MCCompile.tla."""
    ops = [{"op": "reset", "note": "from MCCompile"}]
    doc = Doc(r, 2)
    if old:
        ops.append(compile_op(r, doc.tokens()))
    conv = []
    for t in toks:
        t = dict(t)
        if t["k"] == "s" and not isinstance(t["a"], dict):
            t["a"] = {}
        if t["k"] == "x":
            t["x"] = r.choice(BROKEN)
        conv.append(t)
    # attributes nobody asks for on that element are unknown attributes
    ops.append(compile_op(r, conv))
    return ops + look(r, doc)


def doc_of(r, names, lemmas):
    doc = Doc(r, 1)
    doc.names = names
    t = [S("dictionary"), S("grammemes")]
    for n in names:
        t += [S("grammeme", {"parent": []}), S("name"), {"k": "t", "s": n}, dict(E), dict(E)]
    t += [dict(E), S("lemmata")]
    for lg, forms in lemmas:
        t += [S("lemma", {"id": [0x31], "rev": [0x31]}), S("l", {"t": [0x430]})]
        for g in lg:
            t += [S("g", {"v": g}), dict(E)]
        t.append(dict(E))
        for w, fg in forms:
            t.append(S("f", {"t": w}))
            for g in fg:
                t += [S("g", {"v": g}), dict(E)]
            t.append(dict(E))
        t.append(dict(E))
    return doc, t + [dict(E), dict(E)]


def eps_limits(r):
    """Documents at and beyond what a file can hold."""
    eps = []
    nm = gi.tag_name
    small = doc_of(r, [nm(1)], [([nm(1)], [([0x430], [])])])[1]

    def ep(names, lemmas, note):
        doc, t = doc_of(r, names, lemmas)
        eps.append([{"op": "reset", "note": note}, compile_op(r, small), compile_op(r, t)] + look(r, doc))
    for n in (255, 256, 257):
        ep([nm(i) for i in range(n)], [([nm(0)], [([0x430], [nm(n - 1)]), ([0x431], [nm(254)])])], "%d grammemes" % n)
    for n in (255, 256):
        k = min(n, 200)
        ep([nm(i) for i in range(k)], [([nm(i) for i in range(k)], [([0x430], [nm(i) for i in range(n - k)])])], "set of %d" % n)
    pairs = [(a, b) for a in range(24) for b in range(a)]
    for n in (254, 255, 256):
        ep([nm(i) for i in range(24)], [([nm(a)], [([0x430], [nm(b)])]) for a, b in pairs[:n]], "%d tag sets on a word" % n)
    return eps
