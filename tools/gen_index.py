"""Random episodes for the index driver. Only inputs are made here; what must be observed is decided by
spec/TraceIndex.tla. A sketch of the content is kept merely to choose inputs that matter."""
import itertools
import json
import os

RU = [ord(c) for c in "абвгдежзийклмнопрстуфхцчшщъыьэюя"]
EDGE = [0x451, 0x401, 0x410, 0x42F, 45, 39, 32, 48, 57, 0x5A, 0x61, 0x7A, 0x7F, 0x80, 0x7FF, 0x800, 0x301, 0xFFFD,
        0xFFFF, 0xFEFF, 0x10000, 0x1F600, 0x10FFFF, 0x1E9E, 0x130, 0, 1, 9, 10, 0x44F, 0x4AF, 0x100, 0x141]
MODES = ["all", "one", "two", "three", "rand", "idle", "dataerr"]


def tag_name(i):
    return [65 + (i // 17576) % 26, 65 + (i // 676) % 26, 97 + (i // 26) % 26, 97 + i % 26]


SPECIAL_NAMES = [[208, 176, 208, 177], [240, 159, 152, 128], [65, 32, 32, 32], [32, 32, 32, 65], [45, 45, 45, 46],
                 [255, 0, 1, 2], [78, 79, 85, 78], [110, 111, 117, 110]]


NOTEXT = [0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x1F0430, 0x7FFFFFFF]     # letters that are no characters


def valid(x):
    return 0 <= x < 0x110000 and not 0xD800 <= x < 0xE000


def scalar(r):
    """Any character there could be."""
    while True:
        x = r.randrange(r.choice([0x80, 0x800, 0x10000, 0x110000]))
        if valid(x):
            return x


RAW = [[0xFF], [0x80], [0xBF], [0xC0], [0xC2], [0xD0], [0xE2, 0x82], [0xE0, 0x80, 0x80], [0xED, 0xA0, 0x80], [0xF0, 0x9F, 0x98], [0xF4, 0x90, 0x80, 0x80],
       [0xC0, 0x80], [0xF8, 0x88, 0x80, 0x80, 0x80], [0xEF, 0xBF, 0xBD], [0xFE, 0xFF], [0xD0, 0xD0, 0xB0]]


def letters(b):
    """The letters of a text that may be no proper one: a byte of no character is the replacement character.
    (spec/Text.tla says which they are; TraceIndex compares.)"""
    res, i = [], 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                res.append(ord(bytes(b[i:i + n]).decode("utf-8")))
                i += n
                break
            except (UnicodeDecodeError, TypeError):
                pass
        else:
            res.append(0xFFFD)
            i += 1
    return res


class Sketch:
    def __init__(self):
        self.tags, self.nodes, self.att, self.words = [], set(), {}, []

    def copy(self):
        s = Sketch()
        s.tags, s.nodes, s.att, s.words = list(self.tags), set(self.nodes), {k: list(v) for k, v in self.att.items()}, list(self.words)
        return s


class Gen:
    def __init__(self, rnd, alphabet=None, ntags=None, maxlen=None, maxset=None, hot=0.5, odd=False):
        self.r = rnd
        self.alphabet = alphabet or self.pick_alphabet()
        if odd and rnd.random() < 0.15:
            self.alphabet = rnd.sample(NOTEXT, 3) + [0xFFFD, rnd.choice(self.alphabet)]
        self.odd = odd
        self.ntags = ntags or rnd.choice([1, 2, 3, 5, 8, 20, 60])
        self.maxlen = maxlen or rnd.choice([2, 3, 4, 6, 10])
        self.maxset = maxset or rnd.choice([1, 2, 3, 4, 6, 12])
        self.hot = hot                     # share of attachments that go to a few words
        self.ops = []
        self.s = {}
        self.f = {}
        self.twins = []                    # handles that get the same operations

    def pick_alphabet(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            return [97, 1073]
        if k < 0.5:
            return RU[:5]
        if k < 0.7:
            return RU
        if k < 0.8:
            return r.sample(EDGE, 6)
        if k < 0.87:
            return [scalar(r) for _ in range(r.choice([3, 6]))]
        if k < 0.93:    # characters whose numbers agree but for one bit
            x = scalar(r)
            return list({x} | {y for y in (x ^ (1 << b) for b in r.sample(range(21), 6)) if valid(y)} | {x & 0xFF, 0})
        return EDGE + RU

    def op(self, **kw):
        self.ops.append(kw)

    def word(self):
        n = self.r.randint(1, self.maxlen)
        return [self.r.choice(self.alphabet) for _ in range(n)]

    def some_node(self, h):
        nodes = self.s[h].nodes
        if not nodes:
            return None
        return list(self.r.choice(sorted(nodes)))

    def new(self, h):
        self.op(op="new", h=h)
        self.s[h] = Sketch()

    def each(self, h):
        return self.twins if h in self.twins else [h]

    def tag(self, h, name=None, parent=None):
        r = self.r
        if name is None:
            if self.s[h].tags and r.random() < 0.25:
                name = r.choice(self.s[h].tags)
            elif r.random() < 0.1:
                name = r.choice(SPECIAL_NAMES)
            else:
                name = tag_name(len(self.s[h].tags) * 7 + r.randint(0, 3))
        if parent is None:
            k = r.random()
            parent = [] if k < 0.4 else r.choice(self.s[h].tags + [[80, 79, 83, 84]])
        for x in self.each(h):
            self.op(op="tag", h=x, n=name, p=parent)
            if name not in self.s[x].tags:
                self.s[x].tags.append(name)

    def note(self, h, w):
        s = self.s[h]
        for i in range(1, len(w) + 1):
            s.nodes.add(tuple(w[:i]))
        s.words.append(list(w))

    def add(self, h, w=None):
        w = w or (self.word() if self.r.random() < 0.8 or not self.s[h].nodes else self.some_node(h))
        via = self.r.choice(["string", "runes"])
        for x in self.each(h):
            self.op(op="add", h=x, w=w, via=via)
            self.note(x, w)
        return w

    def addto(self, h):
        p = self.some_node(h) if self.r.random() < 0.85 else []
        w = self.word()
        for x in self.each(h):
            self.op(op="addto", h=x, p=p or [], w=w)
            self.note(x, (p or []) + w)

    def refused(self, h):
        k = self.r.randint(0, 3)
        w, over = self.word(), self.r.choice([1, 2, 5, 63, 64, 100])
        for x in self.each(h):
            if k == 0:
                self.op(op="add", h=x, w=[], via=self.r.choice(["string", "runes"]))
            elif k == 1:
                self.op(op="addto", h=x, over=over, w=w)
            elif k == 2 and self.s[x].nodes:
                self.op(op="addto", h=x, p=list(sorted(self.s[x].nodes)[0]), w=[])
            else:
                self.op(op="addto", h=x, over=over, w=w + w)

    def tagset(self, h):
        r, tags = self.r, self.s[h].tags
        if not tags:
            return []
        k = r.random()
        if k < 0.02:
            return []
        n = r.randint(1, self.maxset)
        if k < 0.08:
            res = [r.choice(tags) for _ in range(n)]       # the same tag may be listed twice
        else:
            res = r.sample(tags, min(n, len(tags)))
        if k > 0.97:
            res = res + [[122, 122, 122, 122]]             # not registered
            r.shuffle(res)
        return res

    def attach(self, h, w=None):
        r, s = self.r, self.s[h]
        if w is None:
            if s.att and r.random() < self.hot:
                w = list(r.choice(sorted(s.att)))
            elif s.nodes and r.random() < 0.8:
                w = self.some_node(h)
            else:
                w = self.word()
        known = s.att.get(tuple(w), [])
        k = r.random()
        if known and k < 0.25:
            ns = list(r.choice(known))
            r.shuffle(ns)                                  # again, in another order
        elif known and k < 0.4:
            ns = list(r.choice(known))
            ns = ns[:-1] if r.random() < 0.5 else ns + [r.choice(s.tags)]
        elif s.att and k < 0.55:
            ns = list(r.choice(r.choice([s.att[x] for x in sorted(s.att)])))   # a set of another word
            r.shuffle(ns)
        else:
            ns = self.tagset(h)
        via = r.choice(["add", "fetch", "id"]) if tuple(w) in s.nodes else r.choice(["add", "add", "fetch"])
        for x in self.each(h):
            self.op(op="attach", h=x, w=w, tags=ns, via=via)
            if via == "add":
                self.note(x, w)
            if tuple(w) in self.s[x].nodes and ns and all(n in self.s[x].tags for n in ns):
                self.s[x].att.setdefault(tuple(w), []).append(ns)

    def raw(self, h):
        """A text that is no proper one is added, looked up, or given a tag set."""
        r = self.r
        b = []
        for _ in range(r.randint(1, 4)):
            b += r.choice(RAW) if r.random() < 0.5 else list(chr(r.choice([x for x in self.alphabet if valid(x)] or [97])).encode("utf-8"))
        w = letters(b)
        k = r.random()
        for x in self.each(h):
            if k < 0.4:
                self.op(op="fetch", h=x, w=w, via="raw", raw=b)
            if k > 0.2:
                self.op(op="add", h=x, w=w, via="raw", raw=b)
                self.note(x, w)
            if k > 0.6:
                self.op(op="attach", h=x, w=w, tags=self.tagset(x), via="fetch")
            if k > 0.4:
                self.op(op="fetch", h=x, w=w, via=r.choice(["raw", "string"]), raw=b)

    def attach_set(self, h, w, ns):
        """This tag set to this word."""
        self.op(op="attach", h=h, w=w, tags=ns, via="add")
        self.note(h, w)
        self.s[h].att.setdefault(tuple(w), []).append(ns)

    def absent(self, h):
        """Words close to those there are."""
        r = self.r
        res = [self.word() for _ in range(3)]
        for _ in range(4):
            w = self.some_node(h)
            if w:
                res += [w + [r.choice(self.alphabet)], w[1:], w[:-1], w[::-1], w + w]
                res.append([c + 1 if c not in (0xD7FF, 0x10FFFF, 0x7FFFFFFF) else c for c in w])
                res.append([c - 32 if 0x430 <= c <= 0x44F or 97 <= c <= 122 else c for c in w])
                res.append([0x435 if c == 0x451 else 0x451 if c == 0x435 else c for c in w])
                res.append(w[:-1] + [32, w[-1]])
                res.append(w + [32])
                res.append([32] + w)
        return [w for w in res if w and (set(w) & set(NOTEXT) or all(valid(c) for c in w))] or [[97]]

    def fetch(self, h):
        r = self.r
        w = self.some_node(h) if r.random() < 0.6 and self.s[h].nodes else r.choice(self.absent(h))
        via = r.choice(["string", "runes", "item", "parent"])
        kw = {}
        if via in ("item", "parent"):
            kw["split"] = r.randint(0, len(w) - 1)
        self.op(op="fetch", h=h, w=w, via=via, **kw)

    def dump(self, h):
        self.op(op="dump", h=h, probe=self.absent(h))

    def cmp(self, h, g):
        self.op(op="cmp", h=h, g=g, probe=self.absent(h))

    def opt(self, h):
        for x in self.each(h):
            self.op(op="opt", h=x)

    def save(self, h, f, **kw):
        self.op(op="save", h=h, f=f, **kw)
        self.f[f] = self.s[h].copy()

    def load(self, h, f):
        self.op(op="load", h=h, f=f, mode=self.r.choice(MODES), seed=self.r.randint(0, 999))
        self.s[h] = self.f[f].copy()

    def build(self, h, n, words=None):
        """A dictionary of about n calls."""
        r = self.r
        for _ in range(self.ntags):
            self.tag(h)
        pool = [self.word() for _ in range(words or max(2, n // 3))]
        for _ in range(n):
            k = r.random()
            if k < 0.25:
                self.add(h, list(r.choice(pool)))
            elif k < 0.33:
                self.addto(h)
            elif k < 0.83:
                self.attach(h, list(r.choice(pool)) if r.random() < 0.5 else None)
            elif k < 0.87:
                self.refused(h)
            elif k < 0.90:
                self.tag(h)
            elif k < 0.93 and self.odd:
                self.raw(h)
            else:
                self.fetch(h)

    def done(self, note=""):
        return [{"op": "reset", "note": note}] + self.ops


# --- episodes by focus -----------------------------------------------------------------------
def ep_lookup(r, n):
    g = Gen(r, odd=True)
    g.new("A")
    g.build("A", n)
    g.dump("A")
    if r.random() < 0.3:
        g.opt("A")
        g.build("A", n // 2)
        g.dump("A")
    return g.done("lookup")


def ep_lookup_two(r, n):
    """Two dictionaries side by side: nothing leaks from one to the other."""
    g = Gen(r, maxlen=3)
    g.new("A")
    g.new("B")
    for _ in range(3):
        g.build("A", n // 4)
        g.build("B", n // 4)
    g.dump("A")
    g.dump("B")
    return g.done("two dictionaries")


def ep_hot(r, n):
    """Few words with many tag sets, with many tags."""
    g = Gen(r, ntags=r.choice([6, 12, 40, 130, 250]), maxlen=2, maxset=r.choice([2, 4, 10, 30]), hot=0.9)
    g.new("A")
    for _ in range(g.ntags):
        g.tag("A", name=tag_name(len(g.s["A"].tags)))
    ws = [g.add("A") for _ in range(3)]
    for i in range(n):
        g.attach("A", list(r.choice(ws)) if r.random() < 0.8 else None)
        if r.random() < 0.05:
            g.fetch("A")
    g.dump("A")
    g.save("A", "f")
    g.opt("A")
    g.dump("A")
    g.save("A", "g")
    g.load("B", "g")
    g.dump("B")
    return g.done("many tag sets")


def ep_enum(r, n):
    g = Gen(r, maxlen=r.choice([3, 8, 25, 70]), ntags=2, odd=True)
    g.new("A")
    g.build("A", n // 3)
    for _ in range(n):
        r.choice([g.add, g.addto, g.addto, g.refused, g.fetch])("A")
    g.dump("A")
    g.build("A", n // 3)
    g.dump("A")
    return g.done("enumeration")


def ep_wide(r, n):
    """A node with many children; more nodes than a byte can number."""
    g = Gen(r, alphabet=list(range(0x400, 0x400 + r.choice([30, 300]))), maxlen=2, ntags=2)
    g.new("A")
    g.tag("A")
    for _ in range(n * 3):
        w = g.add("A")
        if r.random() < 0.3:
            g.attach("A", w)
    g.dump("A")
    return g.done("many children")


def ep_persist(r, n):
    g = Gen(r, odd=True)
    g.new("A")
    g.build("A", n)
    if r.random() < 0.3:
        g.opt("A")
    g.dump("A")
    g.save("A", "f")
    if r.random() < 0.5:             # the receiving index may hold something else
        g.new("B")
        g.build("B", n // 3)
    g.load("B", "f")
    g.op(op="resave", h="B", f="f")
    g.cmp("A", "B")
    g.twins = ["A", "B"]
    for _ in range(2):
        g.build("A", n // 3)
        g.cmp("A", "B")
        if r.random() < 0.5:
            g.opt("A")
            g.cmp("A", "B")
    g.twins = []
    g.op(op="failsave", h="A", after=r.randint(0, 37))
    g.save("B", "g")
    g.save("A", "f")
    g.load("A", "g")
    g.op(op="resave", h="A", f="g")
    g.cmp("A", "B")
    g.load("C", "f")
    g.cmp("A", "C")
    g.build("C", n // 4)
    g.dump("C")
    g.dump("A")
    return g.done("save and load")


def ep_damage(r, n):
    g = Gen(r, maxset=r.choice([1, 2, 3, 5]))
    g.new("A")
    g.build("A", n)
    if r.random() < 0.4:
        g.opt("A")
    g.save("A", "f")
    g.op(op="cuts", f="f", mode=r.choice(["all", "one", "dataerr", "three"]))
    g.op(op="marks", f="f", mode=r.choice(["all", "one"]))
    g.op(op="sections", f="f", mode=r.choice(["all", "one"]))
    return g.done("damaged files")


def ep_damage_tiny(r):
    """Files in which sections are empty, or end where another could begin."""
    g = Gen(r, ntags=r.choice([1, 2]), maxset=2, maxlen=2)
    g.new("A")
    k = r.randint(0, 3)
    if k >= 1:
        g.tag("A")
    if k >= 2:
        g.add("A")
    if k >= 3:
        g.attach("A", list(sorted(g.s["A"].nodes)[0]))
    g.save("A", "f")
    for mode in ("all", "one", "dataerr"):
        g.op(op="cuts", f="f", mode=mode)
        g.op(op="marks", f="f", mode=mode)
        g.op(op="sections", f="f", mode=mode)
    g.load("B", "f")
    g.dump("B")
    return g.done("damaged small files")


def ep_compact(r, n):
    g = Gen(r, hot=0.8, maxset=r.choice([1, 2, 3]), ntags=r.choice([3, 5, 9]))
    g.new("A")
    g.build("A", n, words=max(2, n // 8))
    g.dump("A")
    g.save("A", "f")
    g.opt("A")
    g.dump("A")
    g.save("A", "g")
    g.opt("A")
    g.save("A", "g")
    g.load("B", "g")
    g.load("C", "f")
    g.cmp("A", "B")
    g.cmp("B", "C")
    g.twins = ["A", "B", "C"]
    g.build("A", n // 2, words=max(2, n // 10))
    g.cmp("A", "B")
    g.dump("C")
    g.opt("A")
    g.cmp("A", "B")
    g.dump("C")
    g.twins = []
    g.save("A", "g")
    g.build("A", n // 4)
    g.dump("A")
    g.opt("A")
    g.dump("A")
    return g.done("compaction")


def ep_waste(r, used, waste):
    """So many combinations in use, so many no longer: words of one tag set each, and words that got two, where the
    first alone is the set of nobody. The ones no longer used lie at the beginning, at the end or among the others."""
    g = Gen(r, ntags=60, alphabet=RU, maxlen=4)
    g.new("A")
    while len(g.s["A"].tags) < 60:
        g.tag("A")
    names = list(g.s["A"].tags)
    sets = [[n] for n in names] + [list(x) for x in itertools.combinations(names, 2)]
    r.shuffle(sets)
    sets = sets[:used + 2 * waste]
    where = r.choice(["first", "last", "among"])
    order = ["waste"] * waste + ["used"] * used if where == "first" else ["used"] * used + ["waste"] * waste
    if where == "among":
        r.shuffle(order)
    words = {}
    later = []
    for k, kind in enumerate(order):
        w = [RU[k // 32 % 32], RU[k % 32], RU[k // 1024 % 32]]
        g.attach_set("A", w, sets.pop())
        if kind == "waste":
            if r.random() < 0.5:
                g.attach_set("A", w, sets.pop())
            else:
                later.append(w)
    for w in later:
        g.attach_set("A", w, sets.pop())
    g.save("A", "f")
    g.opt("A")
    g.dump("A")
    g.save("A", "g")
    g.opt("A")
    g.save("A", "g")
    g.load("B", "g")
    g.cmp("A", "B")
    g.build("A", 10)
    g.dump("A")
    return g.done("combinations: %d in use, %d not" % (used, waste))


# --- identifiers ------------------------------------------------------------------------------
def ep_chain(r, n, source=None):
    """What identifiers stand for, again and again while a dictionary grows, is compacted, saved and loaded."""
    g = Gen(r, hot=0.7, maxset=r.choice([1, 2, 3, 6]), ntags=r.choice([2, 4, 9, 30]), maxlen=r.choice([2, 3]))
    if source:
        b, tags, words = source
        g.s["A"] = Sketch()
        g.s["A"].tags = [t[1] for t in tags]
        g.op(op="loadbytes", h="A", bytes=b, mode=r.choice(MODES))
        for w in words:
            g.note("A", w)
    else:
        g.new("A")
    chain = lambda h: g.op(op="chain", h=h)
    if r.random() < 0.2:
        chain("A")
    for _ in range(r.randint(2, 5)):
        g.build("A", n, words=max(2, n // 6))
        k = r.random()
        if k < 0.3:
            chain("A")
            g.opt("A")
        chain("A")
        if k > 0.5:
            f = r.choice("fg")
            g.save("A", f, nobytes=True)
            h = r.choice("AB")
            g.load(h, f)
            chain(h)
            if h == "B" and r.random() < 0.5:
                g.build("B", n // 2, words=max(2, n // 8))
                chain("B")
    chain("A")
    return g.done("identifiers")


def ep_chain_big(r, tags, sets):
    """Many tag sets of many sizes."""
    g = Gen(r, alphabet=RU, ntags=tags, maxlen=2, maxset=min(tags, 40), hot=0.2)
    g.new("A")
    for i in range(tags):
        g.tag("A", name=tag_name(i))
    for i in range(sets):
        g.attach("A", g.word())
        if i in (0, sets // 2):
            g.op(op="chain", h="A")
    g.op(op="chain", h="A")
    g.opt("A")
    g.op(op="chain", h="A")
    g.save("A", "f", nobytes=True)
    g.load("B", "f")
    g.op(op="chain", h="B")
    return g.done("many identifiers")


# --- memory ------------------------------------------------------------------------------------
def ep_owner(r, n):
    """A history with a caller that leaves alone what it lent and was given; then the same, on another handle, with a
    caller that writes to all of that."""
    g = Gen(r, hot=0.7, maxset=r.choice([1, 2, 3, 6]), ntags=r.choice([2, 4, 9]), maxlen=r.choice([1, 2, 3]))
    g.new("A")

    def look():
        for _ in range(r.choice([1, 3])):
            g.fetch("A")
            w = g.some_node("A")
            g.op(op="children", h="A", w=w if w and r.random() < 0.6 else r.choice(g.absent("A")) if r.random() < 0.2 else [])
        for op in r.sample(["dump", "chain", "children"], r.choice([1, 2])):
            if op == "dump":
                g.dump("A")
            elif op == "chain":
                g.op(op="chain", h="A")
            else:
                g.op(op="children", h="A", w=[])

    for _ in range(r.randint(1, 4)):
        g.build("A", n, words=max(2, n // 6))
        look()
        if r.random() < 0.3:
            g.opt("A")
            look()
        if r.random() < 0.3:
            f = r.choice("fg")
            g.save("A", f, nobytes=True)
            if r.random() < 0.7:
                g.load("A", f)
            look()
    look()
    g.dump("A")
    g.save("A", "f")
    polite = list(g.ops)
    for o in polite:
        o = dict(o, vandal=True)
        if o["h"] == "A":
            o["h"] = "C"
        g.ops.append(o)
    for op in ("dump", "chain"):
        g.op(op=op, h="A")
    return g.done("what the caller owns")


def ep_kept(r, n):
    """Answers are kept, and looked at again after everything that happened since."""
    g = Gen(r, hot=0.7, maxset=r.choice([1, 2, 3, 6]), ntags=r.choice([2, 4, 9]), maxlen=r.choice([1, 2, 3]))
    g.new("A")
    for _ in range(r.randint(2, 5)):
        g.build("A", n, words=max(2, n // 6))
        for _ in range(r.choice([3, 8])):
            g.fetch("A")
            w = g.some_node("A")
            g.op(op="children", h="A", w=w if w and r.random() < 0.6 else [])
        if r.random() < 0.5:
            g.op(op="chain", h="A")
        for o in g.ops:
            if o["op"] in ("fetch", "children", "chain"):
                o["keep"] = True
        k = r.random()
        if k < 0.3:
            g.opt("A")
        elif k < 0.5:
            g.save("A", "f", nobytes=True)
        elif k < 0.6 and g.f:
            g.load("A", "f")
        if r.random() < 0.5:
            g.op(op="kept", h="A")
    g.build("A", n, words=max(2, n // 6))
    g.op(op="kept", h="A")
    g.dump("A")
    g.op(op="kept", h="A")
    return g.done("answers kept")


# --- the same steps -------------------------------------------------------------------------
def without_effect(r, g, s, h, kinds=range(12)):
    """Calls that leave the content of a dictionary (sketched by s) as it is."""
    g.s[h] = s
    k = r.choice(kinds)
    start = len(g.ops)
    if k <= 2 and s.nodes:
        g.fetch(h)
    elif k == 3:
        g.refused(h)
    elif k == 4 and s.nodes:
        w = list(r.choice(sorted(s.nodes)))
        if len(w) > 1 and r.random() < 0.5:
            at = r.randint(1, len(w) - 1)
            g.op(op="addto", h=h, p=w[:at], w=w[at:])
        else:
            g.op(op="add", h=h, w=w, via=r.choice(["string", "runes"]))
    elif k == 5 and s.tags:
        g.op(op="tag", h=h, n=r.choice(s.tags), p=r.choice([[], [88, 88, 88, 88]] + s.tags))
    elif k == 6 and s.att:
        w = r.choice(sorted(s.att))
        ns = list(r.choice(s.att[w]))
        r.shuffle(ns)
        g.op(op="attach", h=h, w=list(w), tags=ns, via=r.choice(["add", "fetch", "id"]))
    elif k == 7 and s.nodes:
        g.op(op="attach", h=h, w=list(r.choice(sorted(s.nodes))), tags=[[122, 122, 122, 122]] + s.tags[:1], via=r.choice(["add", "fetch"]))
    elif k == 8:
        g.op(op="failsave", h=h, after=r.choice([0, 1, 5, 12, 20, 37]))
    elif k == 9:
        g.op(op="save", h=h, f="g", nobytes=True)
    elif k == 10:
        g.dump(h)
    else:
        g.op(op="save", h=h, f="g", nobytes=True)
        g.op(op="load", h=h, f="g", mode=r.choice(MODES), seed=r.randint(0, 999))
    res = g.ops[start:]
    del g.ops[start:]
    return res


def another_way(r, op, s):
    """The same effect by other calls."""
    op = dict(op)
    if op["op"] == "attach":
        ns = list(op["tags"])
        r.shuffle(ns)
        op["tags"] = ns
        if tuple(op["w"]) in s.nodes:
            op["via"] = r.choice(["add", "fetch", "id"])
        elif op["via"] == "add" and r.random() < 0.5:
            return [{"op": "add", "h": op["h"], "w": op["w"], "via": "runes"}, dict(op, via=r.choice(["fetch", "id"]))]
    elif op["op"] in ("add", "addto"):
        w = op.get("p", []) + op["w"]
        cuts = [i for i in range(1, len(w)) if tuple(w[:i]) in s.nodes]
        k = r.random()
        if k < 0.4 and cuts:
            at = r.choice(cuts)
            return [{"op": "addto", "h": op["h"], "p": w[:at], "w": w[at:]}]
        if k < 0.6 and len(w) > 1:
            at = r.randint(1, len(w) - 1)        # first a prefix, then all of it
            return [{"op": "add", "h": op["h"], "w": w[:at], "via": "string"}, {"op": "add", "h": op["h"], "w": w, "via": "string"}]
        return [{"op": "add", "h": op["h"], "w": w, "via": r.choice(["string", "runes"])}]
    return [op]


def ep_same(r, n, opts=0.08, churn=False):
    """The same effective steps on several dictionaries, each with calls of its own that have no effect."""
    # churn: few words and sets, so that combinations fall out of use and return in another order
    base = Gen(r, alphabet=r.choice([[97, 98], RU[:3]]), ntags=r.choice([3, 4]), maxlen=2, maxset=r.choice([1, 2]), hot=0.3) if churn else Gen(r)
    base.new("A")
    for _ in range(base.ntags):
        base.tag("A", name=tag_name(len(base.s["A"].tags) * 7 + r.randint(0, 3)))
    base.build("A", n)
    script = [o for o in base.ops if o["op"] in ("tag", "add", "addto", "attach") and o.get("tags") != [] and "over" not in o
              and o["w" if "w" in o else "n"] and o.get("n") not in ([32] * 4, [])]
    steps = []
    for o in script:
        steps.append(o)
        if r.random() < opts:
            steps.append({"op": "opt", "h": "A"})
    marks = sorted(r.sample(range(len(steps)), min(len(steps), 4))) + [len(steps) - 1]
    runs = []
    for h in ("A", "B", "C"):
        g, s, groups = Gen(r, alphabet=base.alphabet, ntags=1, maxlen=3), Sketch(), [[{"op": "new", "h": h}]]
        noise = r.choice([0, 0.2, 0.5])
        kinds = range(12) if r.random() < 0.4 else [r.randint(0, 11)]      # of one kind only: nothing else can hide its effect
        mine = [i for i in marks if r.random() < 0.6 or i == len(steps) - 1]
        for i, o in enumerate(steps):
            while r.random() < noise:
                groups.append(without_effect(r, g, s, h, kinds))
            groups.append(another_way(r, dict(o, h=h), s))
            sk = Gen(r, alphabet=[97], ntags=1, maxlen=1, maxset=1)
            sk.s[h] = s
            if o["op"] == "tag" and o["n"] not in s.tags:
                s.tags.append(o["n"])
            elif o["op"] == "add":
                sk.note(h, o["w"])
            elif o["op"] == "addto" and (not o["p"] or tuple(o["p"]) in s.nodes):
                sk.note(h, o["p"] + o["w"])
            elif o["op"] == "attach":
                if o["via"] == "add":
                    sk.note(h, o["w"])
                if tuple(o["w"]) in s.nodes and all(x in s.tags for x in o["tags"]):
                    s.att.setdefault(tuple(o["w"]), []).append(o["tags"])
            if i in mine:
                groups.append([{"op": "save", "h": h, "f": "f", "nobytes": True}])
        runs.append(groups)
    ops = [{"op": "reset", "note": "the same steps", "prints": True}]
    if r.random() < 0.5:
        for groups in runs:
            ops += [o for x in groups for o in x]
        return ops
    at = [0] * len(runs)
    while True:
        left = [i for i in range(len(runs)) if at[i] < len(runs[i])]
        if not left:
            return ops
        i = r.choice(left)
        ops += runs[i][at[i]]
        at[i] += 1


def ep_same_file(r, n):
    """Two dictionaries read from one file of another version, then the same steps."""
    b, tags, words = golden(r)
    ops = ep_same(r, n)
    ops = [o for o in ops if o["op"] != "new"]
    return ops[:1] + [{"op": "loadbytes", "h": h, "bytes": b, "mode": r.choice(MODES)} for h in ("A", "B", "C")] + ops[1:]


# --- limits ------------------------------------------------------------------------------------
def eps_limits(r):
    eps = []

    def start():
        g = Gen(r, alphabet=[97, 1073], ntags=1, maxlen=2)
        g.new("A")
        return g

    # number of tags: 255 can be saved, 256 exist but cannot be saved, the 257th has no identifier
    for n in (254, 255, 256, 257):
        g = start()
        g.op(op="tagall", h="A", ns=[tag_name(i) for i in range(min(n, 256))], p=[])
        g.s["A"].tags = [tag_name(i) for i in range(n)]
        g.op(op="add", h="A", w=[97], via="string")
        g.op(op="attach", h="A", w=[97], tags=[tag_name(0), tag_name(min(n, 256) - 1)], via="fetch")
        g.op(op="attach", h="A", w=[97], tags=[tag_name(127), tag_name(128)], via="fetch")
        g.dump("A")
        if n == 257:
            g.op(op="tag", h="A", n=tag_name(3), p=[])
            g.op(op="tag", h="A", n=tag_name(256), p=[])
        else:
            g.save("A", "f", nobytes=False)
            g.dump("A")
            g.op(op="load", h="B", f="f", mode="all")
            g.s["B"] = g.s["A"].copy()
            g.dump("B")
        eps.append(g.done("%d tags" % n))
    # size of a set (a tag may be listed many times): 255 can be saved, 256 cannot
    for n in (255, 256, 300):
        g = start()
        g.op(op="tagall", h="A", ns=[tag_name(i) for i in range(200)], p=[])
        g.op(op="add", h="A", w=[97], via="string")
        g.op(op="attach", h="A", w=[97], tags=[tag_name(i % 200) for i in range(n)], via="fetch")
        g.op(op="attach", h="A", w=[97], tags=[tag_name(1)], via="fetch")
        g.s["A"].nodes = {(97,)}
        g.dump("A")
        g.save("A", "f")
        g.op(op="load", h="B", f="f", mode="all")
        g.s["B"] = g.s["A"].copy()
        g.dump("B")
        g.dump("A")
        eps.append(g.done("set of %d tags" % n))
    # number of tag sets of a word
    pairs = list(itertools.combinations(range(24), 2))
    for n in (254, 255, 256, 257):
        g = start()
        g.op(op="tagall", h="A", ns=[tag_name(i) for i in range(24)], p=[])
        g.op(op="add", h="A", w=[97], via="string")
        g.op(op="add", h="A", w=[1073], via="string")
        order = pairs[:n]
        r.shuffle(order)
        g.op(op="attachall", h="A", w=[97], sets=[[tag_name(a), tag_name(b)] for a, b in order])
        g.op(op="attach", h="A", w=[1073], tags=[tag_name(3)], via="fetch")
        g.s["A"].nodes = {(97,), (1073,)}
        g.dump("A")
        g.save("A", "f")
        g.opt("A")
        g.dump("A")
        g.save("A", "g")
        g.op(op="load", h="B", f="g", mode="all")
        g.s["B"] = g.s["A"].copy()
        g.dump("B")
        eps.append(g.done("%d tag sets on a word" % n))
    # length of names
    for name in ([65], [65, 66], [65, 66, 67], [65, 66, 67, 68, 69], [65] * 8, [65] * 300, [208, 176, 65], [208, 176] * 4,
                 [65, 66, 67, 68, 32], [65, 66, 67, 68, 0], [32] * 5, [32] * 3, [45] * 3, [45] * 5, [32, 65, 66, 67, 68]):
        for parent in (False, True):
            g = start()
            if parent:
                g.op(op="tag", h="A", n=tag_name(5), p=name)
            else:
                g.op(op="tag", h="A", n=name, p=[])
            g.op(op="add", h="A", w=[97], via="string")
            g.op(op="attach", h="A", w=[97], tags=[tag_name(5) if parent else name], via="fetch")
            g.s["A"].nodes = {(97,)}
            g.dump("A")
            g.save("A", "f")
            g.dump("A")
            g.op(op="load", h="B", f="f", mode="all")
            eps.append(g.done("name of %d bytes" % len(name)))
    for name in ([208, 176, 208, 177], [65, 0, 0, 65], [255, 254, 253, 252]):
        g = start()
        g.op(op="tag", h="A", n=name, p=name)
        g.op(op="add", h="A", w=[97], via="string")
        g.op(op="attach", h="A", w=[97], tags=[name], via="fetch")
        g.save("A", "f")
        g.op(op="load", h="B", f="f", mode="one")
        g.s["B"] = g.s["A"].copy()
        g.dump("B")
        eps.append(g.done("name of 4 bytes"))
    return eps


def ep_grid(n, m, sets=True):
    """n*m two-letter words: more nodes than 16 bits can number when it is large."""
    ws = [[0x400 + i, 0x4000 + j] for i in range(n) for j in range(m)]
    first = [[0x400 + i] for i in range(n)]
    tags = [tag_name(i) for i in range(3)]
    ops = [{"op": "reset", "note": "grid"}, {"op": "new", "h": "A"}, {"op": "tagall", "h": "A", "ns": tags, "p": []},
           {"op": "addall", "h": "A", "ws": ws, "sets": [[tags[0]], [tags[1], tags[2]], [tags[2]]] if sets else []},
           {"op": "bigdump", "h": "A", "ws": ws + first},
           {"op": "save", "h": "A", "f": "f"},
           {"op": "load", "h": "B", "f": "f", "mode": "all"},
           {"op": "bigdump", "h": "B", "ws": ws + first},
           {"op": "resave", "h": "B", "f": "f"}]
    return ops


def ep_many(n):
    """n one-letter words: more nodes than 16 bits can number."""
    ws = [[0x20000 + i] for i in range(n)]
    return [{"op": "reset", "note": "many"}, {"op": "new", "h": "A"},
            {"op": "addall", "h": "A", "ws": ws}, {"op": "bigdump", "h": "A", "ws": ws},
            {"op": "save", "h": "A", "f": "f"}, {"op": "load", "h": "B", "f": "f", "mode": "all"},
            {"op": "bigdump", "h": "B", "ws": ws}, {"op": "resave", "h": "B", "f": "f"}]


# --- the file format -----------------------------------------------------------------------------
def u16(n):
    return [n >> 8 & 255, n & 255]


def u32(n):
    return [n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255]


def golden(r, letters=None, long=(None, 0)):
    """A file of the documented layout, such as another version of the program could have written: unused
    tag sets and combinations, empty tables, nodes in any order."""
    ntags = r.choice([0, 1, 3, 7, 40])
    what, length = long
    if what:
        ntags = {"sets": 200, "combos": 40, "tables": 250}[what]
    tags = []
    for i in range(ntags):
        tags.append((r.choice([[32] * 4, tag_name(r.randint(0, 50))]), tag_name(i * 3)))
    b = [84, 68, 0, ntags]
    for p, n in tags:
        b += p + n
    ntab = r.choice([0, 1, 2, 4, 7]) if ntags else r.choice([0, 2])
    if what:
        ntab = 4 if what != "tables" else r.choice([128, 255, 256, 300])
    sets = []
    for t in range(1, ntab + 1):
        tab = set()
        if ntags and t < 256 and r.random() < (0.8 if what != "tables" or t in (127, 128, 129, 254, 255) else 0.1):
            for _ in range(r.choice([1, 2, 5])):
                tab.add(tuple(sorted(r.randrange(ntags) for _ in range(t))))
        while what == "sets" and t == 3 and len(tab) < length:
            tab.add(tuple(sorted(r.randrange(ntags) for _ in range(t))))
        while what in ("combos", "tables") and t == 2 and len(tab) < 500:
            tab.add(tuple(sorted(r.randrange(ntags) for _ in range(t))))
        tab = sorted(tab)
        r.shuffle(tab)
        sets.append(tab)
    b += [84, 73, 0] + u32(ntab)
    for tab in sets:
        b += u16(len(tab))
        for s in tab:
            b += [len(s)] + list(s)
    ids = [(t, k) for t, tab in enumerate(sets) for k in range(len(tab))]
    combos = []
    ncomb = r.choice([0, 1, 2, 3, 5])
    if what:
        ncomb = 3 if what != "tables" else r.choice([127, 128, 255])
    for t in range(1, ncomb + 1):
        tab = set()
        if len(ids) >= t and r.random() < (0.8 if what != "tables" or t in (127, 128, 255) else 0.1):
            for _ in range(r.choice([1, 2, 4])):
                tab.add(tuple(sorted(r.sample(ids, t))))
        while what == "combos" and t == 2 and len(tab) < length:
            tab.add(tuple(sorted(r.sample(ids, t))))
        if what == "sets":      # such as are far down their table
            for _ in range(12):
                tab.add(tuple(sorted([x for x in ids if x[0] == 2][-k] for k in r.sample(range(1, 2 * length // 3), t))))
        tab = sorted(tab)
        r.shuffle(tab)
        combos.append(tab)
    b += [67, 68, 0, ncomb]
    for tab in combos:
        b += u32(len(tab))
        for c in tab:
            b += [len(c)]
            for t, k in c:
                b += u16(t) + u16(k)
    vids = [(t + 1, k) for t, tab in enumerate(combos) for k in range(len(tab))]
    # nodes: a random tree, numbered in an order of its own
    n = r.choice([0, 1, 3, 10, 40]) if what != "tables" else 5
    alphabet = letters or r.choice([[97, 1073], RU, EDGE + [0]])
    paths = [()]
    while len(paths) < n + 1:
        for _ in range(200):
            p = r.choice(paths) + (r.choice(alphabet),)
            if p not in paths:
                paths.append(p)
                break
        else:
            break
    order = paths[1:]
    if r.random() < 0.5:
        r.shuffle(order)
    num = {(): 0}
    for i, p in enumerate(order):
        num[p] = i + 1
    b += [73, 68, 0] + u32(len(order) + 1) + [0] * 16
    for p in order:
        v = r.choice(vids) if vids and r.random() < 0.7 else (0, 0)
        if what and r.random() < 0.5:
            v = r.choice([x for x in vids if x[0] == 2][-50:] + vids[-10:])
        b += u32(num[p[:-1]]) + u32(num[p]) + u32(p[-1]) + u16(v[0]) + u16(v[1])
    return b, tags, [list(p) for p in order]


def ep_golden_long(r, what, length):
    """A file with a long table."""
    b, tags, words = golden(r, RU, (what, length))
    g = Gen(r, ntags=2, maxlen=3)
    g.op(op="loadbytes", h="A", bytes=b, mode=r.choice(MODES))
    g.s["A"] = s = Sketch()
    s.tags = [t[1] for t in tags]
    s.nodes = {tuple(w) for w in words}
    g.dump("A")
    g.save("A", "f")
    g.op(op="load", h="B", f="f", mode=r.choice(MODES))
    g.s["B"] = s.copy()
    g.op(op="resave", h="B", f="f")
    g.dump("B")
    return g.done("long %s %d" % (what, length))


def ep_golden(r, n):
    b, tags, words = golden(r)
    g = Gen(r, ntags=2, maxlen=3)
    g.op(op="loadbytes", h="A", bytes=b, mode=r.choice(MODES))
    s = Sketch()
    s.tags = [t[1] for t in tags]
    s.nodes = {tuple(w) for w in words}
    g.s["A"] = s
    g.dump("A")
    g.save("A", "f")
    g.op(op="load", h="B", f="f", mode=r.choice(MODES))
    g.s["B"] = s.copy()
    g.op(op="resave", h="B", f="f")
    g.dump("B")
    if r.random() < 0.5:
        g.opt("A")
        g.dump("A")
    g.build("A", n)
    g.dump("A")
    g.save("A", "f")
    return g.done("file of another version")


def eps_first_version(r):
    """Files written by the first version of the code, beside what was done for them done now."""
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "golden", "first_version.json")
    eps = []
    for x in json.load(open(path)):
        ops = [{"op": "reset", "note": "file of the first version"}] + x["steps"]
        ops.append({"op": "loadbytes", "h": "B", "bytes": x["bytes"], "mode": r.choice(MODES)})
        ops += [{"op": "cmp", "h": "A", "g": "B"}, {"op": "chain", "h": "B"}, {"op": "opt", "h": "B"}, {"op": "cmp", "h": "A", "g": "B"},
                {"op": "save", "h": "B", "f": "f"}, {"op": "load", "h": "C", "f": "f", "mode": r.choice(MODES)}, {"op": "cmp", "h": "A", "g": "C"}]
        eps.append(ops)
    return eps


def ep_format(r, n):
    g = Gen(r)
    g.new("A")
    g.save("A", "f")
    for _ in range(3):
        g.build("A", n)
        g.save("A", "f")
    g.opt("A")
    g.save("A", "f")
    g.load("B", "f")
    g.build("B", n)
    g.save("B", "f")
    return g.done("files written")


def ep_golden_cut(r):
    b, _, _ = golden(r)
    ops = [{"op": "reset", "note": "golden cut"}]
    for _ in range(12):
        ops.append({"op": "loadbytes", "h": "A", "bytes": b[:r.randrange(len(b))], "mode": r.choice(MODES)})
    for at in [0, 1, 2]:
        c = list(b)
        c[at] = r.choice([x for x in range(256) if x != c[at]])
        ops.append({"op": "loadbytes", "h": "A", "bytes": c, "mode": "all"})
    ops.append({"op": "loadbytes", "h": "A", "bytes": b, "mode": "one"})
    ops.append({"op": "dump", "h": "A"})
    return ops


# --- scripts of the model -----------------------------------------------------------------------
def from_scripts(r, scripts, tail, handles=("A",)):
    """Episodes from scripts TLC printed: every handle starts new; a dump (or more) follows."""
    eps = []
    for sc in scripts:
        ops = [{"op": "reset", "note": "script"}] + [{"op": "new", "h": h} for h in handles]
        for op in sc:
            op = dict(op)
            if op["op"] == "load":
                op["mode"] = r.choice(MODES)
            if op["op"] == "attach":
                op["via"] = r.choice(["fetch", "id", "add"])
            ops.append(op)
        h = sc[-1]["h"]
        for t in tail:
            t = dict(t)
            if t["op"] in ("dump",):
                t["probe"] = [[97], [97, 1073], [1073], [97, 97], [97, 1073, 97], [98]]
            if t.get("h") == "last":
                t["h"] = h
            ops.append(t)
        eps.append(ops)
    return eps
