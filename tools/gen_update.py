"""Histories of updates: files present, what the server says, faults."""
import base64, bz2

NOW = 100
LETTERS = "абвгдежзиклмнопрстуф"


def clock(r):
    """How long a tick is, how far into it files are written (the server tells whole seconds only), and where we are."""
    c = {"tick": r.choice([1, 1, 1, 2, 10, 3600, 86400]), "fine": r.choice([0, 1, 1000, 300000000, 500000000, 700000000, 999999999])}
    if r.random() < 0.5:
        c["zone"] = r.choice([10800, -28800, 20700, 43200, 3600])
    return c


def ahead(r, op):
    """All of it takes place in days to come, by the clock of this computer."""
    if r.random() < 0.25:
        op["clock"] = dict(op["clock"], ahead=r.choice([2, 3, 400, 9000]))
    return op


def b64(b):
    return base64.b64encode(b).decode()


def document(i, lemmas=1):
    a = LETTERS[i % len(LETTERS)]
    s = ['<?xml version="1.0" encoding="utf-8"?>\n<dictionary version="0.92" revision="%d"><grammemes><grammeme parent="">'
         '<name>NOUN</name></grammeme></grammemes><lemmata>' % i]
    words = {a}
    for k in range(lemmas):
        w, x = a, k
        while x:
            w, x = w + LETTERS[x % 7], x // 7
        s.append('<lemma id="%d" rev="%d"><l t="%s"><g v="NOUN"/></l><f t="%s"/></lemma>' % (k + 1, k + 1, w, w))
        words |= {w[:n] for n in range(1, len(w) + 1)}
    return "".join(s) + "</lemmata></dictionary>\n", sorted([ord(c) for c in w] for w in words)


def version(i, kind="good", lemmas=1):
    doc, words = document(i, lemmas)
    xml = doc.encode()
    u, c = True, True
    if kind == "cutdoc":
        xml, c = xml[:len(xml) * 3 // 4], False
    elif kind == "nodict":
        xml, c = b"<html><body>%d</body></html>" % i, False
    elif kind == "badtag":
        xml, c = xml.replace(b'v="NOUN"', b'v="VERB"', 1), False
    elif kind == "emptydoc":
        xml, c = b"", False
    elif kind == "blankdoc":
        xml, c = b"\n" * (i + 1), False
    src = bz2.compress(xml)
    if kind == "multi":
        k = len(xml) // 2
        src = bz2.compress(xml[:k]) + bz2.compress(xml[k:])
    elif kind == "plain":
        src, u = xml, False
    elif kind == "empty":
        src, u = b"", False
    elif kind == "cut":
        src, u = src[:len(src) * 2 // 3], False
    elif kind == "crc":
        src, u = src[:-6] + bytes([src[-6] ^ 0x10]) + src[-5:], False
    elif kind == "html":
        src, u = b"<html>%d</html>" % i, False
    elif kind == "cutstream":      # the second stream is cut
        k = len(xml) // 2
        src, u = bz2.compress(xml[:k]) + bz2.compress(xml[k:])[:20], False
    v = {"u": u, "c": u and c, "src": b64(src), "xml": b64(xml) if u else "", "words": words if u and c else []}
    return v


def distinct(vers):
    """Versions are told apart by their bytes."""
    for x in ([v["src"] for v in vers], [v["xml"] for v in vers if v["u"]]):
        if len(set(x)) != len(x):
            raise ValueError("two versions are the same")


GOOD = ["good", "good", "multi"]
BAD_U = ["plain", "empty", "cut", "crc", "html", "cutstream"]
BAD_C = ["cutdoc", "nodict", "badtag", "emptydoc", "blankdoc"]
STATUSES = [201, 202, 203, 204, 206, 300, 304, 400, 401, 403, 404, 410, 429, 500, 502, 503, 504]
HANGS = [-1, -2]
GARBAGE = ["yesterday", "0", "2026-13-45", "Mon, 32 Foo 2026 10:00:00 GMT"]


def server(r, **kw):
    s = dict(op="server", head=200, get=200, lm=-1, v=1)
    s.update(kw)
    if s["lm"] == -2:
        s["garbage"] = r.choice(GARBAGE)
    k = r.random()
    if k < 0.1:
        s["portion"] = r.choice([1, 7, 100])
    elif k < 0.15:
        s["redir"] = True
    return s


def ep_case(r, case):
    """One situation made by TLC from GenUpdate.tla."""
    vers = [version(0, r.choice(GOOD)), version(1, r.choice(GOOD)), version(2, r.choice(BAD_U)), version(3, r.choice(BAD_C))]
    ops = [ahead(r, {"op": "reset", "vers": vers, "clock": clock(r), "note": "situation", "nodir": all(f["v"] == -2 for f in case["fs"].values())})]
    for f in ("src", "xml", "dat"):
        x = case["fs"][f]
        if x["v"] != -2:
            ops.append({"op": "put", "f": f, "v": x["v"], "t": x["t"]})
    if r.random() < 0.2:
        ops.append({"op": "aside", "f": r.choice(["src", "xml", "dat"])} if not ops[0]["nodir"] else {"op": "load"})
    s = case["srv"]
    kw = dict(s)
    for k in ("head", "get"):
        if kw[k] == 404 or kw[k] == 503:
            kw[k] = r.choice(STATUSES)
        elif kw[k] == -1:
            kw[k] = r.choice(HANGS)
    ops.append(server(r, **kw))
    k = r.random()
    if k < 0.08:
        ops.append({"op": "required", "now": NOW})
    if k < 0.12:
        ops.append({"op": "exists"})
    if 0.12 < k < 0.2:
        ops.append({"op": r.choice(["download", "unpack"]), "now": NOW + 50})
    ops.append({"op": "update", "force": case["force"], "via": "lib" if r.random() < 0.93 else "cmd", "now": NOW + 100})
    ops.append({"op": "load"})
    if r.random() < 0.3:
        ops += [{"op": "update", "force": False, "via": "lib", "now": NOW + 200}, {"op": "load"}]
    return ops


class History:
    def __init__(self, r, n=6, big=False, nodir=None, bad=0.3):
        self.r = r
        self.kinds = [r.choice(GOOD) if i == 0 or r.random() > bad else r.choice(BAD_U + BAD_C) for i in range(n)]
        self.kinds[-1] = r.choice(GOOD)
        for kind, other in (("emptydoc", "blankdoc"), ("empty", "html")):      # there is one empty file only
            for i in range(n):
                if self.kinds[i] == kind and kind in self.kinds[:i]:
                    self.kinds[i] = other
        self.vers = [version(i, k, r.choice([1, 3, 400 if big else 20, 1500 if big else 40])) for i, k in enumerate(self.kinds)]
        distinct(self.vers)
        self.ops = [{"op": "reset", "vers": self.vers, "clock": clock(r), "nodir": r.random() < 0.3 if nodir is None else nodir, "note": "history"}]
        self.now = 20
        self.pub = 0          # nothing published yet
        self.lm = -1

    def tick(self):
        self.now += 20
        return self.now

    def add(self, **kw):
        self.ops.append(kw)

    def publish(self, v=None):
        r = self.r
        self.pub = v or min(self.pub + 1, len(self.vers))
        self.lm = self.tick()
        self.tick()
        self.online()

    def online(self, **kw):
        a = dict(lm=self.lm, v=max(self.pub, 1))
        a.update(kw)
        self.ops.append(server(self.r, **a))

    def offline(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            self.online(head=r.choice(STATUSES + HANGS), get=r.choice(STATUSES + HANGS))
        elif k < 0.7:
            self.online(get=r.choice(STATUSES + HANGS))
        else:
            self.online(cut=r.choice([0, r.randint(0, 999), 999]), chunked=r.random() < 0.4)

    def update(self, force=None, via=None, fault=None):
        r = self.r
        op = dict(op="update", force=r.random() < 0.4 if force is None else force, now=self.tick(), via=via or r.choice(["lib", "lib", "lib", "cmd"]))
        if fault:
            op["via"], op["fault"] = "cmd", fault
        self.ops.append(op)

    def load(self):
        self.add(op="load")


def ep_history(r, n):
    """Publications, outages, files removed by hand, updates of all sorts."""
    h = History(r)
    ahead(r, h.ops[0])
    h.publish()
    for _ in range(n):
        k = r.random()
        if k < 0.25:
            h.publish()
        elif k < 0.4:
            h.offline()
            h.update()
            h.load()
            h.online()
        elif k < 0.5:
            h.add(op="remove", f=r.choice(["src", "xml", "dat"]))
        elif k < 0.55:
            h.online(lm=-1)
            h.update()
            h.online()
        elif k < 0.58:
            h.online(lm=-2)
            h.update()
            h.online()
        elif k < 0.64:
            h.add(op=r.choice(["required", "download", "unpack"]), now=h.tick())
        elif k < 0.66:
            h.add(op="exists")
        elif k < 0.67:
            h.add(op="dangle", f=r.choice(["src", "xml", "dat"]))
        elif k < 0.68:
            f = r.choice(["src", "xml", "dat"])
            h.add(op="put", f=f, v=-3, t=0)
            h.add(op=r.choice(["required", "download", "unpack", "exists"]), now=h.tick())
            h.update()
            h.add(op=r.choice(["remove", "dangle"]), f=f)
        elif k < 0.72:
            f = r.choice(["src", "xml", "dat"])
            good = [i + 1 for i, x in enumerate(h.vers) if x["c"] or (f == "src") or (f == "xml" and x["u"])]
            v, t = r.choice(good), h.tick()
            h.add(op="put", f=f, v=v, t=t)
        elif k < 0.74:
            h.online(heads=[200, r.choice(STATUSES + HANGS)])
            h.update()
            h.online()
        else:
            h.update()
            if r.random() < 0.5:
                h.load()
    h.update(force=False)
    h.load()
    return h.ops


def ep_published_during(r):
    """A newer version appears while the former one is being fetched."""
    h = History(r, 3, bad=0)
    h.publish(1)
    if r.random() < 0.5:
        h.update(force=False)
        h.publish(2)
    nxt = h.pub + 1
    when = h.now + 20          # the tick of the update that fetches
    h.online(then=dict(op="server", head=200, get=200, lm=when, v=nxt))
    h.update(force=False, via="lib")
    h.load()
    h.update(force=False, via="lib")
    h.load()
    return h.ops


def fault(r, n, kind=None):
    kind = kind or r.choice(["kill", "kill", "fail", "full", "short", "rfail"])
    return {"kind": kind, "n": n, "errno": r.choice([28, 5, 13, 122, 30]) if kind != "rfail" else 5}


def begin(r, h, start):
    """Brings the history to a starting state: nothing, an up to date dictionary, an outdated one."""
    h.publish(1)
    if start != "empty":
        h.update(force=False, via="lib")
        h.load()
    if start == "outdated":
        h.publish(2)
    if start == "halfway":      # downloaded, not unpacked
        h.publish(2)
        h.add(op="download", now=h.tick())
    if start == "unpacked":
        h.publish(2)
        h.add(op="download", now=h.tick())
        h.add(op="unpack", now=h.tick())


def ep_fault(r, start, f, big=False, then=None):
    """One fault; what is there afterwards; and how it goes on."""
    h = History(r, 4, big=big, bad=0, nodir=start == "empty" and r.random() < 0.3)
    begin(r, h, start)
    h.update(force=start == "fresh" or r.random() < 0.3, fault=f)
    h.load()
    if then is not None:        # the retry is disturbed as well
        h.update(force=False, fault=then)
        h.load()
    if r.random() < 0.2:
        h.offline()
        h.update()
        h.load()
        h.online()
    if r.random() < 0.3:
        h.publish()
    h.update(force=False, via=r.choice(["lib", "cmd"]))
    h.load()
    h.update(force=False, via="lib")
    h.load()
    return h.ops


def ep_cut(r, start, cut):
    h = History(r, 4, bad=0)
    begin(r, h, start)
    h.online(cut=cut, chunked=r.random() < 0.4)
    h.update(via=r.choice(["lib", "cmd"]))
    h.load()
    h.online()
    h.update(force=False)
    h.load()
    return h.ops


def ep_storm(r, n):
    """Fault after fault, publication after publication."""
    h = History(r, 6, bad=0.15)
    h.publish()
    for _ in range(n):
        k = r.random()
        if k < 0.2:
            h.publish()
        elif k < 0.3:
            h.offline()
        elif k < 0.4:
            h.online()
        if r.random() < 0.7:
            h.update(fault=fault(r, r.randint(1, 30)))
        else:
            h.update()
        if r.random() < 0.5:
            h.load()
    h.publish(len(h.vers))
    h.update(force=False)
    h.load()
    return h.ops


STARTS = ["empty", "fresh", "outdated", "halfway", "unpacked"]


def eps_faults(r, upto, kinds=("kill", "fail", "full", "short", "rfail"), big=False):
    return [ep_fault(r, s, fault(r, n, k), big=big) for s in STARTS for k in kinds for n in range(1, upto + 1)]


def turns(r, spans, kill=False):
    """Who goes on for how long: one lets go somewhere, the others come in between."""
    out = [{"who": w, "n": n} for w, n in spans]
    if kill:
        r.choice(out)["kill"] = True
    return out


def ep_race(r, start, spans, procs=2, kill=False, kinds=0, big=False, loads=0):
    """Updates at the same time under a schedule, and how it goes on."""
    h = History(r, 4, bad=kinds, big=big, nodir=start == "empty" and r.random() < 0.3)
    begin(r, h, start)
    k = r.random()
    if k < 0.06:
        h.offline()
    elif k < 0.1:
        h.online(lm=r.choice([-1, -2]))
    elif k < 0.16 and h.pub < len(h.vers):
        h.online(then=dict(op="server", head=200, get=200, lm=h.lm + 1, v=h.pub + 1))
    forces = [start == "fresh" or r.random() < 0.4 for _ in range(procs - loads)] + ["load"] * loads      # somebody who loads the dictionary
    h.add(op="race", forces=forces, turns=turns(r, spans, kill), now=h.tick())
    h.load()
    h.online()
    if r.random() < 0.3:
        h.publish()
    h.update(force=False, via="lib")
    h.load()
    return h.ops


def spans(r, procs, upto, k):
    out, last = [], -1
    for _ in range(k):
        who = r.choice([x for x in range(procs) if x != last])
        out.append((who, r.choice([1, 1, 2, 3, r.randint(1, upto), r.randint(1, upto)])))
        last = who
    return out


def eps_race(r, upto, step=1):
    """One stops before its n-th call, the other does all or part of its work."""
    eps = []
    for start in STARTS:
        for n in range(1, upto + 1, step):
            eps.append(ep_race(r, start, [(0, n), (1, -1)]))
            eps.append(ep_race(r, start, [(0, n), (1, r.randint(1, upto)), (0, -1)]))
    return eps


def eps_load(r, upto):
    """Somebody stops while loading, and an update comes in between."""
    eps = []
    for start in STARTS:
        for n in range(1, upto + 1):
            big = n % 2 == 0
            eps.append(ep_race(r, start, [(1, n), (0, -1)], big=big, loads=1))
            eps.append(ep_race(r, start, [(0, r.randint(1, 70)), (1, n), (0, r.choice([1, 2, 3, 5, 40])), (1, 1)], big=big, loads=1))
    return eps


def ep_together(r, procs):
    h = History(r, 4, bad=0)
    begin(r, h, r.choice(STARTS))
    h.add(op="together", forces=[r.random() < 0.5 for _ in range(procs)], shared=r.random() < 0.5, now=h.tick())
    h.load()
    for _ in range(r.choice([0, 2])):
        h.publish()
        h.add(op="together", forces=[r.random() < 0.5 for _ in range(procs)], shared=r.random() < 0.5, now=h.tick())
        h.load()
    h.update(force=False, via="lib")
    h.load()
    return h.ops
