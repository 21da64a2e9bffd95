"""P03 - child records attach to the parent record they appear under."""
import gen

RULE = ("random templates of nested groups (depth 1-4, up to 9 groups, up to 3 top groups) and random forests of records rendered as indented text: own lines and children of "
        "every kind in any order, tail lines, absent lines, noise, orphans before any parent, records discarded by a condition on their start line with everything below them, lines "
        "shared by sibling groups; every value is a unique tag. Non-trivial: at least one child record under each of two different parents.")
NEED = {"tail_repeats": 1500, "shared_kids": 12361, "deep_shared": 7394, "child_records": 96510, "tail_values": 13208, "filtered_subtrees": 5048, "orphans": 3611, "depth3_records": 20444, "shared_lines": 5023, "bare_starts": 18943, "stray_lines":
        6469}


class G:
    def __init__(self, name, depth, kw, lines, parent=None):
        self.name, self.depth, self.kw, self.lines, self.parent = name, depth, kw, lines, parent
        self.children = []
        self.svars = []
        self.flt = False
        self.alt = None

    def all(self):
        out = [self]
        for c in self.children:
            out += c.all()
        return out


def make_group(rng, pool, depth, maxdepth, budget, parent=None, name="g", wide=False):
    lines = []
    ind = " " * depth + " "
    for i in range(rng.randint(0, 3)):
        if not pool:
            break
        lines.append((ind, pool.pop(), "v%d" % i, rng.random() < 0.4))
    g = G(name, depth, pool.pop(), lines, parent)
    g.svars = ["id"] + (["s"] if rng.random() < 0.2 else [])
    g.flt = rng.random() < 0.25
    # start line without values: the first of own lines is always there
    if lines and rng.random() < 0.25:
        g.svars, g.flt = [], False
        lines[0] = lines[0][:3] + (False,)
    # another start line of the same group
    g.alt = pool.pop() if pool and rng.random() < 0.2 else None
    if depth < maxdepth:
        fan = rng.choice([0, 1, 1, 2, 3]) if depth else rng.choice([1, 1, 2, 3])
        if wide:
            fan = rng.randint(5, 9) if depth == 0 else rng.choice([0, 0, 1])
        elif maxdepth > 3:
            fan = rng.choice([1, 1, 2])
        for c in range(fan):
            if budget[0] <= 0 or len(pool) < 6:
                break
            budget[0] -= 1
            g.children.append(make_group(rng, pool, depth + 1, maxdepth, budget, g, "%s_%d" % (name, c), wide))
    return g


def template(g, rng, adjacent):
    t = "<group name=\"%s*\">\n" % g.name
    for n, kw in enumerate([g.kw] + ([g.alt] if g.alt else [])):
        vs = "".join(" {{ %s%s }}" % (v, ' | exclude("BAD")' if g.flt and v == "id" else "") for v in g.svars)
        t += " " * g.depth + kw + vs + (" {{ _start_ }}" if n or not vs or rng.random() < 0.1 else "") + "\n"
    for ind, kw, var, tail in g.lines:
        if not (tail and g.children):
            t += "%s%s {{ %s }}\n" % (ind, kw, var)
    tails = [x for x in g.lines if x[3] and g.children]
    for n, c in enumerate(g.children):
        t += template(c, rng, adjacent)
        # parent lines written between or after the child groups of the template
        while tails and rng.random() < 0.5:
            ind, kw, var, tail = tails.pop()
            t += "\n%s%s {{ %s }}\n" % (ind, kw, var)
    for ind, kw, var, tail in tails:
        t += "\n%s%s {{ %s }}\n" % (ind, kw, var)
    if adjacent:
        t = t.rstrip("\n")
        return t + "</group>" if g.children and not tails and t.endswith(">") else t + "\n</group>"
    return t + "</group>\n"


class Data:
    def __init__(self, rng, M):
        self.rng, self.M, self.out, self.uniq = rng, M, [], gen.Uniq(rng)
        self.seen = set()
        self.parents_with_children = 0
        self.pnoise = rng.choice([0, 0, 0.15, 0.3])
        self.chain = []

    def noise(self):
        if self.rng.random() < self.pnoise:
            self.out.append(self.rng.choice(["", "!", "~~ " + gen.word(self.rng), "     !", "exit"]))

    def record(self, g, fan, dead=False):
        rng, M = self.rng, self.M
        bad = g.flt and rng.random() < 0.25
        rec = {}
        s = " " * g.depth + (rng.choice([g.kw, g.alt]) if g.alt else g.kw)
        for v in g.svars:
            val = self.uniq()
            if v == "id" and bad:
                val = "BAD" + val
            rec[v] = val
            s += " " + val
        self.out.append(s)
        if not (dead or bad):
            self.chain, p = [], g
            while p is not None:
                self.chain.insert(0, p)
                p = p.parent
        if not g.svars:
            M.ev("bare_starts")
            val = self.uniq()
            self.out.append("%s%s %s" % (g.lines[0][0], g.lines[0][1], val))
            rec[g.lines[0][2]] = val
        self.seen.add(g.name)
        if bad:
            M.ev("filtered_subtrees")
        self.noise()
        items = [("line", x) for x in g.lines if rng.random() < 0.7 and x[2] not in rec]
        # a line can come again: the first value is kept
        items += [("line", x) for x in g.lines if rng.random() < 0.08]
        if g.children:
            for _ in range(rng.choice(fan)):
                items.append(("child", rng.choice(g.children)))
        if rng.random() < 0.6:
            rng.shuffle(items)
        had_child = False
        for kind, x in items:
            if kind == "line":
                val = self.uniq()
                self.out.append("%s%s %s" % (x[0], x[1], val))
                again = x[2] in rec
                rec.setdefault(x[2], val)
                if had_child and not (dead or bad):
                    M.ev("tail_repeats" if again else "tail_values")
            else:
                had_child = True
                sub = self.record(x, fan, dead or bad)
                if sub is not None and not (dead or bad):
                    rec.setdefault(x.name.rsplit("_", 1)[-1] and x.name, []).append(sub)
                    M.ev("child_records")
                    if x.depth >= 3:
                        M.ev("depth3_records")
                # a line of a child group that is closed by another record belongs to nobody
                if not (dead or bad) and sub is not None and rng.random() < 0.15:
                    self.stray()
                # orphan: a grandchild kind or a line of a child kind never opened so far
                if rng.random() < 0.1:
                    self.orphan(g)
            self.noise()
        if any(isinstance(v, list) for v in rec.values()):
            self.parents_with_children += 1
        return None if bad else rec

    def stray(self):
        cand = [x for x in self.chain[0].all() if x not in self.chain and x.lines]
        if cand:
            ln = self.rng.choice(self.rng.choice(cand).lines)
            self.out.append("%s%s %s" % (ln[0], ln[1], self.uniq()))
            self.M.ev("stray_lines")

    def orphan(self, g):
        """a line of a group whose kind has not started anywhere yet: nobody owns it"""
        cand = [x for x in g.all() if x is not g and x.name not in self.seen and x.lines]
        cand += [x for x in g.all() if x.parent is not None and x.parent.name not in self.seen and x is not g]
        if not cand:
            return
        x = self.rng.choice(cand)
        if x.name not in self.seen and x.lines:
            ln = self.rng.choice(x.lines)
            self.out.append("%s%s %s" % (ln[0], ln[1], self.uniq()))
            self.M.ev("orphans")
        if x.parent.name not in self.seen:
            self.out.append(" " * x.depth + x.kw + "".join(" " + self.uniq() for _ in x.svars))
            self.M.ev("orphans")


def forest(rng, M, size=None):
    pool = ["spare" + "abcdefghijklmnopqrstuvwxyz"[k // 26] + "abcdefghijklmnopqrstuvwxyz"[k % 26] for k in range(60)] + gen.tokens(rng, len(gen.KEYWORDS))
    ntop = rng.choice([1, 1, 1, 2, 3])
    maxdepth = rng.choice([1, 2, 2, 3, 3])
    shape = "deep" if rng.random() < 0.06 else "wide" if rng.random() < 0.06 else ""
    if shape:
        # many levels, many sibling groups
        M.ev(shape)
        maxdepth = rng.randint(5, 8) if shape == "deep" else 2
        pool = ["more" + w for w in gen.words(rng, 60)] + pool
        rng.shuffle(pool)
        ntop = 1
    tops = [make_group(rng, pool, 0, maxdepth, [rng.choice([2, 4, 8]) if ntop == 1 and not shape else 12 if shape else 3], None, "g%d" % i, shape == "wide") for i in range(ntop)]
    t = "".join(template(g, rng, rng.random() < 0.3) for g in tops)
    d = Data(rng, M)
    exp = {}
    if rng.random() < 0.3:
        d.orphan(rng.choice(tops))
    for _ in range(size or rng.choice([1, 2, 3, 5, 8])):
        g = rng.choice(tops)
        rec = d.record(g, [1, 1, 2] if shape == "deep" else [0, 4, 8] if shape == "wide" else [0, 1, 2, 3] if not size else [1, 2, 3])
        if rec is not None:
            exp.setdefault(g.name, []).append(rec)
    data = "\n".join(d.out) + rng.choice(["", "\n"])
    res = M.parse(t, data)
    M.eq(res, [[exp]], "forest")
    M.case((t, data), nontrivial=d.parents_with_children > 1)


def big(rng, M):
    forest(rng, M, rng.randint(30, 120))


def shared(rng, M):
    """sibling groups, nested in one parent, have the same inner line: it belongs to the record that is open"""
    kws = gen.tokens(rng, 7)
    inner = kws[5]
    n = rng.randint(2, 4)
    uniq = gen.Uniq(rng)
    t = "<group name=\"top*\">\n%s {{ id }}\n" % kws[0]
    for i in range(n):
        t += "<group name=\"c%d*\">\n %s {{ id }}\n  %s {{ d }}\n</group>\n" % (i, kws[i + 1], inner)
    t += "</group>"
    rows, exp, kinds = [], [], set()
    for _ in range(rng.randint(1, 5)):
        top = {"id": uniq()}
        rows.append("%s %s" % (kws[0], top["id"]))
        for _ in range(rng.randint(0, 6)):
            i = rng.randrange(n)
            rec = {"id": uniq()}
            rows.append(" %s %s" % (kws[i + 1], rec["id"]))
            if rng.random() < 0.7:
                rec["d"] = uniq()
                rows.append("  %s %s" % (inner, rec["d"]))
                M.ev("shared_lines")
            top.setdefault("c%d" % i, []).append(rec)
            M.ev("child_records")
        exp.append(top)
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"top": exp}]], "lines shared by sibling groups")
    M.case((t, tuple(rows)), nontrivial=sum(1 for e in exp if len(e) > 1) > 1)


def same_ids(rng, M):
    """records with equal values stay apart"""
    k = gen.tokens(rng, 3)
    t = "<group name=\"a*\">\n%s {{ id }}\n<group name=\"b*\">\n %s {{ id }}\n<group name=\"c*\">\n  %s {{ id }}\n</group>\n</group>\n</group>" % tuple(k)
    rows, exp = [], []
    for _ in range(rng.randint(1, 5)):
        a = {"id": rng.choice("xy")}
        rows.append("%s %s" % (k[0], a["id"]))
        for _ in range(rng.randint(0, 4)):
            b = {"id": rng.choice("xy")}
            rows.append(" %s %s" % (k[1], b["id"]))
            for _ in range(rng.randint(0, 3)):
                c = {"id": rng.choice("xy")}
                rows.append("  %s %s" % (k[2], c["id"]))
                b.setdefault("c", []).append(c)
                M.ev("child_records")
            a.setdefault("b", []).append(b)
            M.ev("child_records")
        exp.append(a)
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"a": exp}]], "records with equal values")
    M.case((t, tuple(rows)), nontrivial=sum(1 for e in exp if "b" in e) > 1)


def shared_kids(rng, M):
    """sibling groups with child groups of the same start lines, names that begin with each other"""
    kws, u = gen.tokens(rng, 12), gen.Uniq(rng)
    kid, sub, line = kws.pop(), kws.pop(), kws.pop()
    base = gen.word(rng, 2, 4) + "g"
    names = rng.sample([base, base + "x", base + "xy", base + "_2", "q" + base, "kid", base[:1]], rng.randint(2, 4))
    bare = rng.random() < 0.3
    starts = {n: kws.pop() for n in names}
    star = {n: rng.random() < 0.5 for n in names}
    kstar = {n: rng.random() < 0.5 for n in names}
    deep = {n: rng.random() < 0.6 for n in names}
    top = kws.pop()
    t = '<group name="top*">\n%s {{ id }}\n' % top
    for n in names:
        k = ' %s {{ k }}\n   %s {{ l }}\n' % (" " + kid, line) if not bare else "  %s {{ _start_ }}\n   %s {{ l }}\n" % (kid, line)
        if deep[n]:
            k += '<group name="sub*">\n   %s {{ s }}\n</group>\n' % sub
        t += '<group name="%s%s">\n %s {{ id }}\n<group name="kids%s">\n%s</group>\n</group>\n' % (n, "*" * star[n], starts[n], "*" * kstar[n], k)
    t += "</group>"

    def shape(recs, many):
        return recs if many or len(recs) > 1 else recs[0]

    rows, exp = [], []
    for _ in range(rng.randint(1, 4)):
        rec = {"id": u()}
        rows.append("%s %s" % (top, rec["id"]))
        got = {}
        for _ in range(rng.randint(0, 6)):
            n = rng.choice(names)
            r = {"id": u()}
            rows.append(" %s %s" % (starts[n], r["id"]))
            kids = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                k = {} if bare else {"k": u()}
                rows.append("  %s%s" % (kid, "" if bare else " " + k["k"]))
                if bare or rng.random() < 0.6:
                    k["l"] = u()
                    rows.append("   %s %s" % (line, k["l"]))
                for _ in range(rng.choice([0, 1, 2]) if deep[n] else 0):
                    x = u()
                    rows.append("   %s %s" % (sub, x))
                    k.setdefault("sub", []).append({"s": x})
                    M.ev("deep_shared")
                kids.append(k)
                M.ev("child_records")
                M.ev("shared_kids")
            if kids:
                r["kids"] = shape(kids, kstar[n])
            got.setdefault(n, []).append(r)
        for n, rs in got.items():
            rec[n] = shape(rs, star[n])
        exp.append(rec)
    res = M.parse(t, "\n".join(rows) + "\n")
    M.eq(res, [[{"top": exp}]], "children of the same start line in sibling groups")
    M.case((t, tuple(rows)), nontrivial=any(sum(1 for n in names if n in e) > 1 for e in exp))


KINDS = {"forest": (forest, 10000, 150000), "big": (big, 48, 600), "shared": (shared, 2000, 20000), "same_ids": (same_ids, 1200, 8000), "shared_kids": (shared_kids, 3000, 30000)}
