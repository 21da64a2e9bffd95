"""P21 - extending a template equals writing the extended content in place."""
import codecs
import os

import gen

RULE = ("generated templates with groups nested to several levels, variables, lookups, inputs, outputs, macros and child templates are cut at random into files at several depths: runs of neighbouring tags at the top, of neighbouring groups "
        "inside groups, and of template lines; each run is replaced by an extend tag (absolute, relative or TTP_TEMPLATES_DIR path, collection reference), files carry decoy tags removed by name or index filters or ignored in groups, and content "
        "encoded for a content macro. The extended template must give results identical to the template that was never cut. References to files that do not exist must end with an error. "
        "Non-trivial: results have values and at least one extend tag was used.")
NEED = {"long_chain": 200, "keys": 109025, "similar_names": 240, "macro_tags": 496, "extends": 18603, "top_extend": 4061, "group_extend": 5606, "text_extend": 7991, "depth2": 11906, "depth3": 4433, "filter_groups": 892, "filter_index": 468,
        "filter_vars": 877, "filter_inputs": 865, "filter_outputs": 869, "filter_lookups": 829, "several_filters": 1443, "group_filter": 1667, "ignored_kinds": 1923, "content_macro": 5020, "file_macro": 280, "rooted": 6778,
        "relative": 5461, "templates_dir": 5532, "after_extend": 1532, "tail_lines": 6217, "extends_in_row": 1462, "anon_text": 200, "only_extend": 2698, "children": 13130, "collection": 100, "missing": 200, "missing_deep": 137,
        "missing_group": 239, "same_file": 484, "per_template": 294, "added_template": 744, "values": 502713, "g_tag": 12875}
ASSUME = ["text outside of groups in a file extended within a group, filters over tags brought by further extend tags and unknown macro names are not decided"]


def rot(t):
    return codecs.encode(t, "rot13")


MACROS = {
    "unrot": ("def unrot(data):\n    import codecs\n    return codecs.decode(data, 'rot13')", rot),
    "rev": ("def rev(data):\n    return data[::-1]", lambda t: t[::-1]),
    "subst": ("def subst(data):\n    return data.replace('@L@', '{{').replace('@R@', '}}')", lambda t: t.replace("{{", "@L@").replace("}}", "@R@")),
}


class Node:
    def __init__(self, kind, open_="", text=(), children=(), name=None, close="", raw=None):
        self.kind, self.open, self.text, self.children, self.name, self.close, self.raw = kind, open_, list(text), list(children), name, close, raw
        self.tail = []


class Build:
    def __init__(self, rng, M):
        self.rng, self.M = rng, M
        self.u = gen.Uniq(rng)
        self.kw = 0
        self.nfile = 0
        self.cwd_rel = rng.random() < 0.3
        self.shared = {}
        self.names = 0
        self.macros = {}
        self.decoy_lookups = []
        self.ndecoy = 0
        self.lookups = []
        self.vars = []

    def k(self):
        self.kw += 1
        n, s = self.kw, ""
        while n:
            n, r = divmod(n - 1, 26)
            s = chr(97 + r) + s
        return "k" + s + "z"

    def nm(self, p):
        self.names += 1
        return "%s%s" % (p, "abcdefghijklmnopqrstuvwxyz"[self.names % 26] * (1 + self.names // 26))

    # ------------------------------------------------ template tree
    def line(self, ind):
        r = self.rng
        k, v = self.k(), self.nm("v")
        fn = ""
        x = r.random()
        if x < 0.15 and self.lookups:
            fn = ' | lookup("%s", add_field="%s")' % (r.choice(self.lookups)[r.random() < 0.2:], self.nm("lk"))
        elif x < 0.25:
            fn = " | upper"
        elif x < 0.33 and self.vars:
            # value of a template variable beside
            return ("%s%s {{ %s }} {{ %s | set(\"%s\") }}" % (" " * ind, k, v, self.nm("s"), r.choice(self.vars)), k)
        return ("%s%s {{ %s%s }}" % (" " * ind, k, v, fn), k)

    def group(self, ind, depth, top):
        r = self.rng
        start, sk = self.line(ind)
        lines = [(start, sk)]
        for _ in range(r.randint(0, 3)):
            lines.append(self.line(ind + 1))
        children = []
        if depth < 3:
            for _ in range(r.choice([0, 0, 1, 2, 3] if depth else [0, 1, 2, 3, 4])):
                c = self.group(ind + 1, depth + 1, False)
                if r.random() < 0.35:
                    for _ in range(r.randint(1, 2)):
                        c.tail.append(self.line(ind + 1))
                children.append(c)
        if children:
            self.M.ev("children")
        n = self.nm("g")
        name = r.choice([n, n, n + "*", n + ".x", n + "*.y*", None if top else n])
        tag = r.choice(["group", "group", "group", "grp", "g"])
        if tag != "group":
            self.M.ev("g_tag")
        node = Node("group", "<%s%s>" % (tag, "" if name is None else ' name="%s"' % name), lines, children, name, "</%s>" % tag)
        node.ind = ind
        return node

    def top_nodes(self):
        r = self.rng
        nodes = []
        for _ in range(r.randint(0, 2)):
            n = self.nm("lk")
            self.lookups.append(n)
            rows = "\n".join("%s%d,%s" % ("v", i, self.nm("z")) for i in range(400, 403))
            nodes.append(Node("lookup", name=n, raw='<lookup name="%s" load="csv">\nkey,zone\n%s\n</lookup>' % (n, rows)))
            nodes[-1].keyed = True
        for _ in range(r.randint(0, 2)):
            n = self.nm("vr")
            # later definitions of the same variable win: order matters
            names = [self.nm("w") for _ in range(r.randint(1, 2))] + (["shared"] if r.random() < 0.6 else [])
            self.vars += names
            tag = r.choice(["vars", "vars", "variables", "v"])
            nodes.append(Node("vars", name=n, raw='<%s name="%s">\n%s\n</%s>' % ((tag, n, "\n".join('%s = "%s"' % (x, self.u()) for x in names), tag))))
        for _ in range(r.randint(1, 4)):
            nodes.append(self.group(0, 0, True))
        r.shuffle(nodes)
        return nodes

    # ------------------------------------------------ data
    def value(self):
        """something of its own, at times a key of the lookup tables"""
        if self.lookups and self.rng.random() < 0.25:
            self.M.ev("keys")
            return "v%d" % self.rng.randint(400, 402)
        return self.u()

    def records(self, node, out, depth=0):
        r = self.rng
        for _ in range(r.randint(1, 3) if depth < 2 else r.randint(1, 2)):
            ls = node.text
            ind = node.ind
            out.append("%s%s %s" % (" " * ind, ls[0][1], self.value()))
            for _, k in ls[1:]:
                if r.random() < 0.8:
                    out.append("%s%s %s" % (" " * (ind + 1), k, self.value()))
            for c in node.children:
                if r.random() < 0.85:
                    self.records(c, out, depth + 1)
                for _, k in c.tail:
                    if r.random() < 0.8:
                        out.append("%s%s %s" % (" " * (ind + 1), k, self.value()))
            if r.random() < 0.2:
                out.append("!")

    # ------------------------------------------------ whole text
    def whole(self, nodes):
        return "\n".join(self.plain(n) for n in nodes)

    def plain(self, n):
        if n.kind != "group":
            return n.raw
        out = [n.open] + [t for t, _ in n.text]
        for c in n.children:
            out.append(self.plain(c))
            out += [t for t, _ in c.tail]
        return "\n".join(out + [n.close])

    # ------------------------------------------------ cutting
    def file(self, text, top):
        """write content to a file, return attributes of extend tag"""
        r, M = self.rng, self.M
        self.nfile += 1
        name = "part_%d.txt" % self.nfile
        extra = ""
        if r.random() < 0.25:
            name = "sub_%d/%s" % (self.nfile % 3, name)
        if r.random() < 0.25:
            mac = r.choice(sorted(self.macros)) if self.macros else None
            if mac:
                text = MACROS[mac][1](text)
                extra = ' macro="%s"' % mac
                M.ev("content_macro")
        path = M.write("files/" + name, text)
        where = r.random()
        if where < 0.25:
            path = os.path.relpath(path, self.cwd)
            M.ev("relative")
        elif where < 0.5:
            path = name
            M.ev("templates_dir")
        return ' template="%s"' % path + extra

    def root(self, text):
        if self.rng.random() < 0.3:
            self.M.ev("rooted")
            return "<template>\n%s\n</template>" % text
        return text

    def depth_ev(self, depth):
        self.M.ev("extends")
        if depth >= 2:
            self.M.ev("depth2")
        if depth >= 3:
            self.M.ev("depth3")

    def runs(self, items, p):
        """split a list into runs, each flagged to be moved away or not"""
        r, i, out = self.rng, 0, []
        while i < len(items):
            j = i + r.choice([1, 1, 1, 2, 3])
            out.append((items[i:j], r.random() < p))
            i = j
        if sum(1 for a, b in zip(out, out[1:]) if a[1] and b[1]):
            self.M.ev("extends_in_row")
        return out

    def p(self, depth):
        return [0.6, 0.4, 0.3, 0.15, 0][min(depth, 4)]

    def top(self, nodes, depth=0):
        """text of top level nodes with some of them moved to files"""
        r, M = self.rng, self.M
        out, before = [], False
        for run, cut in self.runs(nodes, self.p(depth)):
            if not cut:
                if before:
                    M.ev("after_extend")
                out += [self.node(n, depth) for n in run]
                continue
            before = True
            self.depth_ev(depth + 1)
            M.ev("top_extend")
            if r.random() < 0.1 and depth < 3:
                # a file that only extends another one
                M.ev("only_extend")
                out.append(self.chain(self.top_content(run, depth + 1)[0], True))
                continue
            text, flt = self.top_content(run, depth + 1, filters=True)
            out.append("<extend%s%s/>" % (self.file(self.root(text), True), flt))
        return "\n".join(out)

    def decoys(self, kind, n, like=()):
        r, out = self.rng, []
        for _ in range(n):
            self.ndecoy += 1
            i = "decoy%s" % ("x" * self.ndecoy)
            named = r.random() < 0.7
            shown = i
            if like and r.random() < 0.4:
                # a name that is only a part of one of those asked for
                shown = r.choice(like)[1:]
                self.M.ev("similar_names")
            if kind == "groups":
                out.append("<group%s>\n{{ %s | _line_ | contains(\"z\") }}\n</group>" % (' name="%s"' % shown if named else "", i))
            elif kind == "vars":
                t = r.choice(["vars", "variables", "v"])
                out.append("<%s%s>\nshared = \"WRONG\"\n%s = \"decoy\"\n</%s>" % (t, ' name="%s"' % shown if named else "", i, t))
            elif kind == "inputs":
                t = r.choice(["input", "in", "i"])
                out.append('<%s%s load="text">\n%s\n</%s>' % (t, ' name="%s"' % shown if named else "", self.sample, t))
            elif kind == "outputs":
                out.append('<%s%s macro="mark_decoy"/>' % (r.choice(["output", "out", "o"]), ' name="%s"' % shown if named else ""))
            elif kind == "lookups":
                out.append('<lookup name="%s" load="csv">\nkey,zone\nv400,WRONG\n</lookup>' % (shown if like else r.choice(self.lookups or [i])))
        return out

    def top_content(self, run, depth, filters=False):
        """content of a file with these nodes and decoys left out by filters; no further extends in a filtered kind"""
        r, M = self.rng, self.M
        if not filters or r.random() < 0.4:
            return self.top(run, depth), ""
        kinds = {"groups": "group", "vars": "vars", "inputs": "input", "outputs": "output", "lookups": "lookup"}
        used = [k for k in kinds if r.random() < 0.4]
        parts = [(self.node(n, depth), n) for n in run]
        flt = ""
        nf = 0
        for k in used:
            mine = [n for n in run if n.kind == kinds[k]]
            dec = self.decoys(k, r.randint(0 if mine else 1, 2), [n.name for n in mine if n.name] if r.random() < 0.7 else ())
            if k == "lookups" and any(n.name in d for n in mine for d in dec):
                continue
            if k != "groups" and any(not n.name for n in mine):
                continue
            for d in dec:
                parts.insert(r.randint(0, len(parts)), (d, None if k != "groups" else "decoy"))
            used_names = [n.name for n in mine]
            if k == "groups":
                idx = [i for i, (t, n) in enumerate([x for x in parts if x[1] == "decoy" or (x[1] and x[1].kind == "group")]) if n != "decoy"]
                if any(n is None or "," in n for n in used_names) or r.random() < 0.5:
                    used_names = [str(i) for i in idx]
                    M.ev("filter_index")
                else:
                    used_names = [str(i) if r.random() < 0.3 else n for i, n in zip(idx, used_names)]
                r.shuffle(used_names)
            M.ev("filter_" + k)
            nf += 1
            flt += ' %s="%s"' % (k, r.choice([",", ", ", " , "]).join(used_names or ["nothing"]))
        if nf > 1:
            M.ev("several_filters")
        return "\n".join(t for t, _ in parts), flt

    def node(self, n, depth):
        if n.kind != "group":
            return n.raw
        out = [n.open]
        out += self.lines(n.text, depth)
        i = 0
        # runs of children that have no lines of the parent between them
        while i < len(n.children):
            j = i + 1
            while j < len(n.children) and not n.children[j - 1].tail and self.rng.random() < 0.6:
                j += 1
            run = n.children[i:j]
            if self.rng.random() < self.p(depth):
                out.append(self.cut_children(run, depth + 1))
            else:
                out += [self.node(c, depth) for c in run]
            tail = run[-1].tail
            if tail:
                self.M.ev("tail_lines")
            out += self.lines(tail, depth)
            i = j
        out.append(n.close)
        return "\n".join(out)

    def chain(self, text, top, least=2):
        """files that only extend the next one"""
        n = gen.several(self.rng, least, least, (5, 12), 0.08)
        if n > 4:
            self.M.ev("long_chain")
        for _ in range(n):
            text = "<extend%s/>" % self.file(self.root(text), top)
        return text

    def cut_children(self, run, depth):
        r, M = self.rng, self.M
        self.depth_ev(depth)
        M.ev("group_extend")
        if r.random() < 0.15 and depth < 4:
            M.ev("only_extend")
            return self.chain(self.children_text(run, depth + 1), False)
        parts = [(self.node(c, depth), c) for c in run]
        flt = ""
        if r.random() < 0.35:
            for d in self.decoys("groups", r.randint(0, 2)):
                parts.insert(r.randint(0, len(parts)), (d, None))
            idx = [str(i) for i, (t, c) in enumerate(parts) if c]
            names = [c.name if r.random() < 0.6 else i for i, (t, c) in zip(idx, [x for x in parts if x[1]])]
            flt = ' groups="%s"' % ",".join(names)
            M.ev("group_filter")
        texts = [t for t, _ in parts]
        if r.random() < 0.4:
            for k in ("vars", "inputs", "outputs", "lookups"):
                if r.random() < 0.5:
                    for d in self.decoys(k, 1):
                        texts.insert(r.randint(0, len(texts)), d)
            M.ev("ignored_kinds")
        return "<extend%s%s/>" % (self.file(self.root("\n".join(texts)), False), flt)

    def children_text(self, run, depth):
        out, i = [], 0
        while i < len(run):
            j = i + self.rng.randint(1, 2)
            if depth < 4 and self.rng.random() < 0.3:
                out.append(self.cut_children(run[i:j], depth + 1))
            else:
                out += [self.node(c, depth) for c in run[i:j]]
            i = j
        return "\n".join(out)

    def lines(self, lines, depth):
        out = []
        for run, cut in self.runs(lines, 0.2 if depth < 3 else 0) if lines else []:
            text = [t for t, _ in run]
            if cut:
                self.M.ev("text_extend")
                self.depth_ev(depth + 1)
                if self.rng.random() < 0.2:
                    self.M.ev("only_extend")
                    text = [self.chain("\n".join(text), False, 1)]
                out.append("<extend%s/>" % self.file(self.root("\n".join(text)), False))
            else:
                out += text
        return out


MARK = "def %s(data):\n    if isinstance(data, list):\n        return data + [{'mark': '%s'}]\n    return [data, {'mark': '%s'}]"


def leaves(o):
    if isinstance(o, dict):
        return sum(leaves(v) for v in o.values())
    if isinstance(o, list):
        return sum(leaves(v) for v in o)
    return 1


def in_dir(path, fn):
    old, env = os.getcwd(), os.environ.get("TTP_TEMPLATES_DIR")
    os.chdir(path)
    os.environ["TTP_TEMPLATES_DIR"] = os.path.join(path, "files")
    try:
        return fn()
    finally:
        os.chdir(old)
        if env is None:
            os.environ.pop("TTP_TEMPLATES_DIR")
        else:
            os.environ["TTP_TEMPLATES_DIR"] = env


def run_both(rng, M, whole, cut, datas, cwd, what, res=None):
    """the same steps on both templates"""
    from ttp import ttp
    how = rng.choice(["ctor", "ctor", "add", "file"])
    if how == "file":
        # relative paths are relative to the working directory also when the template comes from a file
        M.write("whole.txt", whole)
        M.write("cut.txt", cut)
    M.note(whole=whole, cut=cut, datas=datas, how=how, files={os.path.relpath(os.path.join(d, f), M.scratch): open(os.path.join(d, f), encoding="utf-8").read() for d, _, fs in os.walk(M.scratch) for f in fs})

    def go(name, text):
        t = os.path.join(M.scratch, name) if how == "file" else text
        if how == "add":
            p = ttp()
            p.add_template(t)
            M.ev("added_template")
        else:
            p = ttp(template=t)
        for d in datas:
            p.add_input(d)
        p.parse(one=True)
        M.ev("parses")
        return p.result(**(res or {}))
    a = in_dir(cwd, lambda: go("whole.txt", whole))
    b = in_dir(cwd, lambda: go("cut.txt", cut))
    n = leaves(a)
    M.ev("values", n)
    M.eq(b, a, what)
    return n


def case_tree(rng, M):
    B = Build(rng, M)
    B.cwd = M.scratch
    B.macros = {k: MACROS[k] for k in MACROS if rng.random() < 0.6}
    nodes = B.top_nodes()
    groups = [n for n in nodes if n.kind == "group"]

    def data():
        out = []
        for g in groups if rng.random() < 0.7 else rng.sample(groups, len(groups)):
            B.records(g, out)
        return "~ %s\n" % B.u() + "\n".join(out) + "\n"
    B.sample = data().rstrip("\n")
    datas = [data() for _ in range(rng.randint(0, 2))]
    for _ in range(rng.randint(0 if datas else 1, 2)):
        n = B.nm("inp")
        nodes.insert(rng.randint(0, len(nodes)), Node("input", name=n, raw='<{0} name="{1}" load="text">\n{2}</{0}>'.format(rng.choice(["input", "input", "in", "i"]), n, data())))
    marks = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        n = B.nm("out")
        marks.append(n)
        nodes.insert(rng.randint(0, len(nodes)), Node("output", name=n, raw='<%s name="%s" macro="mark_%s"/>' % (rng.choice(["output", "output", "out", "o"]), n, n)))
    # macros of the results, anywhere; macros of the content, in the template itself
    for n in marks:
        nodes.insert(rng.randint(0, len(nodes)), Node("macro", raw="<macro>\n%s\n</macro>" % (MARK % ("mark_" + n, n, n))))
    join = rng.choice(["\n", "\n</macro>\n<macro>\n"])
    M.ev("macro_tags", join != "\n")
    head = "<macro>\n%s\n</macro>\n" % join.join([MARK % ("mark_decoy", "WRONG", "WRONG")] + [MACROS[m][0] for m in B.macros])
    attr = ""
    if rng.random() < 0.3:
        attr = ' results="per_template"'
        M.ev("per_template")
    wrap = bool(attr) or rng.random() < 0.5
    whole = head + B.whole(nodes)
    cut = head + B.top(nodes)
    if wrap:
        whole, cut = ["<template%s>\n%s\n</template>" % (attr, t) for t in (whole, cut)]
    n = run_both(rng, M, whole, cut, datas, M.scratch, "results of the extended template")
    M.case(("tree", whole, cut), nontrivial=bool(n and "<extend" in cut), sample=cut)


def case_anon(rng, M):
    """templates of nothing but lines and extends of lines"""
    B = Build(rng, M)
    B.cwd = M.scratch
    lines = [B.line(0)] + [B.line(1) for _ in range(gen.several(rng, 1, 6, (20, 60), 0.03))]
    whole = "\n".join(t for t, _ in lines)
    out = []
    for run, cut in B.runs(lines, 0.5):
        text = "\n".join(t for t, _ in run)
        if cut:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                text = "<extend%s/>" % B.file(B.root(text), True)
                B.depth_ev(1)
            M.ev("text_extend")
        out.append(text)
    cut = B.root("\n".join(out))
    if cut.startswith("<extend") and rng.random() < 0.3:
        cut = "<template>" + cut + "</template>"
    data = []
    for _ in range(rng.randint(1, 6)):
        for i, (_, k) in enumerate(lines):
            if not i or rng.random() < 0.8:
                data.append("%s%s %s" % (" " * bool(i), k, B.u()))
    n = run_both(rng, M, whole, cut, ["\n".join(data) + "\n"], M.scratch, "results of the extended lines")
    M.ev("anon_text")
    M.case(("anon", whole, cut), nontrivial=bool(n and "<extend" in cut), sample=cut)


def case_children(rng, M):
    """child templates that extend, one file used in several places, files that define the content macro of their own extends"""
    B = Build(rng, M)
    B.cwd = M.scratch
    g = B.group(0, 0, True)
    shared = B.plain(g)
    path = M.write("files/shared.txt", B.root(shared))
    own = B.group(0, 0, True)
    mac = rng.choice(sorted(MACROS))
    enc = M.write("files/enc.txt", MACROS[mac][1](B.plain(own)))
    mtext = "<macro>\n%s\n</macro>\n" % MACROS[mac][0]
    inner = M.write("files/inner.txt", B.root("%s<extend template=\"%s\" macro=\"%s\"/>" % (mtext, enc, mac)))
    M.ev("file_macro")
    data = []
    for x in (g, own, g):
        B.records(x, data)
    text = "\n".join(data) + "\n"
    ws, cs = [], []
    for i in range(rng.randint(1, 3)):
        other = B.group(0, 1, True)
        B.records(other, data)
        parts = [("shared", 0), ("own", 1), ("other", 2)]
        rng.shuffle(parts)
        w = {"shared": shared, "own": mtext + B.plain(own), "other": B.plain(other)}
        c = {"shared": '<extend template="%s"/>' % path, "own": '<extend template="%s"/>' % inner, "other": B.plain(other)}
        keep = [p for p, _ in parts[:rng.randint(1, 3)]]
        if "shared" in keep and rng.random() < 0.3:
            keep.append("shared")
        M.ev("same_file", keep.count("shared"))
        name = rng.choice(["", ' name="t%s"' % "abc"[i]])
        ws.append((name, "\n".join(w[k] for k in keep)))
        cs.append((name, "\n".join(c[k] for k in keep)))
        B.depth_ev(1 + ("own" in keep))
    text = "\n".join(data) + "\n"
    if len(ws) == 1:
        whole, cut = ws[0][1], cs[0][1]
    else:
        whole, cut = ["<template>\n%s\n</template>" % "\n".join("<template%s>\n%s\n</template>" % x for x in xs) for xs in (ws, cs)]
        if rng.random() < 0.5:
            # the child templates come from a file
            p = M.write("files/children.txt", cut)
            cut = rng.choice(["<extend template=\"%s\"/>", "<template>\n<extend template=\"%s\"/>\n</template>"]) % p
    n = run_both(rng, M, whole, cut, [text], M.scratch, "results of the extended templates")
    M.case(("children", whole, cut), nontrivial=bool(n and "<extend" in cut), sample=cut)


def case_collection(rng, M):
    """references to the installed collection of templates"""
    from ttp_templates import get_template
    path = "platform/test_platform_show_run_pipe_sec_interface.txt"
    ref = get_template(path=path)
    B = Build(rng, M)
    B.cwd = M.scratch
    data = []
    for _ in range(rng.randint(1, 5)):
        data.append("interface %s" % B.u())
        if rng.random() < 0.7:
            data.append(" description %s %s" % (B.u(), B.u()))
        if rng.random() < 0.7:
            data.append(" encapsulation dot1q %d" % rng.randint(1, 4000))
        if rng.random() < 0.7:
            data.append(" ip address %s 255.255.255.0" % gen.ip4(rng))
        if rng.random() < 0.4:
            data.append(" shutdown")
    g = B.group(0, 1, True)
    B.records(g, data)
    ext = '<extend template="ttp://%s"/>' % path
    where = rng.choice(["top", "file", "group"])
    if where == "group":
        outer = B.k()
        data = ["%s %s" % (outer, B.u())] + data
        tmpl = '<group name="outer">\n%s {{ title }}\n%%s\n</group>\n' % outer + B.plain(g)
    else:
        tmpl = rng.choice(["%s\n" + B.plain(g), B.plain(g) + "\n%s"])
    whole = tmpl % ref
    if where == "file" or rng.random() < 0.3:
        ext = "<extend%s/>" % B.file(B.root(ext), True)
    cut = tmpl % ext
    B.depth_ev(2)
    n = run_both(rng, M, whole, cut, ["\n".join(data) + "\n"], M.scratch, "results of the template extended from the collection")
    M.ev("collection")
    M.case(("collection", whole, cut), nontrivial=bool(n), sample=cut)


def case_missing(rng, M):
    """a reference that cannot be found is an error wherever it is"""
    from ttp import ttp
    B = Build(rng, M)
    B.cwd = M.scratch
    nodes = B.top_nodes()
    B.sample = "x"
    good = B.plain(B.group(0, 1, True))
    bad = rng.choice(["absent_%d.txt" % rng.randint(0, 99), os.path.join(M.scratch, "files", "absent.txt"), "", "files/absent dir/x.txt", "ttp://platform/absent_template.txt", "./files/absent.txt"])
    ext = '<extend template="%s"%s/>' % (bad, rng.choice(["", ' groups="0"', ' vars="a" outputs="b"']))
    if bad == "" and rng.random() < 0.5:
        ext = "<extend/>"
    depth = gen.several(rng, 0, 3, (5, 9), 0.1)
    for _ in range(depth):
        w = rng.choice(["group", "file", "group"])
        if w == "group":
            tag = rng.choice(["group", "g", "grp"])
            ext = "<%s name=\"%s\">\n%s {{ %s }}\n%s\n</%s>" % (tag, B.nm("q"), B.k(), B.nm("v"), ext, tag)
            M.ev("missing_group")
        else:
            f = M.write("files/m%d.txt" % rng.randint(0, 10 ** 9), rng.choice([ext, ext + "\n" + good, good + "\n" + ext]))
            ext = '<extend template="%s"/>' % f
            M.ev("missing_deep")
    parts = [B.plain(n) for n in nodes]
    parts.insert(rng.randint(0, len(parts)), ext)
    text = "\n".join(parts)
    M.note(template=text, missing=bad)
    raised = None

    def go():
        if rng.random() < 0.5:
            return ttp(template=text)
        p = ttp()
        p.add_template(text)
        return p
    try:
        in_dir(M.scratch, go)
    except (Exception, SystemExit) as e:
        raised = e
    M.ev("missing")
    M.true(raised is not None, "template that extends a file which cannot be found was loaded without an error", missing=bad)
    M.case(("missing", text), sample=text)


KINDS = {"tree": (case_tree, 2500, 200000), "anon": (case_anon, 500, 30000), "children": (case_children, 700, 50000), "collection": (case_collection, 250, 10000), "missing": (case_missing, 500, 30000)}
