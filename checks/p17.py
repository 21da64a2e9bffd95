"""P17 - templates of one parser are isolated and results keep the chosen structure."""
import copy
import os

import gen
import vk

RULE = ("1-6 templates per parser, each with its own tag in everything it defines (variables, lookups, macros, groups, inputs; all templates use the same names), given as separate texts, files, nested child templates with and without names, "
        "text only templates or mixtures of these, with name filters; inputs are addressed by template name, to all, by default, to several or to unknown templates; variables and lookups are added through the API before and after loading. "
        "The results expected are computed from the generated content and compared in all structures, with selections of templates, before and after clearing and replacing inputs. Non-trivial: at least two templates produced results.")
NEED = {"parsers": 4800, "isolated": 2374, "text_only": 2144, "per_template": 3629, "input_tags": 4948, "same_name": 402, "template_files": 2548, "filtered_single": 1290, "filtered_children": 1502, "filtered_out": 2817,
        "nested": 4290, "unnamed_children": 2534, "content_beside": 612, "api_vars": 2531, "api_lookups": 2536, "to_all": 2929, "to_default": 2930, "to_unknown": 3414, "second_round": 1156, "set_input": 1157, "structures":
        29160, "selected": 11664, "selected_by_text": 2673, "solo": 5971, "template_lookup": 400, "templates": 11705, "data_texts": 28635}
CASE_LIMIT = 60
ASSUME = ["content given beside child templates in one text is ignored, as is a third level of templates", "same-named templates: the dictionary structure can hold one of them only and is not judged"]

FILTER_OTHER = "nosuch"


class T:
    """one template: what it defines and what it should produce"""

    def __init__(self, rng, M, i):
        self.tag = "T%d%s" % (i, gen.word(rng, 2, 3))
        self.name = None
        self.anon = rng.random() < 0.15
        self.per_template = rng.random() < 0.25
        self.vars, self.lookup, self.macro = {}, {}, None
        self.tags = []           # (input name, [texts])
        self.data = []           # [(input name, text)] addressed by API, in order
        self.keys = ["ka", "kb", "kc"]
        self.rng = rng
        self.out = rng.random() < 0.15 and not self.anon
        if not self.anon:
            if rng.random() < 0.6:
                self.vars["va"] = "va" + self.tag
            if rng.random() < 0.4:
                self.vars["vb"] = "vb" + self.tag
            if rng.random() < 0.5:
                self.lookup = {k: "L%s%s" % (self.tag, k) for k in self.keys if rng.random() < 0.7}
            if rng.random() < 0.5:
                self.macro = "m" + self.tag
        # what is seen when parsing
        self.seen_vars = {}
        self.seen_lookup = {}
        if self.anon:
            M.ev("text_only")
        if self.per_template:
            M.ev("per_template")

    def body(self):
        if self.anon:
            return "\nrec {{ n }} {{ %s }}\n" % self.tag
        out = []
        if self.vars:
            out.append("<vars>\n%s</vars>\n" % "".join("%s = \"%s\"\n" % kv for kv in sorted(self.vars.items())))
        if self.lookup:
            out.append("<lookup name=\"tbl\" load=\"python\">\n%r\n</lookup>\n" % self.lookup)
        if self.macro:
            out.append("<macro>\ndef mac(data):\n    return data + '-%s'\n</macro>\n" % self.macro)
        if self.out:
            out.append("<macro>\ndef fin(data):\n    if isinstance(data, list):\n        data.append({'fin': '%s'})\n    else:\n        data['fin'] = '%s'\n    return data\n</macro>\n<output macro=\"fin\"/>\n" % (self.tag, self.tag))
        self.rng.shuffle(self.tags)
        slots = ["other"] * len(out) + ["input"] * len(self.tags)
        self.rng.shuffle(slots)
        rest, ins = out, []
        self.rng.shuffle(rest)
        for name, texts in self.tags:
            ins.append("".join("<input%s load=\"text\">\n%s</input>\n" % (" name=\"%s\"" % name if name else "", t) for t in texts))
        out = [rest.pop() if x == "other" else ins.pop(0) for x in slots]
        g = "<group name=\"g*\">\nrec {{ n%s }} {{ %s }}\n{{ oa | set(\"va\") }}\n{{ ob | set(\"vb\") }}\n{{ oc | set(\"vc\") }}\n</group>\n" % (" | macro('mac')" if self.macro else "", self.tag)
        g += "<group name=\"l*\">\nlook {{ k | lookup('tbl', add_field='f') }}\n</group>\n"
        k = self.rng.randint(0, len(out))
        return "".join(out[:k]) + g + "".join(out[k:])

    def attrs(self, name=True):
        a = ""
        if name and self.name is not None:
            a += " name=\"%s\"" % self.name
        if self.per_template:
            a += " results=\"per_template\""
        return a

    def wrapped(self):
        return "<template%s>\n%s</template>\n" % (self.attrs(), self.body())

    # ---- expected
    def one(self, text):
        recs, looks = [], []
        for ln in text.split("\n"):
            w = ln.split()
            if len(w) == 3 and w[0] == "rec":
                if self.anon:
                    recs.append({"n": w[1], self.tag: w[2]})
                else:
                    recs.append({"n": w[1] + ("-" + self.macro if self.macro else ""), self.tag: w[2], "oa": self.seen_vars.get("va", "va"), "ob": self.seen_vars.get("vb", "vb"), "oc": self.seen_vars.get("vc", "vc")})
            elif len(w) == 2 and w[0] == "look" and not self.anon:
                d = {"k": w[1]}
                if w[1] in self.seen_lookup:
                    d["f"] = self.seen_lookup[w[1]]
                looks.append(d)
        return recs, looks

    @staticmethod
    def shape(self, recs, looks):
        if self.anon:
            return recs if len(recs) > 1 else recs[0] if recs else {}
        d = {}
        if recs:
            d["g"] = recs
        if looks:
            d["l"] = looks
        return d

    def inputs(self):
        """texts in the order of inputs"""
        order, by = [], {}
        for name, texts in self.tags:
            nm = name or "Default_Input"
            if nm not in by:
                order.append(nm)
                by[nm] = []
            by[nm] += texts
        for name, text in self.data:
            if name not in by:
                order.append(name)
                by[name] = []
            by[name].append(text)
        return [t for n in order for t in by[n]]

    def expected(self, prior=None):
        items = [self.one(t) for t in self.inputs()]
        if self.per_template:
            recs = [r for a, _ in items for r in a]
            looks = [r for _, b in items for r in b]
            res = self.shape(self, recs, looks)
            res = copy.deepcopy(res)
            if self.out:
                res["fin"] = self.tag
            return res
        res = (prior or []) + [self.shape(self, a, b) for a, b in items]
        if self.out:
            res = res + [{"fin": self.tag}]
        return res


def make_data(rng, u, M, all_tags):
    lines = ["~ " + u()]
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        if rng.random() < 0.65:
            lines.append("rec %s %s" % (u(), u()))
        else:
            lines.append("look " + rng.choice(["ka", "kb", "kc", "kd"]))
    M.ev("data_texts")
    return "\n".join(lines) + "\n"


def flat(res):
    out = []
    for r in res:
        if isinstance(r, list):
            for i in r:
                if isinstance(i, list):
                    out += i
                else:
                    out.append(i)
        else:
            out.append(r)
    return out


def case_parser(rng, M):
    from ttp import ttp
    u = gen.Uniq(rng)
    M.ev("parsers")
    kw, api_vars, api_lookup = {}, {}, {}
    if rng.random() < 0.35:
        kw["vars"] = {k: "ctor" + k for k in ("va", "vc") if rng.random() < 0.7}
        if not kw["vars"]:
            kw = {}
    api_vars.update(kw.get("vars", {}))
    p = ttp(**copy.deepcopy(kw))
    loaded = []
    log = []
    serial = [0]
    used_names = set()

    def new_name(dup_ok=True):
        if dup_ok and used_names and rng.random() < 0.06:
            M.ev("same_name")
            return rng.choice(sorted(used_names))
        while True:
            n = rng.choice(["%s", "%s-1", "tpl %s", "%s.x"]) % gen.word(rng, 2, 5)
            if n not in used_names:
                used_names.add(n)
                return n

    def new_t():
        t = T(rng, M, serial[0])
        serial[0] += 1
        if not t.anon and rng.random() < 0.4:
            M.ev("input_tags")
            for nm in rng.sample([None, "ina", "inb"], rng.randint(1, 2)):
                t.tags.append((nm, [make_data(rng, u, M, None) for _ in range(rng.choice([1, 1, 2]))]))
        return t

    def loaded_now(t):
        t.seen_vars = dict(api_vars, **t.vars)
        t.seen_lookup = dict(t.lookup)
        loaded.append(t)

    def add_text(text, **k):
        if rng.random() < 0.3:
            M.ev("template_files")
            text = M.write("tpl%d.txt" % rng.randint(0, 10 ** 9), text)
        log.append(("add_template", text, k))
        p.add_template(text, **k)

    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        form = rng.choice(["plain", "plain", "wrapped", "nested", "nested", "nested"])
        filters = None
        if form == "plain":
            t = new_t()
            t.per_template = False
            arg = new_name() if rng.random() < 0.7 else None
            t.name = arg or "_root_template_"
            k = {"template_name": arg} if arg else {}
            if rng.random() < 0.3:
                M.ev("filtered_single")
                filters = rng.choice([[t.name], [FILTER_OTHER], [t.name, FILTER_OTHER], [FILTER_OTHER, "x"]])
                k["filters"] = filters
            add_text(t.body(), **k)
            if filters is None or t.name in filters:
                loaded_now(t)
            else:
                M.ev("filtered_out")
        elif form == "wrapped":
            t = new_t()
            arg = new_name() if rng.random() < 0.5 else None
            t.name = new_name() if rng.random() < 0.6 or t.per_template and False else None
            text = t.wrapped()
            if t.name is None:
                t.name = arg or "_root_template_"
            k = {"template_name": arg} if arg else {}
            if rng.random() < 0.3:
                M.ev("filtered_single")
                filters = rng.choice([[t.name], [FILTER_OTHER], [t.name, FILTER_OTHER]])
                k["filters"] = filters
            add_text(text, **k)
            if filters is None or t.name in filters:
                loaded_now(t)
            else:
                M.ev("filtered_out")
        else:
            n = rng.choice([1, 2, 2, 3, 4]) if rng.random() < 0.93 else rng.randint(10, 13)
            ts = [new_t() for _ in range(n)]
            named = []
            for i, t in enumerate(ts):
                if rng.random() < 0.75:
                    t.name = new_name()
                    named.append(True)
                else:
                    M.ev("unnamed_children")
                    named.append(False)
            M.ev("nested")
            parts = []
            for i, t in enumerate(ts):
                parts.append(t.wrapped())
                if not named[i]:
                    t.name = str(i)
            ignored = ""
            if rng.random() < 0.15:
                # content beside child templates does not belong to any of them
                M.ev("content_beside")
                ignored = rng.choice(["<vars>\nva = \"beside\"\nvb = \"beside\"\n</vars>\n", "<lookup name=\"tbl\">\n{'ka': 'beside'}\n</lookup>\n", "<group name=\"g*\">\nrec {{ beside }} {{ x }}\n</group>\n",
                                      "<macro>\ndef mac(data):\n    return 'beside'\n</macro>\n"])
                parts.insert(rng.randint(0, len(parts)), ignored)
            top = rng.choice([None, None, "top", ""])
            text = "".join(parts)
            topname = "_root_template_"
            if top is not None or (n == 1 and not ignored):
                # a single child needs the outer tag to be one
                text = "<template%s>\n%s</template>" % (" name=\"top\"" if top == "top" else "", text)
                if top == "top":
                    topname = "top"
            k = {}
            if rng.random() < 0.35:
                M.ev("filtered_children")
                pool = [t.name for t in ts] + [FILTER_OTHER]
                filters = [x for x in pool if rng.random() < 0.5] or [FILTER_OTHER]
                if rng.random() < 0.2:
                    filters.append(topname)
                rng.shuffle(filters)
                k["filters"] = filters
            add_text(text, **k)
            got = [t for i, t in enumerate(ts) if filters is None or (named[i] and t.name in filters)]
            M.ev("filtered_out", len(ts) - len(got))
            if filters and not got and topname in filters:
                # the outer template itself is asked for: content beside the children is not described here
                M.case(("outer",), nontrivial=False)
                return
            for t in got:
                loaded_now(t)
        if rng.random() < 0.3:
            M.ev("api_vars")
            v = {k: "api%s%d" % (k, rng.randint(0, 99)) for k in ("va", "vb", "vc") if rng.random() < 0.6}
            log.append(("add_vars", v))
            p.add_vars(dict(v))
            api_vars.update(v)
            for t in loaded:
                t.seen_vars.update(v)
        if rng.random() < 0.3:
            M.ev("api_lookups")
            tbl = {k: "api%s%d" % (k, rng.randint(0, 99)) for k in ("ka", "kb", "kd") if rng.random() < 0.7}
            log.append(("add_lookup", tbl))
            p.add_lookup("tbl", text_data=repr(tbl))
            for t in loaded:
                t.seen_lookup = dict(tbl)
    M.note(log=log)
    names = [t.name for t in loaded]
    uniq = len(set(names)) == len(names)
    M.ev("templates", len(loaded))

    def feed(k):
        for _ in range(k):
            d = make_data(rng, u, M, None)
            inp = rng.choice(["Default_Input", "Default_Input", "ina", "inz"])
            to = rng.choice(["all", "name", "name", "name", "default", "unknown"])
            kw2 = {} if inp == "Default_Input" and rng.random() < 0.7 else {"input_name": inp}
            if to == "all":
                M.ev("to_all")
                kw2["template_name"] = "_all_"
                tgt = loaded
            elif to == "name" and loaded:
                nm = rng.choice(names)
                kw2["template_name"] = nm
                tgt = [t for t in loaded if t.name == nm]
            elif to == "default":
                M.ev("to_default")
                tgt = [t for t in loaded if t.name == "_root_template_"]
            else:
                M.ev("to_unknown")
                kw2["template_name"] = "nobody"
                tgt = []
            log.append(("add_input", d, kw2))
            p.add_input(d, **kw2)
            for t in tgt:
                t.data.append((inp, d))

    feed(rng.choice([1, 2, 3, 5, 8]))
    prior = {}
    produced = 0
    for rnd in range(rng.choice([1, 1, 1, 2])):
        if rnd:
            M.ev("second_round")
            # a template with text inputs only: replaced inputs keep what the tags define away
            if loaded:
                nm = rng.choice(names)
                d = make_data(rng, u, M, None)
                log.append(("set_input", nm, d))
                p.set_input(d, template_name=nm)
                for t in loaded:
                    if t.name == nm:
                        # inputs of the template remain, without data
                        t.tags = [(a, []) for a, _ in t.tags]
                        keep = []
                        t.data = [("Default_Input", d)]
                        M.ev("set_input")
                        del keep
            sel = rng.choice([None, "some"])
            if sel is None or not loaded:
                log.append(("clear_result",))
                p.clear_result()
                prior = {}
            else:
                nm = rng.sample(names, rng.randint(1, len(names)))
                log.append(("clear_result", nm))
                p.clear_result(templates=nm if len(nm) > 1 or rng.random() < 0.5 else nm[0])
                for t in loaded:
                    if t.name in nm:
                        prior.pop(t.tag, None)
        log.append(("parse",))
        p.parse(one=True)
        M.ev("parses")
        want = []
        for t in loaded:
            w = t.expected(prior.get(t.tag) if not t.per_template else None)
            prior[t.tag] = copy.deepcopy(w)
            want.append(w)
        produced = max(produced, sum(1 for t in loaded if any(t.one(x)[0] or t.one(x)[1] for x in t.inputs())))
        M.eq(p.result(), want, "results of %d template(s)" % len(loaded), names=names)
        M.ev("structures")
        M.eq(p.result(structure="list"), want, "structure list")
        if uniq:
            M.eq(p.result(structure=rng.choice(["dictionary", "Dictionary"])), dict(zip(names, want)), "structure dictionary")
            M.eq(list(p.result(structure="dictionary")), names, "order of the templates in the dictionary")
        M.eq(p.result(structure="flat_list"), flat(want), "structure flat_list")
        for _ in range(2):
            # selections by name
            M.ev("selected")
            ask = [n for n in names + ["nobody"] if rng.random() < 0.5]
            rng.shuffle(ask)
            arg = ask
            if len(ask) == 1 and rng.random() < 0.7:
                arg = ask[0]
                M.ev("selected_by_text")
            keep = [i for i, n in enumerate(names) if not ask or n in ask]
            M.eq(p.result(templates=arg), [want[i] for i in keep], "results of templates %r" % (arg,))
            M.eq(p.result(templates=arg, structure="flat_list"), flat([want[i] for i in keep]), "flat results of templates %r" % (arg,))
            if uniq:
                M.eq(p.result(templates=arg, structure="dictionary"), {names[i]: want[i] for i in keep}, "dictionary of templates %r" % (arg,))
            M.ev("structures", 2)
    M.ev("isolated", produced >= 2)
    M.case((len(loaded), tuple(t.anon for t in loaded), tuple(t.per_template for t in loaded), tuple(sorted(set(x[0] for x in log))), hash(str(log)) & 0xFFFFFF), nontrivial=produced >= 2, sample=str(log)[:900])


def case_solo(rng, M):
    """each of several templates gives what it gives as the only one"""
    from ttp import ttp
    u = gen.Uniq(rng)
    n = rng.choice([2, 3, 4])
    pool = []
    for i in range(n):
        tag = "S%d%s" % (i, gen.word(rng, 2, 3))
        f = {x for x in ("var", "lookup", "macro", "gmac", "set", "default", "dyn", "nested", "chain", "re", "void", "count", "vname", "fmt") if rng.random() < 0.5}
        t = ""
        if f & {"var", "set", "chain", "re"}:
            t += "<vars%s>\nva = \"%s\"\nch = \"append('%s') | upper\"\npat = \"%s\"\n</vars>\n" % (" name=\"vars\"" if "vname" in f else "", tag, tag, rng.choice(["\\\\S+", "v.*?", "[a-z]\\\\S+"]))
        if "lookup" in f:
            t += "<lookup name=\"tbl\" load=\"yaml\">\nka: A%s\nkb: [B%s]\n</lookup>\n" % (tag, tag)
        if f & {"macro", "gmac"}:
            t += "<macro>\ndef mac(data):\n    return data + '+%s'\ndef gmac(data):\n    return dict(data, by='%s')\n</macro>\n" % (tag, tag)
        nm = "n"
        if "re" in f:
            nm += " | re(\"pat\")"
        if "macro" in f:
            nm += " | macro('mac')"
        if "chain" in f:
            nm += " | chain('ch')"
        if "count" in f:
            nm += " | count(var=\"cnt\")"
        if "default" in f:
            nm += " | default(\"none\")"
        g = "<group name=\"%s\"%s%s>\nrec {{ %s }} {{ w }}\n%s%s%s</group>\n" % (
            rng.choice(["g*", "g.x*", "h*"] + (["g.{{ w }}*"] if "dyn" in f else [])), " macro=\"gmac\"" if "gmac" in f else "", " contains=\"n\"" if "void" in f else "",
            nm, "{{ va | set(\"va\") }}\n" if "set" in f else "", " sub {{ s }}\n" if rng.random() < 0.5 else "",
            "<group name=\"k*\">\n kid {{ k%s }}\n</group>\n" % (" | macro('mac')" if "macro" in f else "") if "nested" in f else "")
        if "count" in f:
            g += "<group name=\"c*\">\nsay {{ s }}\n{{ c | set(\"cnt\") }}\n</group>\n"
        g += "<group name=\"l*\">\nlook {{ k%s }}\n</group>\n" % (" | lookup('tbl', add_field='f')" if "lookup" in f else "")
        pool.append((tag, t + g))
    texts = []
    for i in range(rng.randint(1, 4)):
        lines = ["~%d" % i]
        for _ in range(rng.randint(1, 7)):
            lines.append(rng.choice(["rec %s %s" % (u(), gen.word(rng)), " sub %s" % u(), " kid %s" % u(), "say %s" % u(), "look " + rng.choice(["ka", "kb", "kc"])]))
        texts.append("\n".join(lines) + "\n")
    nested = rng.random() < 0.5
    p = ttp()
    if nested:
        p.add_template("".join("<template name=\"%s\">\n%s</template>\n" % x for x in pool))
    else:
        for tag, t in pool:
            p.add_template(t, template_name=tag)
    M.note(templates=pool, data=texts, nested=nested)
    where = []
    for x in texts:
        to = rng.choice(["_all_"] + [tag for tag, _ in pool])
        where.append(to)
        p.add_input(x, template_name=to)
    p.parse(one=True)
    got = p.result(structure="dictionary")
    nontrivial = 0
    for tag, t in pool:
        s = ttp(template=t)
        for x, to in zip(texts, where):
            if to in ("_all_", tag):
                s.add_input(x)
        s.parse(one=True)
        M.ev("solo")
        r = s.result()[0]
        nontrivial += any(r)
        M.eq(got[tag], r, "template %s with others against alone" % tag)
    M.case((n, nested, hash(str(pool)) & 0xFFFFFF), nontrivial=nontrivial > 1, sample=[x[1][:200] for x in pool], n=n)


def case_chain(rng, M):
    """results of an earlier template as lookup of a later one; inputs of one do not reach the other"""
    from ttp import ttp
    u = gen.Uniq(rng)
    n = rng.randint(1, 5)
    keys = gen.words(rng, n)
    vals = {k: u() for k in keys}
    d1 = "".join("def %s %s\n" % kv for kv in vals.items())
    asks = [rng.choice(keys + ["zz"]) for _ in range(rng.randint(1, 6))]
    d2 = "".join("use %s\n" % k for k in asks)
    t1 = "<input load=\"text\">\n%s</input>\n<group name=\"tbl.{{ k }}\">\ndef {{ k }} {{ v }}\n</group>\n" % d1
    per = rng.random() < 0.4
    t2 = "<input load=\"text\">\n%s</input>\n<group name=\"u*\" lookup=\"'k', template='first.tbl', add_field='got'\">\nuse {{ k }}\n</group>\n<group name=\"tbl.{{ k }}\">\ndef {{ k }} {{ v }}\n</group>\n" % d2
    M.ev("template_lookup")
    text = "<template name=\"first\"%s>\n%s</template>\n<template name=\"second\">\n%s</template>\n" % (" results=\"per_template\"" if per else "", t1, t2)
    p = ttp(template=text)
    M.note(template=text)
    p.parse(one=True)
    tbl = {"tbl": {k: {"v": v} for k, v in vals.items()}}
    want = [tbl if per else [tbl], [{"u": [dict({"k": k}, **({"got": {"v": vals[k]}} if k in vals else {})) for k in asks]}]]
    M.eq(p.result(), want, "lookup in results of another template")
    M.case(("chain", n, per, tuple(k in vals for k in asks)), sample=text)


KINDS = {"parser": (case_parser, 12000, 500000), "solo": (case_solo, 5000, 200000), "chain": (case_chain, 1000, 12000)}
