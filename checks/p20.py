"""P20 - output functions judge and transform results correctly."""
import copy
import json
import os
import re
import sys

import gen

RULE = ("results of generated templates and data are compared with generated structures (equal, or different in one place) given in several notations, validated with generated Cerberus schemas and YANG modules whose verdict on every record is known by "
        "construction and by direct evaluation, compared by difference reports between inputs, templates and variables that are equal or differ in one place, in one or several processes; generated trees are traversed and flattened. Every verdict, report and element "
        "is compared with direct evaluation over the raw results, results that are not returned have to stay as they were. Non-trivial: both outcomes are possible for the case and the results have values.")
NEED = {"yang_submodule": 27, "yang_import": 16, "yang_feature": 28, "yang_library_file": 18, "absent": 1550, "is_equal": 2464, "equal": 1130, "different": 1244, "by_json": 798, "by_yaml": 794, "by_python": 793,
        "group_is_equal": 266, "anonymous": 101, "per_template": 1718, "empty_structure": 310, "key_as_option": 357, "validate": 1200, "valid": 697, "invalid": 1530, "info": 895, "errors": 794, "no_unknown": 400, "lists_left":
        306, "not_returned": 1422, "deepdiff": 1006, "no_difference": 417, "difference": 890, "by_input": 392, "by_template": 204, "by_variable": 385, "iterate": 317, "add_field": 665, "ignore_order": 289, "multi": 6,
        "several_items": 602, "traverse": 1590, "absent_strict": 829, "through_list": 1170, "dict_to_list": 798, "not_flattened": 183, "yangson": 96, "yang_scopes": 80, "yang_scope_matters": 21, "yang_valid": 51, "yang_invalid":
        95, "yang_xml": 23, "yang_plain": 30, "yang_text": 28, "parsed_again": 394, "interleaved": 341}
PROCS = 8
CASE_LIMIT = 90
ASSUME = ["numbers and booleans that Python holds equal are equal", "references to inputs, templates or variables that do not exist end with an exception", "a path that goes through a list is absent"]


class Source:
    """template, data and the results they give"""

    def __init__(self, rng, M, layouts=("list", "anon", "dict", "two"), ninputs=(1, 1, 2, 3)):
        self.rng = rng
        self.cols = gen.words(rng, rng.randint(2, 4))
        self.layout = rng.choice(layouts)
        self.nums = {c for c in self.cols[1:] if rng.random() < 0.5}
        u = gen.Uniq(rng)
        name = {"list": " name=\"recs*\"", "anon": "", "dict": " name=\"by.{{ %s }}\"" % self.cols[0], "two": " name=\"recs*\""}[self.layout]
        self.group = "<group%s>\nrec {{ %s }}\n%s</group>\n" % (name, self.cols[0], "".join(" %s {{ %s%s }}\n" % (c, c, " | to_int" if c in self.nums else "") for c in self.cols[1:]))
        if self.layout == "two":
            self.group += "<group name=\"head\">\nhost {{ host }}\n</group>\n"
        self.texts, self.res = [], []
        for i in range(rng.choice(ninputs)):
            t, r = self.item(i, u)
            self.texts.append(t)
            self.res.append(r)

    def item(self, i, u, n=None):
        rng = self.rng
        recs = []
        lines = ["~ %d %s" % (i, u())]
        head = None
        if self.layout == "two" and rng.random() < 0.9:
            head = u()
            lines.append("host " + head)
        for _ in range((rng.choice([0, 1, 2, 3]) if rng.random() < 0.97 else rng.randint(20, 60)) if n is None else n):
            r = {self.cols[0]: "k" + gen.word(rng, 4, 9)}
            if any(x[self.cols[0]] == r[self.cols[0]] for x in recs):
                continue
            lines.append("rec " + r[self.cols[0]])
            for c in self.cols[1:]:
                if rng.random() < 0.8:
                    r[c] = rng.randint(0, 30) if c in self.nums else rng.choice(["aa", "bb", "cc", u()])
                    lines.append(" %s %s" % (c, r[c]))
            recs.append(r)
        return "\n".join(lines) + "\n", self.shape(recs, head)

    def shape(self, recs, head):
        if self.layout == "anon":
            return recs or {}
        if self.layout == "dict":
            # a key alone leaves nothing to save below it
            return {"by": {r[self.cols[0]]: {k: v for k, v in r.items() if k != self.cols[0]} for r in recs}} if recs else {}
        d = {"recs": recs} if recs else {}
        if head:
            d["head"] = {"host": head}
        return d


def mutate(rng, x):
    """a copy of x that differs in one place"""
    x = copy.deepcopy(x)
    spots = []

    def walk(o, put):
        spots.append((o, put))
        if isinstance(o, dict):
            for k in o:
                walk(o[k], lambda v, o=o, k=k: o.__setitem__(k, v))
        elif isinstance(o, list):
            for i in range(len(o)):
                walk(o[i], lambda v, o=o, i=i: o.__setitem__(i, v))
    walk(x, None)
    o, put = rng.choice(spots)
    if isinstance(o, dict):
        k = rng.choice(["add", "drop", "key"])
        if k == "add" or not o:
            o["zz"] = 1
        elif k == "drop":
            o.pop(rng.choice(sorted(o)))
        else:
            key = rng.choice(sorted(o))
            o[key + "x"] = o.pop(key)
    elif isinstance(o, list):
        k = rng.choice(["add", "drop", "dup", "swap"])
        if k == "add" or not o:
            o.append({})
        elif k == "drop":
            o.pop(rng.randrange(len(o)))
        elif k == "dup":
            o.append(copy.deepcopy(o[0]))
        else:
            o.reverse()
    elif isinstance(o, str):
        put(rng.choice([o + " ", o.upper() if o.upper() != o else o + "x", "", None, [o], {o: 1}]))
    else:
        put(rng.choice([str(o), o + 1, -o - 1, None, o + 0.5]))
    return x


# ------------------------------------------------------------------ equality
def case_equal(rng, M):
    from ttp import ttp
    M.ev("is_equal")
    s = Source(rng, M)
    if rng.random() < 0.15:
        # keys that are names of output options too
        M.ev("key_as_option")
        k = rng.choice(["path", "name", "headers", "returner", "format", "condition", "strict", "functions", "description", "filename", "load"])
        s.layout = "list"
        s.group = s.group.replace("name=\"recs*\"", "name=\"%s*\"" % k) if "recs*" in s.group else "<group name=\"%s*\">\nrec {{ %s }}\n</group>\n" % (k, s.cols[0])
        s.group = s.group.split("<group name=\"head\">")[0]
    per = rng.random() < 0.5
    M.ev("per_template", per)
    grouped = rng.random() < 0.2 and s.layout in ("list", "anon")
    base = "<template%s>\n%%s%%s</template>" % (" results=\"per_template\"" if per else "")

    def run(out, group=s.group):
        p = ttp(template=base % (group, out))
        for t in s.texts:
            p.add_input(t)
        p.parse(one=True)
        return p
    if grouped:
        M.ev("group_is_equal")
        # results of the group for an input as they come to its output
        s.texts, s.res = s.texts[:1], s.res[:1]
        raw = run("").result()[0]
        if per is False:
            raw = raw[0]
        M.ev("anonymous", s.layout == "anon")
    else:
        raw = run("").result()[0]
    if not grouped and s.layout != "anon" and not per and "recs*" in s.group:
        M.eq(raw, s.res, "results")
    if grouped and not raw:
        return case_equal(rng, M)
    want = copy.deepcopy(raw)
    if rng.random() < 0.5:
        want = mutate(rng, want)
    if rng.random() < 0.08:
        want = rng.choice([{}, []])
        M.ev("empty_structure")
    if raw in ({}, []):
        M.ev("empty_structure")
    how = rng.choice(["json", "yaml", "python"])
    M.ev("by_" + how)
    if how == "json":
        text = json.dumps(want, indent=rng.choice([None, 2]))
    elif how == "yaml":
        import yaml
        text = yaml.safe_dump(want)
    else:
        text = repr(want)
        if isinstance(want, dict) and want and all(k.isidentifier() for k in want) and rng.random() < 0.5:
            text = "".join("%s = %r\n" % kv for kv in want.items())
    name = gen.word(rng)
    desc = rng.choice([None, "checks (that): all, is 'well'"])
    back = rng.random() < 0.7
    attrs = ["functions=\"is_equal\"" if rng.random() < 0.8 else "is_equal=\"\"", "name=\"%s\"" % name, "load=\"%s\"" % how]
    if desc:
        attrs.append("description=%s" % gen.quoteattr(desc))
    if not back:
        M.ev("not_returned")
        attrs.append("returner=\"catch\"")
    rng.shuffle(attrs)
    out = "<output %s>\n%s\n</output>\n" % (" ".join(attrs), gen.escape(text))
    group = s.group
    if grouped:
        group = group.replace("<group", "<group output=\"%s\"" % name, 1)
    caught = []

    def catch(data, **kw):
        caught.append(copy.deepcopy(data))
    p = ttp()
    p.add_function(catch, scope="returners", name="catch")
    p.add_template(base % (group, out))
    for t in s.texts:
        p.add_input(t)
    p.parse(one=True)
    M.note(template=base % (group, out), data=s.texts, raw=raw, compared_with=want)
    verdict = raw == want
    M.ev("equal" if verdict else "different")
    exp = {"output_name": name, "output_description": desc or "None", "is_equal": verdict}
    res = p.result()[0]
    if grouped:
        res = res[-1] if per else res[0][-1]
        if s.layout == "anon":
            # data of the group come below its name
            raw = {"_anonymous_": raw}
    if back:
        M.eq(res, exp, "verdict")
    else:
        M.eq(caught, [exp], "verdict delivered")
        M.eq(res, raw, "results that are not returned")
    M.case((s.layout, per, grouped, how, verdict, back, hash(str(raw)) & 0xFFFFFF), nontrivial=bool(raw), sample=text[:200])


# ------------------------------------------------------------------ schemas
def case_validate(rng, M):
    from cerberus import Validator
    from ttp import ttp
    M.ev("validate")
    layout = rng.choice(["list", "list", "two", "anon"])
    s = Source(rng, M, layouts=(layout,), ninputs=(1, 2, 3, 4))
    per = rng.random() < 0.4
    M.ev("per_template", per)
    # rules for fields of records and what they allow
    rules, preds = {}, {}
    for c in s.cols[1:]:
        if rng.random() < 0.7:
            if c in s.nums:
                lo, hi = sorted(rng.sample(range(0, 31), 2))
                rules[c] = {"type": "integer", "min": lo, "max": hi}
                preds[c] = lambda v, lo=lo, hi=hi: lo <= v <= hi
                if rng.random() < 0.2:
                    rules[c] = {"type": "string"}
                    preds[c] = lambda v: False
            else:
                al = rng.sample(["aa", "bb", "cc"], rng.randint(1, 3))
                rules[c] = {"type": "string", "allowed": al} if rng.random() < 0.6 else {"type": "string", "regex": "^(%s)$" % "|".join(al)}
                preds[c] = lambda v, al=al: v in al
            if rng.random() < 0.3:
                rules[c]["required"] = True
    rules[s.cols[0]] = {"type": "string"}
    must = [c for c in rules if rules[c].get("required")]
    fields = {"recs": {"type": "list", "schema": {"type": "dict", "schema": rules}}}
    if rng.random() < 0.3:
        fields["recs"]["required"] = True
    limit = rng.choice([None, None, 1, 2])
    if limit:
        fields["recs"]["maxlength"] = limit
    if s.layout == "two":
        if rng.random() < 0.5:
            fields["head"] = {"type": "dict", "schema": {"host": {"type": "string"}}}
        if rng.random() < 0.2:
            fields["head"] = {"type": "list"}
    unknown = rng.choice([None, True, False])
    M.ev("no_unknown", unknown is False)

    def verdict(d):
        if "recs" not in d and fields["recs"].get("required"):
            return False
        recs = d.get("recs", [])
        if limit and len(recs) > limit:
            return False
        for r in recs:
            if any(c not in r for c in must):
                return False
            for c, v in r.items():
                if c in preds and not preds[c](v):
                    return False
                if c not in rules and unknown is False:
                    return False
        for k in d:
            if k not in fields and unknown is False:
                return False
        if "head" in d and "head" in fields and fields["head"]["type"] != ("list" if isinstance(d["head"], list) else "dict"):
            return False
        return True

    opts = ["sch"]
    rname = rng.choice(["valid", "okay"])
    if rname != "valid":
        opts.append("result='%s'" % rname)
    info = rng.choice([None, "plain text", "{site} checks", "{nokey} stays"])
    if info:
        opts.append("info='%s'" % info)
        M.ev("info")
    ename = rng.choice(["", "errors", "why"])
    if ename:
        opts.append("errors='%s'" % ename)
        M.ev("errors")
    if unknown is not None:
        opts.append("allow_unknown=%s" % unknown)
    back = rng.random() < 0.6
    M.ev("not_returned", not back)
    tpl = "<template%s>\n<vars>\nsch = %r\nsite = \"here\"\n</vars>\n%s<output validate=%s%s/>\n</template>" % (" results=\"per_template\"" if per else "", fields, s.group, gen.quoteattr(", ".join(opts)), "" if back else " returner=\"catch\"")
    caught = []

    def catch(data, **kw):
        caught.append(copy.deepcopy(data))

    def parser(t):
        p = ttp()
        p.add_function(catch, scope="returners", name="catch")
        p.add_template(t)
        for x in s.texts:
            p.add_input(x)
        return p
    plain = parser(tpl.split("<output")[0] + "</template>")
    plain.parse(one=True)
    raw = plain.result()[0]
    M.note(template=tpl, data=s.texts, raw=raw)
    p = parser(tpl)
    if rng.random() < 0.3:
        # other schema and options in use by other parser
        M.ev("interleaved")
        q = ttp("recs a\n", "<vars>\nsch = {'x': {'type': 'list', 'maxlength': 0}}\n</vars>\n<group name=\"x*\">\nrecs {{ a }}\n</group>\n<output validate=\"sch, errors='e', allow_unknown=%s\"/>" % rng.choice(["True", "False"]))
        q.parse(one=True)
        M.eq(q.result()[0][0]["valid"], False, "verdict of the other parser")

    def expect(d):
        if not isinstance(d, dict):
            M.ev("lists_left")
            return d
        v = Validator()
        v.allow_unknown = True if unknown is None else unknown
        ok = v.validate(document=copy.deepcopy(d), schema=copy.deepcopy(fields))
        M.eq(ok, verdict(d), "harness: verdict of the library and by construction", item=d)
        M.ev("valid" if ok else "invalid")
        e = {rname: ok}
        if info:
            e["info"] = info.replace("{site}", "here")
        if ename:
            e[ename] = v.errors
        return e
    if per:
        exp = expect(raw) if isinstance(raw, dict) else [expect(x) if isinstance(x, dict) else x for x in raw]
        if s.layout == "anon" and isinstance(raw, list):
            # records of the anonymous group, each one is validated
            pass
    else:
        exp = [expect(x) for x in raw]
    for k in range(rng.choice([1, 1, 2])):
        if k:
            M.ev("parsed_again")
            p.clear_result()
            caught.clear()
        p.parse(one=True)
        res = p.result()[0]
        if back:
            M.eq(res, exp, "verdicts")
        else:
            M.eq(caught, [exp], "verdicts delivered")
            M.eq(res, raw, "results that are not returned")
    M.case((s.layout, per, tuple(opts), back, hash(str(raw)) & 0xFFFFFF, hash(str(fields)) & 0xFFFF), nontrivial=bool(raw) and any(raw), sample=str(fields)[:200])


# ------------------------------------------------------------------ differences
def case_diff(rng, M, multi=False):
    from deepdiff import DeepDiff
    from ttp import ttp
    M.ev("deepdiff")
    M.ev("multi", multi)
    s = Source(rng, M, layouts=("list", "two", "dict", "anon"), ninputs=(0,))
    u = gen.Uniq(rng)
    how = rng.choice(["input", "input", "variable", "template", "input_variable"]) if not multi else "input"
    M.ev({"input": "by_input", "template": "by_template"}.get(how, "by_variable"))
    names = gen.words(rng, 4)
    counts = [rng.choice([1, 1, 2, 3]) for _ in names]
    order = list(range(4))
    rng.shuffle(order)
    before, after = 0, 1
    same = rng.random() < 0.5
    items = [[s.item(10 * i + j, u) for j in range(counts[i])] for i in range(4)]
    if same:
        counts[1] = counts[0]
        # the same records given by other texts
        items[1] = [("~~ again %s\n" % u() + t.split("\n", 1)[1], copy.deepcopy(r)) for t, r in items[0]]
    elif rng.random() < 0.5:
        # differ in one record
        items[1] = [("~~ again %s\n" % u() + t.split("\n", 1)[1], copy.deepcopy(r)) for t, r in items[0]]
        j = rng.randrange(len(items[1]))
        items[1][j] = s.item(77, u, n=rng.choice([1, 2]))
    mode = rng.choice([None, "bulk", "iterate"])
    M.ev("iterate", mode == "iterate")
    field = rng.choice([None, "difference", "dd"])
    kw = {}
    if rng.random() < 0.3:
        kw["ignore_order"] = True
        M.ev("ignore_order")
        if len(items[1][0][1].get("recs", []) if isinstance(items[1][0][1], dict) else []) > 1 and rng.random() < 0.7:
            items[1][0][1]["recs"].reverse()
            # records of the text follow
            lines = items[1][0][0].split("\n")
            head = [x for x in lines if not x.startswith(("rec ", " ")) and x]
            blocks, cur = [], None
            for x in lines:
                if x.startswith("rec "):
                    cur = [x]
                    blocks.append(cur)
                elif x.startswith(" "):
                    cur.append(x)
            items[1][0] = ("\n".join(head + [y for b in reversed(blocks) for y in b]) + "\n", items[1][0][1])
    elif rng.random() < 0.3:
        kw["ignore_order"] = False
    if rng.random() < 0.3:
        kw["verbose_level"] = rng.choice([0, 1, 2])
    opts = []
    positional = rng.random() < 0.5
    allres = [r for i in order for _, r in items[i]]
    res_before = [r for _, r in items[0]]
    var = None
    if how == "input":
        res_after = [r for _, r in items[1]]
        if positional:
            opts += names[:2]
        else:
            opts += ["input_before=%s" % names[0], "input_after=%s" % names[1]]
        if rng.random() < 0.2:
            # all the results are compared with those of the input
            opts = opts[:1]
            res_after = allres
    elif how == "template":
        opts.append("template_before=tbefore")
        res_after = allres
        if same:
            res_before = copy.deepcopy(allres)
    else:
        var = res_before
        opts.append("var_before=vb")
        if how == "input_variable":
            opts.append("input_after=%s" % names[1])
            res_after = [r for _, r in items[1]]
        else:
            res_after = allres
            if same:
                var = res_before = copy.deepcopy(allres)
    if mode:
        opts.append("mode=%s" % mode)
    if field:
        M.ev("add_field")
        opts.append("add_field=%s" % field)
    opts += ["%s=%s" % kv for kv in kw.items()]
    back = rng.random() < 0.75
    M.ev("not_returned", not back)
    M.ev("several_items", len(res_before) > 1)
    group = s.group
    inputs = "".join("<input name=\"%s\" load=\"text\">\n%s</input>\n" % (names[i], t) for i in order for t, _ in items[i])
    api = rng.random() < 0.5
    if api and how == "template" or multi:
        api = False
    if api:
        # names come from the template, data given later
        inputs = "".join("<input name=\"%s\"/>\n" % names[i] for i in order)
    # groups with names of inputs run for these inputs only
    out = "<output deepdiff=%s%s/>\n" % (gen.quoteattr(", ".join(opts)), "" if back else " returner=\"catch\"")
    body = "%s%s%s%s" % ("<vars>\nvb = %r\n</vars>\n" % (var,) if var is not None else "", inputs, group, out)
    if how == "template":
        texts = [t for i in order for t, _ in items[i]] if same else [t for t, _ in items[0]]
        first = "<template name=\"tbefore\">\n%s%s</template>\n" % ("".join("<input load=\"text\">\n%s</input>\n" % t for t in texts), group)
        tpl = first + "<template name=\"tafter\">\n%s</template>" % body
    else:
        tpl = "<template>\n%s</template>" % body
    caught = []

    def catch(data, **kw):
        caught.append(copy.deepcopy(data))
    p = ttp()
    p.add_function(catch, scope="returners", name="catch")
    p.add_template(tpl)
    if api:
        for i in order:
            for t, _ in items[i]:
                p.add_input(t, input_name=names[i])
    M.note(template=tpl, items=[[x for x in items[i]] for i in order], names=[names[i] for i in order], options=opts)
    p.parse(**({"multi": True} if multi else {"one": True}))
    got = p.result()[-1]
    if mode == "iterate":
        report = [DeepDiff(res_before[0], x, **kw) for x in res_after]
        none = [x == res_before[0] for x in res_after]
    else:
        report = DeepDiff(res_before, res_after, **kw)
        none = res_before == res_after
    if field:
        exp = copy.deepcopy(allres) + [{field: report}]
    else:
        exp = report
    seen = got if back else caught[0] if len(caught) == 1 else caught
    M.eq(plain(seen), plain(exp), "report", raw=allres)
    rep = seen[-1][field] if field else seen
    if not kw.get("ignore_order") and kw.get("verbose_level", 1):
        if mode == "iterate":
            M.eq([not x for x in rep], none, "reports are empty exactly for equal results")
            M.ev("no_difference", sum(none))
            M.ev("difference", len(none) - sum(none))
        else:
            M.eq(not rep, none, "report is empty exactly for equal results")
            M.ev("no_difference" if none else "difference")
    if not back:
        M.eq(got, allres, "results that are not returned")
    M.case((how, mode, field, tuple(sorted(kw)), back, api, multi, hash(str(allres)) & 0xFFFFFF), nontrivial=any(allres), sample=str(opts))


def plain(x):
    """reports are dictionaries of the library"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, type):
        return x.__name__
    if type(x).__name__ in ("PrettyOrderedSet", "OrderedSet", "SetOrdered", "set"):
        return sorted(str(v) for v in x)
    return x


def case_multi(rng, M):
    case_diff(rng, M, multi=True)


# ------------------------------------------------------------------ paths
def tree(rng, depth=0):
    k = rng.random()
    if depth >= 4 or k < 0.2 and depth:
        return rng.choice(["text", 0, 7, None, "", True, [], {}, ["a", "b"], [{"k": 1}, {"j": 2}]])
    if k < 0.3:
        return [tree(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {key: tree(rng, depth + 1) for key in rng.sample(["a", "b", "c", "d e", "f-1"], rng.randint(0, 4))}


class Absent(Exception):
    pass


def at(x, path, strict):
    if isinstance(x, list):
        return [at(i, path, strict) for i in x]
    if not isinstance(x, dict):
        return x
    for k in path:
        if not isinstance(x, dict) or k not in x:
            if strict:
                raise Absent
            return {}
        x = x[k]
    return x


def flat(x, key):
    if isinstance(x, dict):
        if not all(isinstance(v, dict) for v in x.values()):
            return x
        return [dict(v, **{key: k}) for k, v in x.items()]
    if isinstance(x, list):
        return [flat(i, key) for i in x]
    return x


def case_path(rng, M):
    from ttp import ttp
    data = [tree(rng) for _ in range(rng.randint(1, 3))] if rng.random() < 0.7 else tree(rng)
    # mostly a path that is there
    path, x = [], data
    while rng.random() < 0.8:
        if isinstance(x, list):
            x = rng.choice(x) if x else None
            continue
        if not isinstance(x, dict) or not x:
            break
        k = rng.choice(sorted(x))
        path.append(k)
        x = x[k]
    if rng.random() < 0.2 or not path:
        path.insert(rng.randint(0, len(path)), rng.choice(["a", "b", "zz"]))
    sp = rng.choice([".", " . "]).join(path)
    given = copy.deepcopy(data)

    def put(d):
        return data
    fun = rng.choice(["traverse", "traverse", "dict_to_list"])
    M.ev(fun)
    key = rng.choice(["key", "interface", "a"])
    strict = rng.choice([None, True, False])
    opts = []
    usepath = fun == "traverse" or rng.random() < 0.6
    if usepath:
        opts.append("path='%s'" % sp)
    if strict is not None and (fun == "traverse" or usepath):
        opts.append("strict=%s" % strict)
    if fun == "dict_to_list" and (key != "key" or rng.random() < 0.5):
        opts.append("key_name='%s'" % key)
    elif fun == "dict_to_list":
        key = "key"
    eff = strict if strict is not None else fun == "traverse"
    rng.shuffle(opts)
    args = ", ".join(opts)
    form = rng.random()
    out = "<output functions=%s/>" % gen.quoteattr("put | %s(%s)" % (fun, args)) if form < 0.6 else "<output put=\"\" %s=%s/>" % (fun, gen.quoteattr(args))
    tpl = "<group name=\"g*\">\nx {{ v }}\n</group>\n" + out
    M.note(template=tpl, data=data)
    p = ttp()
    p.add_function(put, scope="output", name="put")
    p.add_template(tpl)
    p.add_input("x 1\n")
    base, absent = data, False
    try:
        if usepath:
            base = at(data, path, eff)
    except Absent:
        absent = True
    err = None
    try:
        p.parse(one=True)
    except (KeyError, TypeError, IndexError) as e:
        err = e
    M.eq(data, given, "data given to the function")
    if absent:
        M.ev("absent_strict")
        M.true(err is not None, "absent path has to be reported", got_result=p.result())
        M.case(("absent", fun, sp), nontrivial=False)
        return
    M.true(err is None, "%s raised" % fun, error=repr(err))
    exp = base
    if fun == "dict_to_list":
        exp = flat(base, key)
        M.ev("not_flattened", exp == base)
    if usepath and not eff:
        M.ev("absent", str(base).count("{}"))
    M.ev("through_list", isinstance(data, list))
    M.eq(p.result()[0], exp, "%s" % fun)
    M.case((fun, sp, strict, key, hash(str(data)) & 0xFFFFFFF), nontrivial=bool(exp), sample=str(data)[:200])


# ------------------------------------------------------------------ YANG
def case_yang(rng, M):
    from ttp import ttp
    M.ev("yangson")
    mod = "m" + gen.word(rng, 4, 7)
    lo, hi = sorted(rng.sample(range(0, 200), 2))
    enum = gen.words(rng, 3)
    need, must, seen = rng.random() < 0.4, rng.random() < 0.5, rng.random() < 0.2
    text = """module %s {
  yang-version 1.1;
  namespace "urn:x:%s";
  prefix p;
  revision 2020-01-0%d;
  container top {
    list item {
      key name;
      leaf name { type string { length "1..12"; } }
      leaf num { type uint8 { range "%d..%d"; }%s }
      leaf kind { %stype enumeration { enum %s; enum %s; } }
      leaf seen { config false; type string; %s}
    }
  }
}
""" % (mod, mod, rng.randint(1, 9), lo, hi, " mandatory true;" if need else "", "must \"../num\"; " if must else "", enum[0], enum[1], "mandatory true; " if seen else "")
    folder = os.path.join(M.scratch, mod)
    os.makedirs(folder)
    extra = {}
    entry_extra = {}
    imported = None
    if rng.random() < 0.35:
        # names of kinds in a submodule
        M.ev("yang_submodule")
        sub = mod + "-" + gen.word(rng)
        dated = rng.random() < 0.5
        nodes = rng.random() < 0.3
        extra[sub] = "submodule %s {\n  yang-version 1.1;\n  belongs-to %s { prefix p; }\n  revision 2020-02-02;\n  typedef kinds { type enumeration { enum %s; enum %s; } }\n%s}\n" % (sub, mod, enum[0], enum[1], "  container more { leaf x { type string; } }\n" if nodes else "")
        text = text.replace("type enumeration { enum %s; enum %s; }" % (enum[0], enum[1]), "type kinds;").replace("  revision 2020", "  include %s%s\n  revision 2020" % (sub, " { revision-date 2020-02-02; }" if dated else ";"))
        entry_extra["submodule"] = [{"name": sub, "revision": "2020-02-02"}]
    elif rng.random() < 0.3:
        M.ev("yang_import")
        imported = mod + "-types"
        extra[imported] = "module %s {\n  yang-version 1.1;\n  namespace \"urn:t:%s\";\n  prefix t;\n  revision 2019-01-01;\n  typedef kinds { type enumeration { enum %s; enum %s; } }\n}\n" % (imported, mod, enum[0], enum[1])
        text = text.replace("type enumeration { enum %s; enum %s; }" % (enum[0], enum[1]), "type t:kinds;").replace("  revision 2020", "  import %s { prefix t; }\n  revision 2020" % imported)
    if rng.random() < 0.3:
        M.ev("yang_feature")
        text = text.replace("  container top", "  feature watch;\n  container top").replace("config false; type string;", "if-feature watch; config false; type string;")
        entry_extra["feature"] = ["watch"]
    if rng.random() < 0.2:
        # an older revision statement follows the current one
        text = re.sub(r"(  revision 2020-01-0\d;\n)", r"\1  revision 2018-05-05;\n", text)
    for n, x in dict(extra, **{mod: text}).items():
        with open(os.path.join(folder, n + ".yang"), "w") as f:
            f.write(x)
    with open(os.path.join(folder, "notes.txt"), "w") as f:
        f.write("not a module {")
    per = rng.random() < 0.4
    M.ev("per_template", per)
    u = gen.Uniq(rng)
    texts, oks, res = [], [], []
    joined = []
    for i in range(rng.choice([1, 2, 3])):
        lines, recs = ["~ %d" % i], []
        for _ in range(rng.choice([1, 2])):
            r = {"name": "n" + gen.word(rng, 4, 6) if rng.random() < 0.9 else "x" * 13}
            lines.append("item " + r["name"])
            if rng.random() < 0.8:
                r["num"] = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), hi + 1, 256])
                lines.append(" num %d" % r["num"])
            if rng.random() < 0.6:
                r["kind"] = rng.choice(enum[:2] * 3 + enum[2:])
                lines.append(" kind " + r["kind"])
            if rng.random() < (0.9 if seen else 0.3):
                r["seen"] = "s" + gen.word(rng)
                lines.append(" seen " + r["seen"])
            recs.append(r)
        texts.append("\n".join(lines) + "\n")
        joined += recs
        oks.append(recs)
        res.append({mod + ":top": {"item": recs}})

    def valid(recs):
        names = [r["name"] for r in recs]
        return len(set(names)) == len(names) and all(len(r["name"]) <= 12 and ("num" in r or not need) and lo <= r.get("num", lo) <= hi and r.get("kind", enum[0]) in enum[:2]
                                                        and ("num" in r or "kind" not in r or not must) and ("seen" in r or not seen) for r in recs)
    xml = rng.random() < 0.3
    meta = rng.choice([None, True, False])
    blank = rng.random() < 0.5
    opts = ["'%s'" % folder] if rng.random() < 0.5 else ["yang_mod_dir='%s'" % folder]
    if xml:
        opts.append("to_xml=True")
        M.ev("yang_xml")
    if meta is not None:
        opts.append("metadata=%s" % meta)
    M.ev("yang_plain", meta is False)
    scope = rng.choice([None, None, "all", "semantics", "syntax"])
    ctype = rng.choice([None, None, "all", "config", "nonconfig"])
    if scope:
        opts.append("validation_scope='%s'" % scope)
    if ctype:
        opts.append("content_type='%s'" % ctype)
    tag = "<output validate_yangson=%s%s" % (gen.quoteattr(", ".join(opts)), ">\n</output>" if blank else "/>")
    lib = {"ietf-yang-library:modules-state": {"module-set-id": "", "module": [{"name": mod, "revision": re.search(r"\n  revision (\S{10})", text)[1], "namespace": "urn:x:" + mod, "conformance-type": "implement"}]}}
    lib["ietf-yang-library:modules-state"]["module"][0].update(entry_extra)
    if imported:
        lib["ietf-yang-library:modules-state"]["module"].append({"name": imported, "revision": "2019-01-01", "namespace": "urn:t:" + mod, "conformance-type": "import"})
    if rng.random() < 0.3:
        M.ev("yang_text")
        tag = "<output load=\"text\" validate_yangson=%s>%s</output>" % (gen.quoteattr(", ".join(opts)), json.dumps(lib))
    elif rng.random() < 0.3:
        M.ev("yang_library_file")
        opts.append("yang_mod_lib='%s'" % M.write(mod + ".json", json.dumps(lib)))
        tag = "<output validate_yangson=%s/>" % gen.quoteattr(", ".join(opts))
    tpl = "<template%s>\n<group name=\"%s:top.item*\">\nitem {{ name }}\n num {{ num | to_int }}\n kind {{ kind }}\n seen {{ seen }}\n</group>\n%s\n</template>" % (" results=\"per_template\"" if per else "", mod, tag)
    M.note(template=tpl, data=texts, module=text)
    p = ttp(template=tpl)
    for t in texts:
        p.add_input(t)
    old = os.getcwd()
    p.parse(one=True)
    M.eq(os.getcwd(), old, "working directory")
    got = p.result()[0]
    raw = {mod + ":top": {"item": joined}} if per else res
    verdicts = [valid(joined)] if per else [valid(x) for x in oks]
    if scope or ctype:
        # what each scope covers is up to the library
        from yangson import DataModel, enumerations
        M.ev("yang_scopes")
        dm = DataModel(json.dumps(lib), [folder])

        def judged(recs):
            try:
                dm.from_raw({mod + ":top": {"item": recs}}).validate(scope=enumerations.ValidationScope[scope or "all"], ctype=enumerations.ContentType[ctype or "all"])
                return True
            except Exception:
                return False
        full = verdicts
        verdicts = [judged(joined)] if per else [judged(x) for x in oks]
        M.ev("yang_scope_matters", full != verdicts)
    M.ev("yang_valid", sum(verdicts))
    M.ev("yang_invalid", len(verdicts) - sum(verdicts))

    def same_xml(t, recs):
        import xml.etree.ElementTree as ET
        root = ET.fromstring(t)
        have = []
        for it in root.iter("{urn:x:%s}item" % mod):
            have.append({c.tag.split("}")[1]: c.text for c in it})
        M.eq(have, [{k: str(v) for k, v in r.items()} for r in recs], "records in XML", text=t)
    if meta is False:
        if not all(verdicts):
            M.eq(got, False, "verdict")
        elif not xml:
            M.eq(got, raw, "results that are valid")
        elif per:
            same_xml(got, joined)
        else:
            M.eq(len(got), len(oks), "items in XML")
            for g, r in zip(got, oks):
                same_xml(g, r)
    else:
        v = verdicts[0] if per else dict(enumerate(verdicts))
        M.eq(got["valid"], v, "verdicts", report=str(got)[:2000])
        if per:
            M.eq(bool(got["exception"]), not v, "exception given exactly for invalid results")
        else:
            M.eq(sorted(got["exception"]), [i for i, ok in enumerate(verdicts) if not ok], "exceptions given exactly for invalid items")
        M.eq(got["comment"], "", "comment")
        if not xml:
            M.eq(got["result"], raw, "results")
        elif per:
            if v:
                same_xml(got["result"], joined)
        else:
            good = [r for r, ok in zip(oks, verdicts) if ok]
            M.eq(len(got["result"]), len(good), "items in XML")
            for g, r in zip(got["result"], good):
                same_xml(g, r)
    M.case(("yang", per, xml, meta, tuple(verdicts), mod), sample=text)


def case_absent(rng, M):
    """schemas, variables, modes, functions and formats that do not exist leave the results as they are"""
    s = Source(rng, M)
    tag = rng.choice(['validate="no_such_schema"', 'functions="validate(no_such_schema)"', 'functions="no_such_function"', 'functions="no_such_function() | dict_to_lists()"', 'format="no_such_format"', 'returner="self, nowhere"',
                      'deepdiff="var_before=vb, mode=\'no_such_mode\'"', 'deepdiff="var_before=vb, mode=\'no_such_mode\', add_field=\'d\'"', 'validate="no_such_schema, result=\'v\', errors=\'e\'"'])
    good = rng.random() < 0.4
    t = '<vars>\nvb = [{"a": 1}]\n</vars>\n' + s.group + "<output %s/>\n" % tag
    want = s.res
    if good:
        # outputs next to it still run
        t += '<macro>\ndef wrap(data):\n    return [{"all": data}]\n</macro>\n<output macro="wrap"/>\n'
        want = [{"all": s.res}]
    from ttp import ttp
    p = ttp(template=t)
    for x in s.texts:
        p.add_input(x)
    M.note(template=t, data=s.texts)
    p.parse(one=True)
    M.eq(p.result(), [want], "results of output that refers to something that does not exist")
    M.ev("absent")
    M.case((t, tuple(s.texts)), nontrivial=bool(want))


KINDS = {"absent": (case_absent, 400, 8000), "equal": (case_equal, 6000, 300000), "validate": (case_validate, 3000, 150000), "diff": (case_diff, 2500, 100000), "path": (case_path, 6000, 300000), "yang": (case_yang, 240, 8000), "multi": (case_multi, 16, 800)}
