"""Child process of P23: builds parsers with the cache folder of the environment, prints results of a fixed set of templates as JSON."""
import json
import os
import sys

MODE = sys.argv[1]
TEMPLATES = [
    ("match", """<vars>
host = "gethostname"
name = "x-y"
</vars>
<lookup name="names" load="python">
tbl = {"a1": {"role": "core"}, "b2": {"role": "edge"}}
</lookup>
<macro>
def mm(data):
    return data + "!"
def gm(data):
    data["gm"] = len(data)
    return data
def om(data):
    return {"all": data}
</macro>
<group name="ifs*" contains="port">
interface {{ port | upper | startswith_re("[A-Z]") | macro("mm") }}
 ip address {{ ip | PREFIX | to_ip | sprint | default("none") }} {{ role | lookup("names.tbl", add_field="info") }}
 vlans {{ vlans | unrange("-", ",") | joinmatches(",") }}
 mac {{ mac | mac_eui | record("lastmac") }}
 uptime is {{ up | PHRASE | uptimeparse | let("seen", "yes") }}
 desc {{ desc | ORPHRASE | resub("old", "new") | replaceall("-", ".", "_") | truncate(3) | append("+") | prepend("=") }}
 words {{ w | PHRASE | split(" ") | item(0) | contains("a") | exclude("zz") | notequal("q") | lower }}
 count {{ c | isdigit | greaterthan("1") | lessthan("99") | to_int | count(var="cnt") }}
 host {{ h | set("host") }}
 {{ _line_ | contains("!!!") | _start_ }}
</group>
<group name="g2.{{ k }}" macro="gm" set="name, nm" del="drop" sformat="string='{k2}', add_field='s'" to_int="num">
key {{ k | copy("k2") }} {{ drop }} {{ num }}
</group>
<group name="low" functions="containsall('a') | equal('a', '1') | expand">
low {{ a }} {{ b.c }}
</group>
<output macro="om" name="o1"/>
""", """
hostname r1
interface ge1/0
 ip address 10.0.0.1/24 a1
 vlans 1-3
 mac 0011.2233.4455
 uptime is 1 day, 2 hours, 3 minutes
 desc old-one two three four five
 words alpha beta
 count 7
interface ge2/0
 mac 00:11:22:33:44:56
 desc other
key one d 12
key two e 13
low 1 2
low 3 4
"""),
    ("outputs", """<input name="i1" load="text">
row 1 x
row 2 y
</input>
<input name="i2" load="yaml">
a: 1
</input>
<group name="rows*">
row {{ n }} {{ v }}
</group>
<output dict_to_list="key_name='k', path='rows'" format="json" returner="self"/>
""", None),
    ("jinja", """<group name="rows*">
row {{ n }} {{ v }}
</group>
<output format="jinja2" load="text">
{% for r in _data_[0].rows %}{{ r.n }}-{{ r.v }};{% endfor %}
</output>
""", "row 1 x\nrow 2 y\n"),
    ("table", """<group name="t">
A     B    {{ _headers_ }}
</group>
<group name="rows*">
row {{ n | to_float }} {{ v | to_list | joinmatches }}
</group>
<output format="%s"/>
""", "row 1 x\nrow 2 y\nA     B\n1     2\n"),
]


def tables(p):
    return {k: sorted(str(x) for x in v) for k, v in p._ttp_.items() if k in ("match", "group", "input", "output", "returners", "formatters", "variable", "lookup", "utils", "patterns")}


def run(ttp, light):
    out = []
    for name, t, d in TEMPLATES[:1] if light else TEMPLATES:
        for fmt in ("raw", "yaml", "pprint", "json") if "%s" in t else ("",):
            p = ttp(template=t.replace("%s", fmt))
            if d:
                p.add_input(d)
            p.parse(one=True)
            out.append([name + fmt, p.result()])
    p = ttp(template=TEMPLATES[2][1].replace('<output format="%s"/>', ""), data=TEMPLATES[2][2])
    p.parse(one=True)
    if not light:
        out.append(["csv", p.result(format="csv", path="rows")])
    return out, tables(p)


def multi(ttp):
    p = ttp(template="row {{ n | to_int }} {{ v | upper | startswith_re(\"[A-Z]\") }}")
    for i in range(8):
        p.add_input("~ %d\nrow %d x%d\n" % (i, i, i))
    p.parse(multi=True)
    return p.result(), {}


def main():
    import logging
    logging.disable(logging.CRITICAL)
    from ttp import ttp
    if MODE == "multi":
        r, t = multi(ttp)
    else:
        r, t = run(ttp, MODE == "light")
    # results of the same process over again, with the cache in whatever state it is now
    if MODE == "twice":
        r2, t2 = run(ttp, False)
        if json.dumps(r2, default=repr, sort_keys=True) != json.dumps(r, default=repr, sort_keys=True) or t2 != t:
            r = ["second parser differs", r, r2]
    sys.stdout.write("@@" + json.dumps([r, t], default=repr, sort_keys=True) + "@@")


main()
