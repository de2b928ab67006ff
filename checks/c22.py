"""C22: dumping and loading loses nothing and touches nothing else."""
import contextlib
import copy
import io
import os
import random
import re
import shutil
import tempfile

import yaml

import check
import hist
import tlc

TEXT = ["yes", "no", "on", "off", "y", "n", "true", "True", "null", "~", "", "1", "012", "0o12", "1_000", "1:30", "12:30:45", "1e3", "1.5", "1.0e+3", ".inf",
        "0x1F", "2020-01-01", "2020-01-01 10:00:00", "a: b", "a #b", "# a", "- a", "[a]", "{a}", "{{ ref('x') }}", "*a", "&a", "!a", "|a", ">a", "%a", "@a",
        "`a", "'a'", '"a"', "a'b", "a\nb", "a\n\nb\n", "a\n  b\n c", " a", "a ", "\ta", "a\tb", "a\\nb", "é", "日本", "😀", "\u0007", "a" * 200,
        ("word " * 60).strip(), "a:\n  b", "---", "...", "a\n---\nb", "=", "<<", "?", "? a", ":", "select *\nfrom t -- c\nwhere a = '%s'\n", "\n", "\n\na", "a\n\n\n",
        "trailing  \nspace", "${TABLE}.a", "case when ${x} > 1 then 'a: b' end", "0", "00", "-1", "+1", "1.", "0b11", "Yes", "NO", "On", "1,000", "12e03", "0777",
        "08", "plain text", "two words", "Text: with, signs; (and) more!"]
ANY = [None, True, False, 0, 1, -5, 1.5, 1e20, 1e-7, 10 ** 20, [], {}, [[]], [{}], {"a": {}}, [1, "1", True, None], {"yes": 1, "on": "off", "1": 2},
       {"a b": ["x: y"]}, [["a", ["b"]], "c"], {"a": None}, ["yes", "no", "off"], [{"field": "aa", "value": "no"}], [0, 10, 20.5], "text", ["12:30"], {"a": "l1\nl2"},
       [{"a": "yes", "b": [1, {"c": "on"}]}, {"d": ""}], ["a\n\nb"], "ON", {"_kept": 1}]
PALETTE = TEXT + ANY


def same(a, b):
    if isinstance(a, str):
        return isinstance(b, str) and str(a) == str(b)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)):
        return isinstance(b, type(a)) and a == b
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(any(same(k, j) and same(a[k], b[j]) for j in b) for k in a)
    return type(a) is type(b) and a == b


def code(v):
    return next((i + 1 for i, x in enumerate(PALETTE) if same(x, v)), 0)


def definition(d):
    out = dict(type=d["type"], name=d["name"])
    out.update({e["k"]: copy.deepcopy(PALETTE[e["v"] - 1]) for e in d["entries"]})
    if d["fields"]:
        out["fields"] = [dict([("name", f["name"]), ("field_type", f["kind"])] + [(e["k"], copy.deepcopy(PALETTE[e["v"] - 1])) for e in f["entries"]]) for f in d["fields"]]
    return out


def coded(x, rest=("type", "name", "field_type", "fields", "_file_path")):
    """what was loaded, in the terms of the specification"""
    fields = x.get("fields") or []
    name = x.get("name")
    return dict(type=str(x.get("type")), name=str(name) if isinstance(name, str) else f"not text: {name!r}",
                entries=[dict(k=str(k) if isinstance(k, str) else f"{k!r}", v=code(v)) for k, v in x.items() if k not in rest],
                fields=[dict(name=str(f["name"]) if isinstance(f["name"], str) else f"not text: {f['name']!r}", kind=str(f["field_type"]),
                             entries=[dict(k=str(k), v=code(v)) for k, v in f.items() if k not in rest]) for f in fields])


def by_hand(d, style, path):
    """somebody's own way of writing yaml"""
    class D(yaml.SafeDumper):
        pass
    if style == 3:
        multi = "|"
    else:
        multi = None
        D.ignore_aliases = lambda *a: True
    # PyYAML leaves 1e3, y and n bare as text, others read them as a number and truth values
    D.add_representer(str, lambda s, x: s.represent_scalar("tag:yaml.org,2002:str", x, style=multi if "\n" in x else "'" if re.fullmatch("[0-9]+e[0-9]+|[yYnN]", x) else None))
    x = copy.deepcopy(d)
    if style == 3 and len(x.get("fields", [])) > 1:        # the same value twice: an anchor and its alias
        for f in x["fields"]:
            for k, v in f.items():
                if isinstance(v, (list, dict)):
                    x["fields"] = [{**g, k: v} if k in g and same(g[k], v) else g for g in x["fields"]]
                    break
            else:
                continue
            break
    text = yaml.dump(x, Dumper=D, default_flow_style={1: False, 2: True, 3: False, 4: None}[style], sort_keys=style == 2, allow_unicode=style != 2, width=60)
    if style in (3, 4):
        text = "# a comment at the top\n\n" + text + "\n# and one at the end\n"
    if style == 1:
        text = "---\n" + text
    assert same(x, yaml.safe_load(text)), (style, x)
    with open(path, "w") as f:
        f.write(text)


OTHER = {"notes": "remarks: [1, 2]\n", "schema": "version: 2\nmodels:\n- name: orders\n", "orders_view": "nothing: here\n", ".dot": "type: view\nname: dotted\n"}


def sensible(texts):
    """a project whose answers depend on these texts"""
    texts = [x for x in texts if isinstance(x, str) and "\n" not in x and "," not in x and "%" not in x][:3] or ["yes"]
    m = dict(version=1, type="model", name="m", connection="c", access_grants=[dict(name="g", user_attribute="who", allowed_values=texts)])
    v = dict(version=1, type="view", name="v", model_name="m", sql_table_name="t", default_date="d",
             fields=[dict(name="aa", field_type="dimension", type="string", sql="${TABLE}.aa", label=texts[0], required_access_grants=["g"]),
                     dict(name="d", field_type="dimension_group", type="time", timeframes=["raw", "date"], sql="${TABLE}.d"),
                     dict(name="n", field_type="measure", type="count", sql="${TABLE}.n", description=texts[-1], filters=[dict(field="aa", value=x) for x in texts])])
    return m, v, texts


def ask(project, texts):
    from metrics_layer.core import MetricsLayerConnection as Connection

    out = []
    for who in [None] + texts[:2]:
        conn = Connection(project=project, connections=[dict(type="SNOWFLAKE", name="c", account="a", username="u", password="p")], user=None if who is None else {"who": who})
        for req in (dict(metrics=["n"], dimensions=["aa"]), dict(metrics=["n"], dimensions=["d_date"], where=[dict(field="aa", expression="equal_to", value=texts[0])])):
            try:
                out.append(conn.get_sql_query(**req))
            except Exception as e:  # noqa: BLE001
                out.append(f"{type(e).__name__}: {e}")
        out.append(sorted(f"{f.view.name}.{f.name} {f.label} {f.description}" for f in conn.list_metrics() + conn.list_dimensions()))
    return out


def segs(r, form):
    p = "/".join(r)
    return {1: p, 2: p + "/" if p else "./", 3: "./" + p if p else "."}[form]


def replay(case, rng):
    from metrics_layer.core.model.project import Project
    from metrics_layer.core.parse import ProjectDumper, ProjectLoader

    s = case["s"]
    top = os.path.realpath(tempfile.mkdtemp(prefix="c22_"))
    n = 0
    try:
        def fresh():
            nonlocal n
            n += 1
            p = os.path.join(top, ["plain", "with space", "br[a]ck", "my_venv_x"][s["where"] - 1] + str(n))
            os.makedirs(p)
            with open(os.path.join(p, "zenlytic_project.yml"), "w") as f:
                yaml.dump({"name": "p", "model-paths": [segs(r["at"], r["form"]) for r in s["models"]], "view-paths": [segs(r["at"], r["form"]) for r in s["views"]]}, f)
            return p

        def place(path):
            rel = os.path.relpath(path, root).split(os.sep)
            base, _, e = rel[-1].rpartition(".")
            return dict(dir=rel[:-1], base=base, ext=e)

        def tree():
            out = {}
            for b, ds, fs in os.walk(root):
                for f in fs:
                    p = os.path.join(b, f)
                    if os.path.relpath(p, root) != "zenlytic_project.yml":
                        out[p] = open(p, "rb").read()
            return out

        def load():
            p = ProjectLoader(root).load()
            return list(p._models), list(p._views)

        def at(x):
            return place(os.path.join(root, x["_file_path"]))

        root = fresh()
        seen = []
        for o in case["ops"]:
            before, status, ok = tree(), "", True
            try:
                if o["op"] == "hand":
                    f = o["file"]
                    p = os.path.join(root, *f["dir"], f"{f['base']}.{f['ext']}")
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    if f["kind"] == "doc":
                        by_hand(definition(f["doc"]), o["style"], p)
                    else:
                        with open(p, "w") as g:
                            g.write(OTHER[f["base"]])
                else:
                    mf, vf = segs(s["models"][0]["at"], s["models"][0]["form"]), segs(s["views"][0]["at"], s["views"][0]["form"])
                    target = root
                    if o["op"] == "dump":
                        xs = [definition(d) for d in o["docs"]]
                        ms, vs = [x for x in xs if x["type"] == "model"], [x for x in xs if x["type"] == "view"]
                    else:
                        ms, vs = load()
                        if o["op"] == "move":
                            target = fresh()
                            before = {}
                        elif o["op"] == "change":
                            old = [x for x in ms + vs if at(x) == o["at"]]
                            new = {**definition(o["doc"]), "_file_path": old[0]["_file_path"]}
                            if "fields" in new and "fields" in old[0] and coded(old[0])["fields"] == coded(new)["fields"]:
                                new["fields"] = old[0]["fields"]
                            ms, vs = ([new], []) if new["type"] == "model" else ([], [new])
                    given = copy.deepcopy([dict(x) for x in ms + vs])
                    ProjectDumper(ms, mf, vs, vf).dump(target)
                    ok = all(same(dict(a), dict(b)) for a, b in zip(given, ms + vs))      # dumping changes no definition
                    root = target
            except Exception as e:  # noqa: BLE001
                status = f"{o['op']}: {type(e).__name__}: {str(e)[:300]}"
            now = tree()
            loaded = []
            try:
                ms, vs = load()
                loaded = [dict(doc=coded(x), at=at(x)) for x in ms + vs]
            except Exception as e:  # noqa: BLE001
                status = status or f"load: {type(e).__name__}: {str(e)[:300]}"
            seen.append(dict(status=status, files=[dict(place(p), changed=before.get(p) != x) for p, x in now.items()], loaded=loaded, answers=ok))
            if status:
                break
        # a project that answers, with texts of this case
        texts = [PALETTE[e["v"] - 1] for o in case["ops"] for d in o.get("docs", []) + [o.get("doc") or {"entries": []}] for e in d["entries"]]
        rng.shuffle(texts)
        if not seen[-1]["status"]:
            m, v, texts = sensible(texts)
            folder = fresh()
            try:
                ProjectDumper([m], segs(s["models"][0]["at"], 1), [v], segs(s["views"][0]["at"], 1)).dump(folder)
                got = ask(ProjectLoader(folder).load(), texts)
                want = ask(Project(models=[m], views=[v]), texts)
                seen[-1]["answers"] = seen[-1]["answers"] and got == want
                if got != want:
                    seen[-1]["asked"] = [str(next((a, b) for a, b in zip(want, got) if a != b))[:600], texts]
            except Exception as e:  # noqa: BLE001
                seen[-1]["status"] = f"answers: {type(e).__name__}: {str(e)[:300]}"
        return dict(s=s, ops=case["ops"][:len(seen)], seen=seen)
    finally:
        shutil.rmtree(top)


def work(cases, seed):
    rng = random.Random(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        return [replay(x, rng) for x in cases]


def body(c):
    c.assumptions += ["the dumper writes models and views; dashboards are not its business",
                      "texts hold no line separators other than the line feed and no characters that yaml cannot hold",
                      "mappings have texts as keys, and values are such that JSON has them too",
                      "files below a folder called venv and hidden files are not part of a project",
                      "yaml files below the folders that are read hold mappings"]
    n = 2000 if c.quick else 12000
    length = 5
    r = tlc.generate("DumpModel", constants=dict(NText=len(TEXT), NAny=len(ANY), Length=length), simulate=n, depth=length + 14, seed=c.seed * 17 + 3,
                     invariants=("Emit", "OnePlace", "Settled"))
    if r.violated:
        raise tlc.TLCError("law of Dump: " + r.violated)
    c.tlc("Dump: drawn", r)
    cases = list({str(x): x for x in r.cases}.values())
    k = 8
    got = hist.fan_out([(work, (cases[j::k], c.seed * 100 + j)) for j in range(k) if cases[j::k]])
    obs = [x for g in got for x in g]
    c.traces += len(obs)
    c.count("histories of a folder", histories=len(obs), operations=sum(len(o["ops"]) for o in obs), definitions=sum(len(x["loaded"]) for o in obs for x in o["seen"]))
    c.sample(obs[0]["ops"][0])
    j = tlc.judge("DumpTrace", obs)
    c.tlc("Dump: judged", j)
    for i, text in j.verdicts:
        c.violation(text, obs[i], key=text)


check.main("C22", body)
