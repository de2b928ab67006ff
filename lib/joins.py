"""Models with arbitrary identifiers, written down by JoinGraphModel.tla, as metrics_layer projects."""
import itertools
import re

import sqlx
import tlc
import world

POOL = ["ant", "bee", "cod", "doe", "elk", "fox", "gnu", "hen", "ibis"]


def generate(c, seed, runs, nv, nn, nj, name="JoinGraphModel"):
    """TLC writes down models by random simulation and checks the laws of the specification on the way"""
    r = tlc.run("JoinGraphModel",
                tlc.cfg(constants={"NV": nv, "NN": nn, "NJ": nj}, nxt="NextGen"),
                simulate=runs, depth=40, seed=seed, workers=1)
    if r.violated:
        raise RuntimeError("the specification breaks its own law " + r.violated)
    c.tlc(name, r)
    seen, out = set(), []
    for m in r.cases:
        for v in m:
            v.sort(key=lambda i: (i["n"], i["k"], i["ref"]))
        k = str(m)
        if k not in seen:
            seen.add(k)
            out.append(m)
    return out


def explore(c, nv, nn, limit_steps, name="JoinGraphModel:exhaustive"):
    r = tlc.run("JoinGraphModel",
                tlc.cfg(constants={"NV": nv, "NN": nn, "NJ": 1}, nxt="Next",
                        invariants=["SymmetricWays", "NoSilentFanout", "PairwiseEnough"], properties=["Monotone"],
                        constraint=None), extra=())
    if r.violated:
        raise RuntimeError("the specification breaks its own law " + r.violated)
    c.tlc(name, r)


class Model:
    """m: per view a list of identifier records.  names[v] = view name; aliases: 100 + v"""

    def __init__(self, m, rng):
        self.m = m
        n = len(m)
        names = rng.sample(POOL, n)
        self.name = {v + 1: names[v] for v in range(n)}
        self.nodes = list(range(1, n + 1))
        self.yaml = []
        order = list(range(1, n + 1))
        rng.shuffle(order)
        idname = {k: f"{rng.choice(['id', 'key', 'a', 'z'])}{k}" for k in range(0, 60)}
        for v in range(1, n + 1):
            if any(i["k"] == "primary" and i["as"] for i in m[v - 1]):
                self.name[100 + v] = rng.choice(["parent_", "a_", "other_"]) + self.name[v]
                self.nodes.append(100 + v)
        self.index = {b: a for a, b in self.name.items()}
        for v in order:
            ids = []
            cols = {0}
            for i in m[v - 1]:
                cols.add(i["n"])
            for u in range(1, n + 1):      # columns that the explicit joins of other views use
                for i in m[u - 1]:
                    if i["k"] == "join" and i["ref"] == v:
                        cols.add(i["n"])
            mine = list(m[v - 1])
            rng.shuffle(mine)
            for i in mine:
                if i["k"] == "join":
                    a, b = self.name[v], self.name[i["ref"]]
                    d = dict(name=f"x{i['n']}", type="join", reference=b, relationship=i["rel"],
                             sql_on="${%s.k%d}=${%s.k%d} AND ${%s.k0} = 1" % (a, i["n"], b, i["n"], a))
                    if i["jt"] != "left":
                        d["join_type"] = {"inner": "inner", "full": "full_outer"}[i["jt"]]
                    elif rng.random() < 0.5:
                        d["join_type"] = "left_outer"
                else:
                    # a name of its own, or of the field that holds it
                    d = dict(name=idname[i["n"]], type=i["k"], sql=rng.choice(["${k%d}", "${TABLE}.k%d", "${k%d}"]) % i["n"])
                    fan = [self.name[x] for x in i["fan"]]
                    if fan:
                        d["allowed_fanouts"] = fan
                    only = [self.name[x] for x in i["only"]]
                    if only:
                        d["only_join"] = only
                    if i["as"]:
                        d["join_as"] = self.name[100 + v]
                        if rng.random() < 0.5:
                            d["include_metrics"] = True
                        if rng.random() < 0.3:
                            d["join_as_label"] = "Other"
                ids.append(d)
            plain = [i for i in m[v - 1] if i["k"] != "join" and not i["as"]]
            if len(plain) >= 2 and rng.random() < 0.3:
                # a composite key of this view only: it changes no join, only which way round is preferred
                ids.append(dict(name="comp", type="primary", identifiers=[dict(name=idname[i["n"]]) for i in plain[:2]])
                           if sum(y.get("name") == "comp" for z in self.yaml for y in z.get("identifiers") or []) == 0 else
                           dict(name="comp_" + self.name[v], type="primary", identifiers=[dict(name=idname[i["n"]]) for i in plain[:2]]))
            fields = [dict(name=f"k{x}", field_type="dimension", type="number", sql="${TABLE}.k%d" % x) for x in sorted(cols)]
            fields.append(dict(name="x_" + self.name[v], field_type="dimension", type="string", sql="${TABLE}.x"))
            fields.append(dict(name="n_" + self.name[v], field_type="measure", type="max", sql="${TABLE}.x"))
            y = dict(version=1, type="view", name=self.name[v], model_name="m", sql_table_name="t_" + self.name[v], fields=fields)
            if ids or rng.random() < 0.5:
                y["identifiers"] = ids
            self.yaml.append(y)

    def shuffled(self, rng):
        """the same model declared in another order"""
        import copy

        o = copy.copy(self)
        o.yaml = copy.deepcopy(self.yaml)
        rng.shuffle(o.yaml)
        for y in o.yaml:
            if y.get("identifiers"):
                rng.shuffle(y["identifiers"])
            rng.shuffle(y["fields"])
        return o

    def project(self):
        from metrics_layer.core.model.project import Project

        return Project(models=[dict(version=1, type="model", name="m", connection="c")], views=self.yaml)

    def field(self, v):
        """the plain dimension of view v (aliases have copies of the original view's fields)"""
        return f"{self.name[v]}.x_{self.name[v - 100] if v > 100 else self.name[v]}"

    # -- observing
    def plan(self, sql):
        sk = sqlx.skeleton(sql)
        base = self.index.get(sk[0][0], 0)
        joins = []
        for alias, kind, on in sk[1:]:
            conj = []
            for part in re.split(r"(?i)\s+and\s+", (on or "").strip().strip("()")):
                toks = re.findall(r'(\w+)\s*\.\s*"?k(\d+)', part)
                conj.append(sorted({f"{self.index.get(a, 0)}.k{b}" for a, b in toks}))
            k = {"LEFT JOIN": "left", "LEFT OUTER JOIN": "left", "JOIN": "inner", "INNER JOIN": "inner", "FULL OUTER JOIN": "full",
                 "FULL JOIN": "full"}.get(kind, kind)
            joins.append({"view": self.index.get(alias, 0), "kind": k, "on": conj})
        return base, joins

    def subsets(self, rng, cap, lo=1):
        out = [list(s) for k in range(lo, len(self.nodes) + 1) for s in itertools.combinations(self.nodes, k)]
        if len(out) > cap:
            small = [s for s in out if len(s) == 2]
            small = rng.sample(small, min(len(small), cap // 2))
            rest = [s for s in out if s not in small]
            out = small + rng.sample(rest, min(len(rest), cap - len(small)))
        return out
