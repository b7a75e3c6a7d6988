"""C22 attributes stay with their members: multipart geometries and tables against a row-list model."""
import json
import numpy as np
from lib.mon import scenario, Skip
from lib.geoms import coords
from karta import Point, Line, Polygon, Multipoint, Multiline
from karta.vector.geometry import Multipolygon
from karta.vector.table import Table, Indexer, merge
from karta.crs import Cartesian, LonLatWGS84, ProjectedCRS
from lib import systems as other_datums

RULE = ("a case is a multipart geometry with attributes and a history of assignments, slices, merges and queries, or a table "
        "with a history of edits, compared throughout with a list of (coordinates, row) pairs; distinct by history")

FIELDS = ["a", "b", "name", "c d", "x"]


def value(rng, f):
    if f == "name":
        return rng.choice(["", "one", "zwölf", "x" * 40]) + str(rng.randrange(50))
    return rng.choice([rng.randrange(-99, 99), rng.uniform(-1, 1), 0, None if f == "x" else 7])


def T2(v):
    return tuple(float(a) for a in v)


class Model(object):
    def __init__(self, kind, parts, rows, props):
        self.kind, self.parts, self.rows, self.props = kind, parts, rows, dict(props)


def part_coords(g, kind):
    if len(g) == 0:
        return []
    if kind == "Multipoint":
        return [T2(v) for v in g.vertices()]
    if kind == "Multiline":
        return [[T2(v) for v in a] for a in g.vertices()]
    return [[[T2(v) for v in r] for r in p] for p in g.vertices()]


def member_coords(p, kind):
    if kind == "Multipoint":
        return T2(p.vertex())
    if kind == "Multiline":
        return [T2(v) for v in p.vertices()]
    return [[T2(v) for v in p.vertices()]] + [[T2(v) for v in s.vertices()] for s in p.subs]


CLS = {"Multipoint": Multipoint, "Multiline": Multiline, "Multipolygon": Multipolygon}


def rnd_part(rng, kind, z):
    if kind == "Multipoint":
        return coords(rng, 1, z, 100.0)[0]
    if kind == "Multiline":
        return coords(rng, rng.randrange(2, 6), z, 100.0)
    return [coords(rng, rng.randrange(3, 6), z, 100.0) for _ in range(rng.randrange(1, 3))]


def single(kind, part, props, crs=Cartesian):
    if kind == "Multipoint":
        return Point(part, properties=props, crs=crs)
    if kind == "Multiline":
        return Line(part, properties=props, crs=crs)
    return Polygon(part[0], subs=[Polygon(r, crs=crs) for r in part[1:]], properties=props, crs=crs)


def floats(part):
    if isinstance(part, tuple):
        return T2(part)
    return [floats(p) for p in part]


def build(ctx, rng, kind, z, n, fields):
    """(geometry, model) by one of the documented constructors"""
    parts = [rnd_part(rng, kind, z) for _ in range(n)]
    rows = [{f: value(rng, f) for f in fields} for _ in range(n)]
    props = {"group": rng.randrange(9)} if rng.random() < 0.4 else {}
    how = rng.choice(["dict", "table", "fieldtable", "parts", "parts+data", "list", "none", "iter"])
    if n == 0 or not fields:
        how = "none" if how in ("list", "dict", "table", "fieldtable", "parts+data") or not fields else how
    cls = CLS[kind]
    kw = {}
    if rng.random() < 0.3:
        kw["build_index"] = False
    if how == "iter" and kind != "Multipoint":
        how = "dict"
    if how in ("parts", "parts+data") and n == 0:
        how = "none"
    if how == "dict":
        g = cls(parts, data={f: [r[f] for r in rows] for f in fields}, properties=props, **kw)
    elif how == "iter":
        g = cls(iter([tuple(p) for p in parts]), data=Table({f: [r[f] for r in rows] for f in fields}), properties=props, **kw)
    elif how == "table":
        g = cls(parts, data=Table({f: [r[f] for r in rows] for f in fields}), properties=props, **kw)
    elif how == "fieldtable":
        g = cls(parts, data=Table([tuple(r[f] for f in fields) for r in rows], fields=fields), properties=props, **kw)
    elif how == "list":
        g = cls(parts, data=[r[fields[0]] for r in rows], properties=props, **kw)
        rows = [{"value": r[fields[0]]} for r in rows]
    elif how == "parts":
        # inner join: a field missing from one part is left out
        mine = [dict(r) for r in rows]
        drop = rng.choice(fields) if len(fields) > 1 and rng.random() < 0.3 else None
        if drop:
            del mine[rng.randrange(n)][drop]
            rows = [{k: v for k, v in r.items() if k != drop} for r in rows]
        g = cls([single(kind, p, m) for p, m in zip(parts, mine)], properties=props, **kw)
    elif how == "parts+data":
        extra = [rng.randrange(99) for _ in range(n)]
        g = cls([single(kind, p, r) for p, r in zip(parts, rows)], data={"extra": extra}, properties=props, **kw)
        rows = [dict(r, extra=e) for r, e in zip(rows, extra)]
    else:
        g = cls(parts, data=rng.choice([None, {}]), properties=props, **kw)
        rows = [{} for _ in range(n)]
    return g, Model(kind, [floats(p) for p in parts], rows, props), how


def agree(ctx, g, m, what):
    ctx.eq(len(g), len(m.parts), what + ": number of members")
    ctx.eq(part_coords(g, m.kind), m.parts, what + ": coordinates")
    ctx.eq(len(g.data), len(m.rows), what + ": number of attribute rows")
    fields = set(m.rows[0]) if m.rows else None
    if fields is not None:
        ctx.eq(set(g.data.fields), fields, what + ": fields")
        for f in fields:
            ctx.eq(list(g.d[f]), [r[f] for r in m.rows], what + ": column")
            ctx.eq(list(g.data.getfield(f)), [r[f] for r in m.rows], what + ": column")
    n = 0
    for i, p in enumerate(g):
        ctx.eq(member_coords(p, m.kind), m.parts[i], what + ": coordinates of a member")
        ctx.eq(dict(p.properties), dict(m.rows[i], **m.props), what + ": attributes of a member")
        ctx.check(p.crs == g.crs, what + ": coordinate system of a member")
        n += 1
    ctx.eq(n, len(m.parts), what + ": members met by iterating")
    if m.rows:
        i = ctx.rng.randrange(-len(m.rows), len(m.rows))
        if i >= 0:
            ctx.eq(dict(g.d[i]), m.rows[i], what + ": row")
        ctx.eq(dict(g.data.get(i)), m.rows[i], what + ": row of the table")


@scenario(quick=1200, thorough=30000, need={"Multipoint": 200, "Multiline": 200, "Multipolygon": 200, "slice": 300, "merge": 200})
def members(ctx):
    """a history of operations on a multipart geometry"""
    rng = ctx.rng
    kind = rng.choice(list(CLS))
    z = rng.random() < 0.3
    fields = rng.sample(FIELDS, rng.choice([0, 1, 2, 3]))
    n = rng.choice([1, 2, 3, 7, 55, 120])
    g, m, how = build(ctx, rng, kind, z, n, fields)
    if how in ("parts",) and kind == "Multipolygon" and not any(m.rows):
        raise Skip()                                       # see the scenario no_common_properties
    ctx.note(kind=kind, z=z, n=n, fields=fields, how=how)
    agree(ctx, g, m, "constructed from " + how)
    hist = [how]
    for _ in range(rng.randrange(1, 6)):
        op = rng.choice(["slice", "merge", "set", "setpoint", "column", "bbox", "shift", "copy", "addcolumn"])
        hist.append(op)
        ctx.note(op=op)
        k = len(m.parts)
        if op == "slice" and k:
            a, b = sorted([rng.randrange(-k - 1, k + 2), rng.randrange(-k - 1, k + 2)])
            s = slice(rng.choice([a, None]), rng.choice([b, None]), rng.choice([None, 1, 2, 3]))
            if rng.random() < 0.4:
                s = slice(rng.choice([None, rng.randrange(-k - 1, k + 2)]), rng.choice([None, rng.randrange(-k - 1, k + 2)]),
                          rng.choice([-1, -2, -3, 1, None]))
            src, srcm = g, Model(kind, list(m.parts), [dict(r) for r in m.rows], m.props)
            g = g[s]
            m = Model(kind, m.parts[s], [dict(r) for r in m.rows[s]], m.props)
            agree(ctx, g, m, "slice")
            agree(ctx, src, srcm, "source of a slice")
            ctx.event("slice")
        elif op == "merge" and m.rows:
            others = []
            flat = z and rng.random() < 0.3      # one of them without third coordinates
            for _ in range(rng.randrange(1, 3)):
                oz = z and not (flat and not others)
                if rng.random() < 0.5:
                    part = rnd_part(rng, kind, oz)
                    row = {f: value(rng, f) for f in (list(m.rows[0]) if m.rows and rng.random() < 0.7 else FIELDS[:2])}
                    others.append((single(kind, part, row), [floats(part)], [row]))
                else:
                    o, om, _h = build(ctx, rng, kind, oz, rng.randrange(1, 5), rng.sample(FIELDS, 2))
                    if kind == "Multipolygon" and len(o.data) != len(om.parts):
                        continue
                    others.append((o, om.parts, om.rows))
            if not others:
                continue
            every = [(g, m.parts, m.rows)] + others
            rng.shuffle(every)
            if flat:
                z = False
                without = lambda q: tuple(q[:2]) if not isinstance(q[0], (list, tuple)) else type(q)(without(r) for r in q)
                every = [(e[0], [without(p) for p in e[1]], e[2]) for e in every]
                ctx.event("mixed dimensions")
            r = CLS[kind].merge(*[e[0] for e in every])
            common = set.intersection(*[set(e[2][0]) if e[2] else set() for e in every])
            keep = g, m
            g = r
            m = Model(kind, [p for e in every for p in e[1]], [{f: row[f] for f in common} for e in every for row in e[2]], {})
            agree(ctx, g, m, "merge")
            agree(ctx, keep[0], keep[1], "a merged geometry")
            ctx.event("merge")
        elif op in ("set", "setpoint") and kind == "Multipoint" and k:
            i = rng.randrange(k)
            part = rnd_part(rng, kind, z)
            if op == "set":
                g[i] = part
                m.rows[i] = {f: None for f in m.rows[i]}
            else:
                row = {f: value(rng, f) for f in FIELDS[:3]}
                g[i] = Point(part, properties=row)
                m.rows[i] = {f: row.get(f) for f in m.rows[i]}
            m.parts[i] = floats(part)
            agree(ctx, g, m, "assignment")
            ctx.event("set")
        elif op == "column" and k and m.rows and m.rows[0]:
            f = rng.choice(sorted(m.rows[0]))
            v = [value(rng, f) for _ in range(k)]
            g.data.setfield(f, v)
            for r, x in zip(m.rows, v):
                r[f] = x
            agree(ctx, g, m, "column replaced")
        elif op == "addcolumn" and k:
            v = [rng.randrange(99) for _ in range(k)]
            g.data.setfield("new", v)
            for r, x in zip(m.rows, v):
                r["new"] = x
            agree(ctx, g, m, "column added")
        elif op == "bbox" and kind == "Multipoint" and k:
            q = (-60.5, -40.25, 55.125, 70.5)
            src, srcm = g, m
            g = g.within_bbox(q)
            ix = [i for i, p in enumerate(m.parts) if q[0] < p[0] < q[2] and q[1] < p[1] < q[3]]
            if not ix:
                g = src
                continue
            m = Model(kind, [m.parts[i] for i in ix], [dict(m.rows[i]) for i in ix], m.props)
            agree(ctx, g, m, "subset by a box")
        elif op == "shift" and k:
            src, srcm = g, m
            g = g.apply_transform(np.array([[1.0, 0, 0], [0, 1.0, 0]]))
            m = Model(kind, list(m.parts), [dict(r) for r in m.rows], m.props)
            agree(ctx, g, m, "transformed")
            # the copy's attributes are its own
            v = ["changed"] * k
            g.data[0] = tuple("changed" for _ in g.data._fields)
            m.rows[0] = {f: "changed" for f in m.rows[0]}
            agree(ctx, src, srcm, "source of a transformed geometry")
            agree(ctx, g, m, "transformed and edited")
        elif op == "copy" and k:
            h = CLS[kind]([p for p in g], crs=g.crs) if (kind != "Multipolygon" or any(m.rows) or m.props) else None
            if h is not None:
                agree(ctx, h, Model(kind, m.parts, [dict(r, **m.props) for r in m.rows], {}), "rebuilt from its members")
    ctx.event(kind)
    ctx.distinct(kind, z, m.parts[:5], hist)


@scenario(quick=30, thorough=300, need={"point": 5, "line": 5, "polygon": 3})
def no_common_properties(ctx):
    """members of a collection made of parts that share no property"""
    rng = ctx.rng
    kind = rng.choice(list(CLS))
    n = rng.randrange(1, 9)
    parts = [rnd_part(rng, kind, False) for _ in range(n)]
    props = [rng.choice([{}, {"p%d" % i: 1}]) for i in range(n)] if n > 1 else [{}]
    g = CLS[kind]([single(kind, p, r) for p, r in zip(parts, props)])
    if n > 1 and all(p == props[0] for p in props) and props[0]:
        raise Skip()
    ctx.note(kind=kind, parts=parts)
    ctx.event({"Multipoint": "point", "Multiline": "line", "Multipolygon": "polygon"}[kind])
    if kind == "Multipolygon":
        try:
            g[0]
        except IndexError:
            ctx.check(False, "no member of a Multipolygon made of Polygons without common properties can be reached",
                      tag="KF-multipolygon-without-data")
    agree(ctx, g, Model(kind, [floats(p) for p in parts], [{} for _ in parts], {}), "constructed from parts without common properties")


def moved(part, f):
    if isinstance(part, tuple):
        return T2(f(part))
    return [moved(p, f) for p in part]


def near_part(rng, kind, f):
    pt = lambda: T2(f(other_datums.near(rng)))
    if kind == "Multipoint":
        return pt()
    if kind == "Multiline":
        return [pt() for _ in range(rng.randrange(2, 5))]
    return [[pt() for _ in range(rng.randrange(3, 6))] for _ in range(rng.randrange(1, 3))]


def apart(a, b):
    if isinstance(a, tuple):
        return max(abs(p - q) for p, q in zip(a, b)) if len(a) == len(b) else 1e9
    return max([apart(p, q) for p, q in zip(a, b)] + [0.0]) if len(a) == len(b) else 1e9


@scenario(quick=240, thorough=4000, need={"other_system": 150})
def other_systems(ctx):
    """collections made of members on different datums: each moves to the system of the collection and keeps its row"""
    rng = ctx.rng
    kind = rng.choice(list(CLS))
    n = rng.randrange(2, 6)
    items, parts, rows = [], [], []
    for _ in range(n):
        s = rng.choice(other_datums.SYSTEMS)
        f = other_datums.mover(LonLatWGS84, s)
        if rng.random() < 0.6:
            p, row = near_part(rng, kind, f), {"a": rng.randrange(99), "b": "x%d" % rng.randrange(9)}
            items.append((single(kind, p, row, crs=s), s, [p], [row]))
        else:
            P = [near_part(rng, kind, f) for _ in range(rng.randrange(1, 4))]
            R = [{"a": rng.randrange(99), "b": "x%d" % rng.randrange(9)} for _ in P]
            items.append((CLS[kind](P, data={k: [r[k] for r in R] for k in "ab"}, crs=s), s, P, R))
    given = rng.random() < 0.5
    to = rng.choice(other_datums.SYSTEMS) if given else items[0][1]
    ctx.note(kind=kind, systems=[i[1].name for i in items], to=to.name, given=given, parts=[i[2] for i in items])

    def compare(g, items, what):
        want = [moved(p, other_datums.mover(s, to)) if s is not to else p for _, s, P, _ in items for p in P]
        ctx.check(g.crs == to, what + ": coordinate system")
        got = part_coords(g, kind)
        k = 1e-3 if isinstance(to, ProjectedCRS) else 1e-8
        ctx.check(len(got) == len(want) and apart(got, want) < k, what + ": coordinates", got=got[:4], want=want[:4])
        R = [r for i in items for r in i[3]]
        ctx.eq([dict(p.properties) for p in g], R, what + ": attributes")
    compare(CLS[kind].merge(*[i[0] for i in items], **({"crs": to} if given else {})), items, "merge of geometries on different datums")
    ones = [i for i in items if i[0]._geotype == kind[5:].capitalize()]
    if ones and (given or ones[0][1] is to):
        compare(CLS[kind]([i[0] for i in ones], **({"crs": to} if given else {})), ones, "collection of geometries on different datums")
        ctx.event("constructed")
    if kind == "Multipoint":
        if len(items) > 1 and ones:
            m = Multipoint([(0.0, 0.0)] * 3, data={"a": [1, 2, 3], "b": ["p", "q", "r"]}, crs=to)
            k = rng.randrange(3)
            m[k] = ones[0][0]
            w = moved(ones[0][2][0], other_datums.mover(ones[0][1], to)) if ones[0][1] is not to else ones[0][2][0]
            ctx.check(apart(T2(m[k].vertex()), w) < (1e-3 if isinstance(to, ProjectedCRS) else 1e-8), "assigned a point on another datum", got=m[k].vertex(), want=w)
            ctx.eq({f: m[k].properties[f] for f in "ab"}, ones[0][3][0], "attributes of an assigned point")
            ctx.event("assigned")
    ctx.event("other_system")
    ctx.distinct(kind, [i[1].name for i in items], [i[2] for i in items])


@scenario(quick=200, thorough=2000, need={"refused": 100})
def refused(ctx):
    """columns or lists that do not have one entry per member are refused"""
    rng = ctx.rng
    kind = rng.choice(list(CLS))
    n = rng.randrange(1, 9)
    parts = [rnd_part(rng, kind, False) for _ in range(n)]
    k = rng.choice([n + 1, n + 3, n - 1 if n > 2 else n + 2])
    bad = rng.choice([{"a": [1] * k}, {"ok": [1] * n, "a": [1] * k}, [1] * k])
    ctx.raises(ValueError, lambda: CLS[kind](parts, data=bad), "data of another length is accepted")
    t = Table({"a": list(range(n))})
    ctx.raises(ValueError, lambda: t.setfield("b", [1] * k), "column of another length is accepted")
    ctx.raises(KeyError, lambda: t.getfield("zzz"), "a field that does not exist")
    ctx.eq(list(t.getfield("a")), list(range(n)), "table after refusals")
    ctx.event("refused")
    ctx.distinct(kind, n, k)


@scenario(quick=1500, thorough=40000, need={"setfield": 500, "extend": 300, "updated": 300, "merge": 200})
def tables(ctx):
    """a history of edits of a table"""
    rng = ctx.rng
    fields = rng.sample(FIELDS, rng.randrange(1, 5))
    n = rng.choice([1, 2, 5, 30])
    rows = [{f: value(rng, f) for f in fields} for _ in range(n)]

    def make(rows, fields):
        k = rng.randrange(3)
        if k == 0:
            return Table({f: [r[f] for r in rows] for f in fields})
        if k == 1:
            return Table([tuple(r[f] for f in fields) for r in rows], fields=fields)
        return Table(Table({f: tuple(r[f] for r in rows) for f in fields}))

    def same(t, rows, fields, what):
        ctx.eq(len(t), len(rows), what + ": length")
        ctx.eq(set(t.fields), set(fields), what + ": fields")
        for f in fields:
            ctx.eq(list(t.getfield(f)), [r[f] for r in rows], what + ": column")
            ctx.check(f in t, what + ": field not found")
        for i in range(len(rows)):
            ctx.eq(dict(t.get(i)), rows[i], what + ": row")
        ctx.check("nosuch" not in t, what + ": field that is not there")

    t = make(rows, fields)
    ctx.note(rows=rows[:10], fields=fields)
    same(t, rows, fields, "new table")
    hist = []
    for _ in range(rng.randrange(2, 9)):
        op = rng.choice(["setfield", "extend", "updated", "merge", "setrow", "delrow", "slice", "copy", "json"])
        hist.append(op)
        ctx.note(op=op)
        n = len(rows)
        if op == "setfield" and n:
            f = rng.choice(FIELDS + ["new"])
            v = [value(rng, f) for _ in range(n)]
            t.setfield(f, v)
            if f not in fields:
                fields = fields + [f]
            for r, x in zip(rows, v):
                r[f] = x
        elif op == "extend":
            of = rng.sample(FIELDS, rng.randrange(1, 4))
            orows = [{f: value(rng, f) for f in of} for _ in range(rng.randrange(1, 4))]
            o = make(orows, of)
            t.extend(o)
            rows = rows + [{f: r.get(f) for f in fields} for r in orows]
            same(o, orows, of, "table that was appended")
        elif op == "updated":
            of = rng.sample(FIELDS + ["new", "other"], rng.randrange(1, 4))
            orows = [{f: value(rng, f) for f in of} for _ in range(n)]
            if not n:
                continue
            o = make(orows, of) if rng.random() < 0.5 else {f: [r[f] for r in orows] for f in of}
            old, oldrows, oldfields = t, [dict(r) for r in rows], list(fields)
            t = t.updated(o)
            rows = [dict(r, **s) for r, s in zip(rows, orows)]
            fields = fields + [f for f in of if f not in fields]
            same(old, oldrows, oldfields, "table that was updated from")
        elif op == "merge":
            of = list(set(rng.sample(FIELDS, 2) + fields[:1]))
            o = [{f: value(rng, f) for f in of} for _ in range(rng.randrange(1, 4))]
            d = {f: value(rng, f) for f in fields + ["q"]}
            items = [(t, rows, fields), (make(o, of), o, of), (d, [d], list(d))]
            rng.shuffle(items)
            r = merge([i[0] for i in items])
            common = [f for f in fields if f in of]
            want = [{f: row[f] for f in common} for i in items for row in i[1]]
            same(r, want, common, "merge")
            same(t, rows, fields, "merged table")
        elif op == "setrow" and n:
            i = rng.randrange(n)
            rows[i] = {f: value(rng, f) for f in fields}
            t[i] = tuple(rows[i][f] for f in t._fields)
        elif op == "delrow" and n > 1:
            i = rng.randrange(n)
            del rows[i]
            del t[i]
        elif op == "slice" and n:
            a, b = rng.randrange(-n, n), rng.randrange(-n, n + 1)
            s = slice(a, b, rng.choice([None, 1, 2, -1]))
            got = Indexer(t)[s]
            ctx.eq({f: list(got[f]) for f in got}, {f: [r[f] for r in rows[s]] for f in fields}, "rows of a slice")
            ctx.eq(list(Indexer(t)[fields[0]]), [r[fields[0]] for r in rows], "column by Indexer")
            ctx.eq(Indexer(t)[n - 1], rows[n - 1], "row by Indexer")
        elif op == "copy":
            c = Table(t)
            ctx.check(c == t and not (c != t), "a copied table differs")
            ctx.check(t != Table(list(t.data), fields=["!" + f for f in t._fields]), "tables of the same rows under other names are equal")
            if n:
                d = Table(t)
                d[n - 1] = tuple("!" for _ in fields)
                ctx.check(d != t and not (d == t), "tables of different rows are equal")
            c.extend(make([{f: 1 for f in fields}], fields))
            c[0] = tuple("z" for _ in fields)
            c.setfield(fields[0], [9] * len(c))
        elif op == "json":
            j = json.loads(t.asjson())
            ctx.eq(set(j), set(fields), "fields of the JSON string")
            for f in fields:
                ctx.eq(j[f][0], [r[f] for r in rows], "column of the JSON string")
        same(t, rows, fields, op)
        ctx.event(op)
    ctx.distinct(rows[:5], hist)


@scenario(quick=100, thorough=500, need={"cases": 80})
def scalars(ctx):
    """tables of scalars, and type checks"""
    rng = ctx.rng
    v = rng.choice([5, 2.5, "abc"])
    t = Table(v)
    ctx.eq((len(t), list(t.getfield("value"))), (1, [v]), "table from a scalar")
    L = [rng.randrange(99) for _ in range(rng.randrange(1, 6))]
    t = Table(L)
    ctx.eq(list(t.getfield("value")), L, "table from a list")
    dt = rng.choice([np.int8, np.int16, np.int32, np.int64, np.float32, np.float64])
    A = np.array(L).astype(dt)
    j = json.loads(Table({"n": list(A), "p": L}).asjson())
    ctx.eq((j["n"][0], j["p"][0]), ([float(a) for a in A], L), "columns of numpy numbers in a JSON string")
    t = Table({"a": v, "b": 3})
    ctx.eq((len(t), t.get(0)), (1, {"a": v, "b": 3}), "table from a dictionary of scalars")
    t = Table(size=len(L))
    ctx.eq((len(t), t.get(0), set(t.fields)), (len(L), {}, set()), "table of a size")
    Table({"a": L}, checktypes=True)
    ctx.raises(TypeError, lambda: Table({"a": [1] + ["x"]}, checktypes=True), "mixed types accepted")
    ctx.event("cases")
    ctx.distinct(v, L)
