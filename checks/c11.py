#!/opt/venv/bin/python
"""C11: exported fields mirror the child's and act on it."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import manrig
from manrig import BC, Client, FieldPart, PortsPart, ok

import cothread
from malcolm.core import Process, StringMeta, Table, group_tag, camel_to_title
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.scanning.controllers import RunnableController


class Rig:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.process = Process("proc")
        self.n = rng.randrange(1, 4)
        self.fields, self.ctrl = {}, {}
        for i in range(self.n):
            metas = mh.make_metas(rng)
            keep = rng.sample(list(metas), rng.randrange(3, len(metas)))
            if "aTable" not in keep:
                keep.append("aTable")
            c = rng.choice([BC.StatefulController, BC.BasicController])("CHILD%d" % i)
            f = FieldPart("fields").prepare(rng, {k: metas[k] for k in keep}, readonly=0.15)
            c.add_part(f)
            self.fields["p%d" % i], self.ctrl["p%d" % i] = f, c
            self.process.add_controller(c)
        self.mgr = rng.choice([BC.ManagerController, RunnableController])("MGR", m.tmpdir())
        for i in range(self.n):
            self.mgr.add_part(
                ChildPart(
                    "p%d" % i, mri="CHILD%d" % i, initial_visibility=True,
                    stateful=isinstance(self.ctrl["p%d" % i], BC.StatefulController),
                )
            )
        metas = mh.make_metas(rng)
        own = {"own" + k[0].upper() + k[1:]: metas[k] for k in rng.sample(list(metas), 2)}
        self.ownpart = FieldPart("own").prepare(rng, own, methods=False)
        self.mgr.add_part(self.ownpart)
        self.process.add_controller(self.mgr)
        manrig.start(self.process)
        m.defer(mh.stop_process, self.process)
        self.cl = Client(self.process)
        self.own = self.cl.get("MGR", "meta", "fields")
        self.exports = []  # [(part, attr, name)]
        self.visible = {p: True for p in self.fields}
        self.extra = {}  # part -> {name: model} of fields that come and go
        self.subs = {}  # export name -> (request, replayed view box)

    def mri(self, part):
        return "CHILD" + part[1:]

    def live(self):
        """The exports that should be there now"""
        ret = []
        for part, attr, name in self.exports:
            if self.visible[part] and attr in self.cl.get(self.mri(part), "meta", "fields"):
                ret.append((part, attr, name))
        return ret

    def judge(self, what):
        m, cl = self.m, self.cl
        live = self.live()
        fields = cl.get("MGR", "meta", "fields")
        m.count("judged_states")
        m.check(
            fields == self.own + [n for _, _, n in live],
            "fields",
            lambda: "after %s: %s, expected %s then %s" % (what, fields, self.own, live),
        )
        block = cl.get("MGR")
        m.check(
            [x for x in block if x not in ("typeid", "meta")] == fields, "served", lambda: "%s" % list(block)
        )
        for part, attr, name in live:
            a, b = cl.get(self.mri(part), attr), block.get(name)
            if not m.check(b is not None, "missing", lambda: "%s after %s" % (name, what)):
                continue
            m.check(a["typeid"] == b["typeid"], "typeid", name)
            m.check(b["meta"]["label"] == camel_to_title(name), "label", lambda: "%s %s" % (name, b["meta"]))
            skip = ("label", "tags", "writeable")
            for k in a["meta"]:
                if k in skip:
                    continue
                m.check(
                    a["meta"][k] == b["meta"][k],
                    "meta",
                    lambda: "after %s %s.%s %s: %s, export %s" % (what, part, attr, k, a["meta"][k], b["meta"][k]),
                )
            want = [t for t in a["meta"]["tags"] if not t.startswith(("config:", "group:"))]
            m.check(b["meta"]["tags"] == want, "tags", lambda: "%s %s" % (want, b["meta"]["tags"]))
            if "value" in a:
                m.count("attributes_compared")
                for k in ("value", "alarm", "timeStamp"):
                    m.check(
                        a[k] == b[k],
                        "mirror",
                        lambda: "after %s %s.%s %s: %s, export %s" % (what, part, attr, k, a[k], b[k]),
                    )
            else:
                m.count("methods_compared")
                for k in ("took", "returned"):
                    for kk in ("value", "present"):
                        m.check(
                            a[k][kk] == b[k][kk] or self.refused == name,
                            "log",
                            lambda: "after %s %s.%s %s: %s, export %s" % (what, part, attr, k, a[k], b[k]),
                        )

    refused = None

    def put_exports(self, rows):
        return self.cl.put(
            ["MGR", "exports", "value"], dict(source=[r[0] for r in rows], export=[r[1] for r in rows])
        )

    def children(self):
        return {p: self.cl.get(self.mri(p)) for p in self.fields}

    # ---------------------------------------------------------------- actions
    def do_exports(self):
        m, rng = self.m, self.rng
        choices = self.cl.get("MGR", "exports", "meta", "elements", "source", "choices")
        want = []
        for p in self.fields:
            want += ["%s.%s" % (p, f) for f in self.cl.get(self.mri(p), "meta", "fields")]
        m.check(choices == want, "choices", lambda: "%s %s" % (choices, want))
        src = rng.sample(choices, min(len(choices), rng.randrange(0, 7)))
        if src and rng.random() < 0.2:
            src.append(rng.choice(src))
        keep = [e for e in self.exports if "%s.%s" % e[:2] in choices and rng.random() < 0.4]
        names = ["exp" + x for x in "ABCDEFGHIJKLMNOP"]
        used = {e[2] for e in keep}
        names = [n for n in names if n not in used]
        rng.shuffle(names)
        rows = list(keep)
        for s in src:
            p, a = s.rsplit(".", 1)
            name = names.pop() if names else None
            if rng.random() < 0.2 and a not in self.own and a not in [r[2] for r in rows]:
                name = a
            if name:
                rows.append((p, a, name))
        rng.shuffle(rows)
        before = self.children()
        r = self.put_exports([("%s.%s" % (p, a), n) for p, a, n in rows])
        if not m.check(ok(r), "exports-refused", lambda: "%s %s" % (rows, r)):
            return "exports"
        self.exports = rows
        after = self.children()
        m.check(before == after, "child-affected", lambda: "by exports %s" % rows)
        v = self.cl.get("MGR", "exports", "value")
        m.check(list(zip(v["source"], v["export"])) == [("%s.%s" % (p, a), n) for p, a, n in rows], "exports", "")
        m.count("exports_set")
        m.distinct("exports", len(rows), len({r[0] for r in rows}))
        return "exports"

    def do_bad_exports(self):
        m, rng = self.m, self.rng
        before = (self.cl.get("MGR"), self.children())
        good = [("%s.%s" % (p, a), n) for p, a, n in self.exports]
        src = "%s.%s" % ("p0", rng.choice(list(self.fields["p0"].models)))
        kind = rng.choice(["missing", "part", "camel", "empty", "taken", "twice", "meta", "nodot", "unnamed"])
        bad = {
            "missing": [("p0.noSuchField", "expZ")],
            "part": [("nopart.health", "expZ")],
            "nodot": [("p0", "expZ")],
            "camel": [(src, rng.choice(["Exp", "exp_a", "1exp", "exp a", "exp.a", "e-"]))],
            "empty": [("p0.health", "")],
            "taken": [(src, rng.choice(self.own))],
            "meta": [(src, "meta")],
            # No name is the name of the field
            "unnamed": rng.choice(
                [
                    [(src, ""), (src, "")],
                    [(src, ""), ("p0.health", src[3:])],
                    [("p0.health", src[3:]), (src, "")],
                    [("p0.health", "")],
                ]
            ),
            "twice": [(src, "expZ"), (rng.choice([src, "p0.health"]), "expZ")],
        }[kind]
        r = self.put_exports(good + bad)
        m.count("bad_" + kind)
        m.check(r is not None and not ok(r), "bad-accepted", lambda: "%s: %s" % (kind, bad))
        after = (self.cl.get("MGR"), self.children())
        m.check(before == after, "bad-changed", lambda: "%s %s" % (kind, bad))
        m.distinct("bad", kind)
        return "bad " + kind

    def do_child(self):
        rng = self.rng
        part = rng.choice(list(self.fields))
        live = self.live()
        if live and rng.random() < 0.7:
            part = rng.choice(live)[0]
        f = self.fields[part]
        mine = [a for p, a, _ in live if p == part and a in f.models]
        name = rng.choice(mine) if mine and rng.random() < 0.8 else rng.choice(list(f.models))
        a, gen = f.models[name], f.gens[name]
        k = rng.choice(["set", "set", "put", "alarm", "full", "column", "description", "choices", "squashed"])
        if k == "column" and name != "aTable":
            k = "full"
        if k == "choices" and name not in ("aChoice", "aTable", "choiceArray"):
            k = "set"
        if k == "set":
            a.set_value(gen(rng))
        elif k == "put":
            if name not in f.readonly:
                self.cl.put([self.mri(part), name, "value"], gen(rng))
        elif k == "alarm":
            a.set_alarm(mh.gen_alarm(rng))
        elif k == "full":
            a.set_value(gen(rng), alarm=mh.gen_alarm(rng), ts=mh.gen_ts(rng))
        elif k == "column":
            n = len(a.value.name)
            new = mh.gen_table(rng, n)
            cols = {c: a.value[c] for c in a.value.call_types}
            for c in rng.sample(list(cols), rng.randrange(1, len(cols) + 1)):
                cols[c] = new[c]
            a.set_value(cols)
            self.m.count("column_changes")
        elif k == "description":
            a.meta.set_description("description %d" % rng.randrange(1000))
        elif k == "choices":
            extra = mh.CHOICES + ["extra%d" % rng.randrange(100)]
            meta = a.meta.elements["pick"] if name == "aTable" else a.meta
            meta.set_choices(extra)
            self.m.count("choices_changes")
        else:
            with self.ctrl[part].changes_squashed:
                for n2 in rng.sample(list(f.models), 3):
                    f.models[n2].set_value(f.gens[n2](rng))
                a.set_alarm(mh.gen_alarm(rng))
        self.m.distinct("child", k, name)
        return "child " + k + " " + name

    def do_put(self):
        """Through an export"""
        m, rng = self.m, self.rng
        live = [e for e in self.live() if e[1] in self.fields[e[0]].models]
        if not live:
            return "nothing"
        part, attr, name = rng.choice(live)
        f = self.fields[part]
        path = ["MGR", name] + (["value"] if rng.random() < 0.8 else [])
        before, others = len(f.puts), {p: len(x.puts) for p, x in self.fields.items() if p != part}
        was = mh.norm(f.models[attr].value)
        if rng.random() < 0.25 and attr in ("aChoice", "anEnum") or attr.startswith("num") and rng.random() < 0.2:
            r = self.cl.put(path, "not possible")
            m.count("put_bad")
            m.check(not ok(r), "bad-put", lambda: "%s %s" % (name, r))
            m.check(len(f.puts) == before and mh.norm(f.models[attr].value) == was, "bad-put-changed", name)
            return "bad put"
        v = f.gens[attr](rng)
        want = mh.norm(f.models[attr].meta.validate(v))
        r = self.cl.put(path, v)
        if attr in f.readonly:
            m.count("put_readonly")
            m.check(not ok(r), "readonly-put", lambda: "%s.%s %s" % (part, attr, r))
            m.check(len(f.puts) == before and mh.norm(f.models[attr].value) == was, "readonly-changed", name)
            return "readonly put"
        m.count("puts_through")
        m.check(ok(r), "put", lambda: "%s.%s %s: %s" % (part, attr, v, r))
        m.check(
            f.puts[before:] == [(attr, want)],
            "put-not-passed",
            lambda: "%s: %s, child got %s" % (attr, want, f.puts[before:]),
        )
        m.check(
            all(len(self.fields[p].puts) == n for p, n in others.items()), "put-elsewhere", lambda: name
        )
        m.check(mh.norm(f.models[attr].value) == want, "put-value", lambda: attr)
        m.distinct("put", attr)
        return "put " + attr

    def do_post(self):
        m, rng = self.m, self.rng
        live = [e for e in self.live() if e[1] in ("nothing", "add", "fail")]
        if not live:
            return "nothing"
        part, attr, name = rng.choice(live)
        f = self.fields[part]
        before = len(f.calls)
        params, want, result, err = {}, None, None, None
        if attr == "add":
            params = dict(num=rng.randrange(-5, 1000))
            if rng.random() < 0.6:
                params["name"] = mh.gen_string(rng)
            want = dict(name="dflt")
            want.update(params)
            result = "%s+%d" % (want["name"], want["num"])
            if rng.random() < 0.15:
                params, want, err = {}, None, ""
        elif attr == "fail":
            params = dict(name=mh.gen_string(rng))
            want, err = params, "failed with " + params["name"]
        else:
            want = {}
        if rng.random() < 0.1:
            params, want, err = dict(params, nosuch=3), None, ""
        r = self.cl.post(["MGR", name], **params)
        m.count("posts_through")
        got = [c[1] for c in f.calls[before:]]
        m.check(
            got == ([want] if want is not None else []),
            "call",
            lambda: "%s %s: child got %s" % (attr, params, got),
        )
        if err is not None:
            m.check(not ok(r), "call-accepted", lambda: "%s %s %s" % (attr, params, r))
            m.check(err in str(getattr(r, "message", "")), "call-error", lambda: "%s: %s" % (err, r))
        else:
            m.check(ok(r) and mh.norm(r.value) == result, "result", lambda: "%s: %s" % (result, r))
        self.refused = name if err is not None else None
        m.distinct("post", attr, len(params), err is None)
        return "post " + attr

    def do_layout(self):
        m, rng = self.m, self.rng
        part = rng.choice(list(self.fields))
        vis = rng.random() < 0.6
        r = self.cl.put(
            ["MGR", "layout", "value"],
            dict(name=[part], mri=[""], x=[1.0], y=[2.0], visible=[vis]),
        )
        if m.check(ok(r), "layout", lambda: "%s" % r):
            self.visible[part] = vis
            m.count("hidden" if not vis else "shown")
        return "layout %s %s" % (part, vis)

    def do_fields(self):
        """A field of a child comes or goes"""
        rng = self.rng
        part = rng.choice(list(self.fields))
        extra = self.extra.setdefault(part, {})
        name = rng.choice(["xtraA", "xtraB"])
        if name in extra:
            self.ctrl[part]._block.remove_endpoint(name)
            del extra[name]
            what = "removed"
        else:
            a = StringMeta("x", tags=[group_tag("g")]).create_attribute_model("x")
            self.ctrl[part].add_block_field(name, a, a.set_value, False)
            extra[name] = a
            what = "added"
            if rng.random() < 0.5:
                mh.yields(30)
                rows = self.exports + [(part, name, "exq" + rng.choice("ABC"))]
                if len({r[2] for r in rows}) == len(rows) and all(
                    a in self.cl.get(self.mri(p), "meta", "fields") for p, a, _ in rows
                ):
                    r = self.put_exports([("%s.%s" % (p, a), n) for p, a, n in rows])
                    if self.m.check(ok(r), "exports-refused", lambda: "%s" % r):
                        self.exports = rows
        self.m.count("field_" + what)
        return "field " + what


def mirror(m, rng, idx):
    rig = Rig(m, rng)
    rig.judge("start")
    rig.do_exports()
    rig.judge("exports")
    hist = []
    for _ in range(rng.randrange(15, 35)):
        rig.refused = rig.refused
        act = rng.choice(
            [rig.do_exports, rig.do_bad_exports, rig.do_child, rig.do_child, rig.do_child, rig.do_child,
             rig.do_put, rig.do_put, rig.do_post, rig.do_post, rig.do_layout, rig.do_fields]
        )
        what = act()
        mh.yields(30)
        hist.append(what)
        rig.judge(hist[-4:])
    m.sample(dict(history=hist[:12], exports=rig.exports))


def follow(m, rng, idx):
    """A subscriber of the block sees the child's changes as they are made"""
    rig = Rig(m, rng)
    part = rng.choice(list(rig.fields))
    f = rig.fields[part]
    attrs = rng.sample(list(f.models), min(3, len(f.models)))
    rows = [("%s.%s" % (part, a), "exp" + "ABC"[i]) for i, a in enumerate(attrs)]
    m.require(ok(rig.put_exports(rows)), "exports", "")
    seen = {a: [] for a in attrs}
    subs = {}
    for i, a in enumerate(attrs):
        box = seen[a]
        subs[a] = rig.cl.subscribe(
            ["MGR", "exp" + "ABC"[i], "value"], lambda r, box=box: box.append(mh.norm(getattr(r, "value", None)))
        )
    mh.settle(lambda: all(seen.values()))
    want = {a: [mh.norm(f.models[a].value)] for a in attrs}
    for _ in range(15):
        a = rng.choice(attrs)
        v = f.gens[a](rng)
        f.models[a].set_value(v)
        if rng.random() < 0.5:
            mh.yields(rng.randrange(0, 3))
        want[a].append(mh.norm(f.models[a].value))
    mh.yields(30)
    for a in attrs:
        m.count("followed", len(want[a]))
        m.check(seen[a] == want[a], "follow", lambda: "%s: %s, saw %s" % (a, want[a], seen[a]))
        m.distinct("follow", a)


def severed(m, rng, idx):
    """Hiding a child disconnects it from the others, and nothing else"""
    process = Process("proc")
    n = rng.randrange(2, 5)
    ports = {}
    for i in range(n):
        c = BC.BasicController("CHILD%d" % i)
        ports["p%d" % i] = PortsPart("ports").prepare(rng, "SRC%d" % i, 3)
        c.add_part(ports["p%d" % i])
        process.add_controller(c)
    mgr = BC.ManagerController("MGR", m.tmpdir())
    for i in range(n):
        mgr.add_part(ChildPart("p%d" % i, mri="CHILD%d" % i, initial_visibility=True, stateful=False))
    process.add_controller(mgr)
    manrig.start(process)
    m.defer(mh.stop_process, process)
    cl = Client(process)
    vis = {p: True for p in ports}

    def layout(**changes):
        names = list(vis)
        vis.update(changes)
        return ok(
            cl.put(
                ["MGR", "layout", "value"],
                dict(name=names, mri=[""] * n, x=[0.0] * n, y=[0.0] * n, visible=[vis[p] for p in names]),
            )
        )

    m.require(layout(), "layout", "")
    for _ in range(8):
        for p, part in ports.items():
            for s, a in part.sinks.items():
                if rng.random() < 0.6:
                    a.set_value(rng.choice(["", "OTHER"] + ["SRC%d" % i for i in range(n)]))
        was = {(p, s): a.value for p, part in ports.items() for s, a in part.sinks.items()}
        before = dict(vis)
        changes = {p: rng.random() < 0.5 for p in rng.sample(list(vis), rng.randrange(1, n + 1))}
        m.require(layout(**changes), "layout", lambda: "%s" % changes)
        m.count("layouts")
        gone = [p for p in vis if before[p] and not vis[p]]
        for (p, s), v in was.items():
            if p in gone or v in ["SRC" + q[1:] for q in gone if q != p]:
                want = ""
                if v:
                    m.count("severed")
            else:
                want = v
            now = ports[p].sinks[s].value
            m.check(now == want, "severed", lambda: "%s.%s was %r, is %r, hidden %s" % (p, s, v, now, gone))
        m.distinct("severed", n, len(gone))


def nested(m, rng, idx):
    """Exports of exports, while the exports of the middle one change"""
    process = Process("proc")
    metas = mh.make_metas(rng)
    keep = rng.sample(list(metas), 6)
    leaf = BC.StatefulController("LEAF")
    f = FieldPart("fields").prepare(rng, {k: metas[k] for k in keep}, readonly=0.0)
    leaf.add_part(f)
    mid = BC.ManagerController("MID", m.tmpdir())
    mid.add_part(ChildPart("leaf", mri="LEAF", initial_visibility=True))
    top = BC.ManagerController("TOP", m.tmpdir())
    top.add_part(ChildPart("mid", mri="MID", initial_visibility=True))
    for c in (leaf, mid, top):
        process.add_controller(c)
    manrig.start(process)
    m.defer(mh.stop_process, process)
    cl = Client(process)
    own = cl.get("TOP", "meta", "fields")
    now = {"MID": [], "TOP": []}

    def export(mri, part, rows):
        r = cl.put(
            [mri, "exports", "value"],
            dict(source=["%s.%s" % (part, a) for a, _ in rows], export=[n for _, n in rows]),
        )
        if m.check(ok(r), "exports-refused", lambda: "%s %s: %s" % (mri, rows, r)):
            now[mri] = rows

    hist = []
    for _ in range(18):
        k = rng.choice(["mid", "mid", "top", "value", "value", "put", "post", "hide"])
        if k == "mid":
            src = rng.sample(keep + ["add", "nothing"], rng.randrange(1, 5))
            names = rng.sample(["mA", "mB", "mC", "mD"], len(src))
            rows = list(zip(src, names))
            # Those that the top one still refers to must not make it fail
            export("MID", "leaf", rows)
        elif k == "top":
            have = [n for _, n in now["MID"]] + ["design", "health"]
            if not mid_visible(cl):
                have = ["design", "health"]
            src = rng.sample(have, rng.randrange(1, len(have) + 1))
            export("TOP", "mid", [(a, "t" + a.title()) for a in src])
        elif k == "value":
            n = rng.choice(keep)
            f.models[n].set_value(f.gens[n](rng), alarm=mh.gen_alarm(rng))
        elif k == "hide":
            v = rng.random() < 0.7
            r = cl.put(
                ["MID", "layout", "value"],
                dict(name=["leaf"], mri=[""], x=[0.0], y=[0.0], visible=[v]),
            )
            m.check(ok(r), "layout", lambda: "%s" % r)
        elif k == "put":
            live = [(a, n) for a, n in now["TOP"] if n in cl.get("TOP", "meta", "fields")]
            src = dict((n, a) for a, n in now["MID"])
            live = [(src[a], n) for a, n in live if src.get(a) in keep]
            if live:
                attr, name = rng.choice(live)
                v = f.gens[attr](rng)
                want = mh.norm(f.models[attr].meta.validate(v))
                r = cl.put(["TOP", name, "value"], v)
                m.count("nested_puts")
                m.check(ok(r), "put", lambda: "%s %s" % (attr, r))
                m.check(mh.norm(f.models[attr].value) == want, "put-value", lambda: attr)
        elif k == "post":
            src = dict((n, a) for a, n in now["MID"])
            for a, n in now["TOP"]:
                if src.get(a) == "add" and n in cl.get("TOP", "meta", "fields"):
                    r = cl.post(["TOP", n], num=3, name="nn")
                    m.count("nested_posts")
                    m.check(ok(r) and r.value == "nn+3", "post", lambda: "%s" % r)
        mh.yields(60)
        hist.append(k)
        midb, topb = cl.get("MID"), cl.get("TOP")
        live = [(a, n) for a, n in now["TOP"] if a in midb]
        m.check(
            cl.get("TOP", "meta", "fields") == own + [n for _, n in live],
            "fields",
            lambda: "%s: %s, exports %s, mid has %s" % (hist, cl.get("TOP", "meta", "fields"), now["TOP"], list(midb)),
        )
        for a, n in live:
            x, y = midb[a], topb.get(n)
            if not m.check(y is not None, "missing", lambda: "%s %s" % (hist, n)):
                continue
            m.count("nested_compared")
            m.check(x["typeid"] == y["typeid"], "typeid", lambda: "%s: %s %s" % (hist, x["typeid"], y["typeid"]))
            m.check(
                x["meta"]["typeid"] == y["meta"]["typeid"] and x["meta"]["description"] == y["meta"]["description"],
                "meta",
                lambda: "%s: %s %s" % (hist, x["meta"], y["meta"]),
            )
            for k2 in ("value", "alarm", "timeStamp"):
                m.check(x.get(k2) == y.get(k2), "mirror", lambda: "%s %s: %s %s" % (hist, k2, x.get(k2), y.get(k2)))
        m.distinct("nested", k, len(live))


def mid_visible(cl):
    return cl.get("MID", "layout", "value", "visible") == [True]


def concurrent(m, rng, idx):
    """Exports changed, methods called and values set at the same time"""
    rig = Rig(m, rng)
    part = rng.choice(list(rig.fields))
    f, mri = rig.fields[part], rig.mri(part)
    attrs = rng.sample(list(f.models), 3)
    slow = rng.random() < 0.7
    old = f.calls.append

    class Calls(list):
        def append(self, x):
            list.append(self, x)
            if slow:
                mh.yields(rng.randrange(0, 6))

    f.calls = Calls()
    f.on_put = lambda *a: mh.yields(rng.randrange(0, 4)) if slow else None
    base = [("%s.add" % part, "expAdd")] + [("%s.%s" % (part, a), "exp" + "ABC"[i]) for i, a in enumerate(attrs)]
    m.require(ok(rig.put_exports(base)), "exports", "")
    done = []
    busy = []

    def user(kind, n):
        for _ in range(n):
            mh.yields(rng.randrange(0, 5))
            if kind == "exports":
                rows = base[:1] + rng.sample(base[1:], rng.randrange(0, 4))
                r = rig.put_exports(rows)
            elif kind == "call":
                r = rig.cl.post([mri, "add"], num=rng.randrange(9))
            elif kind == "through":
                r = rig.cl.post(["MGR", "expAdd"], num=rng.randrange(9))
                if r is not None and not ok(r) and "no Method" in str(r.message):
                    continue
            else:
                a = rng.choice([x for x in attrs if x not in f.readonly] or ["none"])
                if a == "none":
                    continue
                r = rig.cl.put([mri, a, "value"], f.gens[a](rng))
            m.check(r is not None, "no-answer", lambda: "%s" % kind)
            if r is None:
                return
            m.check(ok(r), "failed", lambda: "%s: %s" % (kind, r))
            m.count("concurrent_" + kind)
        done.append(kind)

    users = [rng.choice(["exports", "call", "through", "put"]) for _ in range(rng.randrange(2, 5))] + ["exports", "call"]
    for kind in users:
        busy.append(cothread.Spawn(user, kind, rng.randrange(2, 6)))
    mh.settle(lambda: len(done) == len(users), 20000)
    m.require(len(done) == len(users), "stuck", lambda: "%s of %s finished" % (done, users))
    mh.yields(50)
    v = rig.cl.get("MGR", "exports", "value")
    rig.exports = [tuple(s.rsplit(".", 1)) + (n,) for s, n in zip(v["source"], v["export"])]
    rig.refused = "expAdd"
    rig.judge("concurrent %s" % users)
    m.distinct("concurrent", tuple(sorted(users)))


check = vmon.Check(
    "C11",
    [
        vmon.Scenario("mirror", mirror, quick=240, thorough=2500, timeout=90),
        vmon.Scenario("follow", follow, quick=90, thorough=500, timeout=60),
        vmon.Scenario("nested", nested, quick=180, thorough=800, timeout=60),
        vmon.Scenario("concurrent", concurrent, quick=120, thorough=1500, timeout=60),
        vmon.Scenario("severed", severed, quick=60, thorough=400, timeout=60),
    ],
    rule="Distinct (kind of change, field), (put field), (call), (export table shape), (bad export kind)",
    required=[
        "attributes_compared", "methods_compared", "exports_set", "puts_through", "posts_through",
        "column_changes", "choices_changes", "hidden", "shown", "field_added", "field_removed",
        "followed", "severed", "nested_compared", "nested_puts", "concurrent_exports",
        "concurrent_call", "concurrent_through", "put_readonly", "put_bad",
    ]
    + ["bad_" + k for k in ("missing", "part", "camel", "empty", "taken", "twice", "meta", "nodot")],
    level="exploration",
    assumptions=[],
)
if __name__ == "__main__":
    check.main()
