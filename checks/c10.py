#!/opt/venv/bin/python
"""C10: saving and loading designs."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh
import manrig
from manrig import BC, Client, FieldPart, PortsPart, finite_metas, ok

import cothread
from malcolm.core import Process, StringMeta, config_tag
from malcolm.modules.builtin.parts import ChildPart

NAMES = ["one", "two", "designThree", "with space", "d.4"]


class Spec:
    """What the children look like, so that it can be built again"""

    def __init__(self, rng):
        self.seed = rng.random()
        self.nchild = rng.randrange(1, 4)
        self.nfields = [rng.randrange(2, 10) for _ in range(self.nchild)]
        self.visible = [rng.choice([True, True, False]) for _ in range(self.nchild)]
        self.stateful = [rng.random() < 0.5 for _ in range(self.nchild)]
        self.own = rng.random() < 0.6
        self.stages = rng.choice([(1,), (1, 2), (1, 2, 5, 11)])
        self.slow = rng.random() < 0.5


class Rig:
    def __init__(self, m, rng, spec, config_dir, mgr=None, **kwargs):
        import random

        self.m, self.spec = m, spec
        r = random.Random(spec.seed)
        self.process = Process("proc")
        self.fields, self.ports = {}, {}
        for i in range(spec.nchild):
            cls = BC.StatefulController if spec.stateful[i] else BC.BasicController
            c = cls("CHILD%d" % i)
            f = FieldPart("fields").prepare(
                r, finite_metas(r, spec.nfields[i]), stages=spec.stages
            )
            p = PortsPart("ports").prepare(r, "SRC%d" % i, 2)
            c.add_part(f)
            c.add_part(p)
            self.fields["p%d" % i], self.ports["p%d" % i] = f, p
            self.process.add_controller(c)
        self.mgr = (mgr or BC.ManagerController)("MGR", config_dir, **kwargs)
        for i in range(spec.nchild):
            self.mgr.add_part(
                ChildPart(
                    "p%d" % i,
                    mri="CHILD%d" % i,
                    initial_visibility=spec.visible[i],
                    stateful=spec.stateful[i],
                )
            )
        self.own = None
        if spec.own:
            self.own = FieldPart("own").prepare(
                r, finite_metas(r, 4), methods=False, readonly=0.0
            )
            self.mgr.add_part(self.own)
        self.process.add_controller(self.mgr)
        manrig.start(self.process)
        m.defer(mh.stop_process, self.process)
        self.cl = Client(self.process)
        self.log = []  # (part, field, stage, "start"/"end")
        for name, f in self.fields.items():
            f.on_put = lambda field, value, name=name, f=f: self._put(rng, name, f, field)

    def _put(self, rng, name, f, field):
        stage = f.stage.get(field)
        self.log.append((name, field, stage, "start"))
        if self.spec.slow:
            mh.yields(rng.randrange(0, 4))
        self.log.append((name, field, stage, "end"))

    def children(self, saved=True):
        """{part: {attr: value}} of the saved settings, or of the others"""
        d = {}
        for name, f in self.fields.items():
            d[name] = {k: mh.norm(a.value) for k, a in f.models.items() if (k in f.saved) == saved}
            if saved:
                d[name].update({k: a.value for k, a in self.ports[name].sinks.items()})
        return d

    def layout(self):
        v = self.cl.get("MGR", "layout", "value")
        return {
            n: dict(x=x, y=y, visible=vis)
            for n, x, y, vis in zip(v["name"], v["x"], v["y"], v["visible"])
        }

    def exports(self):
        v = self.cl.get("MGR", "exports", "value")
        return sorted(zip(v["source"], v["export"]))

    def ours(self):
        if not self.own:
            return {}
        return {k: mh.norm(a.value) for k, a in self.own.models.items() if k in self.own.saved}

    def snapshot(self):
        return dict(
            children=self.children(),
            layout=self.layout(),
            exports=self.exports(),
            ours=self.ours(),
        )

    def modified(self):
        d = self.cl.get("MGR", "modified")
        return d["value"], d["alarm"]["message"], d["alarm"]["severity"]

    def state(self):
        return self.cl.get("MGR", "state", "value")

    # ------------------------------------------------------------- changes
    def edit(self, rng):
        """Change something, return what"""
        k = rng.random()
        part = rng.choice(list(self.fields))
        f = self.fields[part]
        if k < 0.45:
            name = rng.choice(list(f.models))
            v = f.gens[name](rng)
            if name in f.readonly or rng.random() < 0.5:
                f.models[name].set_value(v)
            else:
                r = self.cl.put(["CHILD" + part[1:], name, "value"], v)
                self.m.check(ok(r), "put-refused", lambda: "%s %s %s" % (name, v, r))
            return "value"
        if k < 0.6:
            sink = rng.choice(list(self.ports[part].sinks))
            v = rng.choice(["", "SRC0", "SRC%d" % rng.randrange(self.spec.nchild), "OTHER"])
            self.ports[part].sinks[sink].set_value(v)
            return "sink"
        if k < 0.8:
            lay = self.layout()
            names = rng.sample(list(lay), rng.randrange(1, len(lay) + 1))
            t = dict(name=names, mri=[""] * len(names), x=[], y=[], visible=[])
            for n in names:
                move = rng.random() < 0.7
                t["x"].append(round(rng.uniform(-500, 500), 3) if move else lay[n]["x"])
                t["y"].append(round(rng.uniform(-500, 500), 3) if move else lay[n]["y"])
                t["visible"].append(rng.random() < 0.6 if rng.random() < 0.5 else lay[n]["visible"])
            r = self.cl.put(["MGR", "layout", "value"], t)
            self.m.check(ok(r), "layout-refused", lambda: "%s %s" % (t, r))
            now = self.layout()
            for i, n in enumerate(names):
                want = dict(x=t["x"][i], y=t["y"][i], visible=t["visible"][i])
                self.m.check(now[n] == want, "layout", lambda: "%s %s" % (want, now[n]))
            for n in lay:
                if n not in names:
                    self.m.check(now[n] == lay[n], "layout-other", lambda: "%s" % n)
            return "layout"
        if k < 0.93:
            choices = self.cl.get("MGR", "exports", "meta", "elements", "source", "choices")
            n = rng.randrange(0, 5)
            src = [rng.choice(choices) for _ in range(min(n, len(choices)))]
            src = list(dict.fromkeys(src))
            if src and rng.random() < 0.15:
                # The same field exported under two names
                src.append(rng.choice(src))
                self.m.count("exported_twice")
            names = ["exp" + chr(65 + i) + rng.choice(["", "x"]) for i in range(len(src))]
            r = self.cl.put(["MGR", "exports", "value"], dict(source=src, export=names))
            self.m.check(ok(r), "exports-refused", lambda: "%s %s" % (src, r))
            self.m.check(self.exports() == sorted(zip(src, names)), "exports", "not as put")
            return "exports"
        if self.own:
            name = rng.choice(list(self.own.models))
            self.own.models[name].set_value(self.own.gens[name](rng))
            return "own"
        return "nothing"

    def judge_modified(self, base, what):
        value, message, severity = self.modified()
        now = self.snapshot()
        names = []
        for part, attrs in now["children"].items():
            if now["layout"][part]["visible"]:
                for k, v in attrs.items():
                    if v != base["children"][part][k]:
                        names.append("%s.%s" % (part, k))
        vis = lambda s: {n: d["visible"] for n, d in s["layout"].items()}
        words = []
        if vis(now) != vis(base):
            words.append("layout changed")
        if now["exports"] != base["exports"]:
            words.append("exports changed")
        want = bool(names or words)
        self.m.count("modified_true" if want else "modified_false")
        self.m.check(
            value is want,
            "modified",
            lambda: "after %s: modified %s (%s), differing: %s" % (what, value, message, names + words),
        )
        self.m.check((severity != 0) == want, "modified-alarm", lambda: "%s %s" % (severity, want))
        for n in names:
            self.m.check(n + ".value = " in message, "message", lambda: "%s not in %r" % (n, message))
        for w in ("layout changed", "exports changed"):
            self.m.check((w in message) == (w in words), "message", lambda: "%s: %r" % (w, message))
        for part, attrs in now["children"].items():
            for k in attrs:
                n = "%s.%s" % (part, k)
                if n not in names:
                    self.m.check(n + ".value" not in message, "message-wrong", lambda: "%s in %r" % (n, message))
        self.m.distinct("modified", tuple(sorted(x.split(".")[1] for x in names)), tuple(words))

    def save(self, name):
        r = self.cl.post(["MGR", "save"], **(dict(designName=name) if name else {}))
        self.m.check(ok(r), "save-failed", lambda: "%s" % r)
        self.m.check(self.state() == "Ready", "save-state", lambda: self.state())
        return ok(r)

    def judge_same(self, want, what, unsaved=None):
        now = self.snapshot()
        self.m.count("loads_judged")
        for part, attrs in want["children"].items():
            for k, v in attrs.items():
                self.m.check(
                    now["children"][part][k] == v,
                    "setting",
                    lambda: "%s: %s.%s is %s, was saved as %s" % (what, part, k, now["children"][part][k], v),
                )
        for k in ("layout", "exports", "ours"):
            self.m.check(now[k] == want[k], k, lambda: "%s: %s, saved as %s" % (what, now[k], want[k]))
        if unsaved is not None:
            others = self.children(saved=False)
            self.m.check(others == unsaved, "unsaved", lambda: "%s: %s %s" % (what, unsaved, others))
        fields = self.cl.get("MGR", "meta", "fields")
        for source, export in want["exports"]:
            part, attr = source.rsplit(".", 1)
            if want["layout"][part]["visible"]:
                self.m.check(export in fields, "export-missing", lambda: "%s: %s not in %s" % (what, export, fields))

    def load(self, name, want):
        before = self.children()
        unsaved = self.children(saved=False)
        self.log[:] = []
        r = self.cl.put(["MGR", "design", "value"], name)
        self.m.check(ok(r), "load-failed", lambda: "%s: %s" % (name, r))
        if not ok(r):
            return
        self.m.check(self.state() == "Ready", "load-state", lambda: self.state())
        self.m.check(self.cl.get("MGR", "design", "value") == name, "design", "")
        self.judge_same(want, "load of %s" % name, unsaved)
        # Stages in order, each one finished before the next
        for part in self.fields:
            busy, stage = {}, 0
            for p, field, st, what in self.log:
                if p != part:
                    continue
                self.m.check(st is not None, "unsaved-put", lambda: "%s.%s" % (part, field))
                if what == "start":
                    self.m.count("stage_puts")
                    self.m.check(
                        st >= stage and not [x for x in busy.values() if x < st],
                        "stage-order",
                        lambda: "%s %s" % (part, self.log),
                    )
                    stage = max(stage, st)
                    busy[field] = st
                else:
                    busy.pop(field)
            if self.spec.stages != (1,):
                seen = {st for p, _, st, _ in self.log if p == part}
                self.m.distinct("stages", tuple(sorted(seen)))


def designs(m, rng, idx):
    spec = Spec(rng)
    d = m.tmpdir()
    rig = Rig(m, rng, spec, d)
    base = rig.snapshot()
    rig.judge_modified(base, "start")
    saved, current = {}, ""
    hist = []
    for _ in range(rng.randrange(10, 30)):
        k = rng.random()
        if k < 0.55 or not saved and k < 0.7:
            what = rig.edit(rng)
        elif k < 0.75 or not saved:
            name = rng.choice(NAMES)
            if current and rng.random() < 0.3:
                name = ""
            want = rig.snapshot()
            if not rig.save(name):
                return
            current = name or current
            saved[current], base, what = want, want, "save"
            m.count("saves")
            m.check(rig.cl.get("MGR", "design", "value") == current, "design", "")
            got = rig.cl.get("MGR", "design", "meta", "choices")
            m.check(set(got) >= set(saved) | {""}, "choices", lambda: "%s %s" % (got, list(saved)))
            rig.judge_same(want, "save")
        elif k < 0.95:
            name = rng.choice(list(saved))
            rig.load(name, saved[name])
            current, base, what = name, saved[name], "load"
        else:
            # Back to saved by hand
            for part, attrs in base["children"].items():
                for n, v in attrs.items():
                    if n.startswith("sink"):
                        rig.ports[part].sinks[n].set_value(v)
                    else:
                        rig.fields[part].models[n].set_value(v)
            what = "revert"
        hist.append(what)
        rig.judge_modified(base, hist[-6:])
    m.sample(dict(history=hist, designs=list(saved), children=spec.nchild))
    if not saved:
        return
    # A fresh process, starting with a design or loading one
    mh.stop_process(rig.process)
    name = rng.choice(list(saved))
    if rng.random() < 0.5:
        rig2 = Rig(m, rng, spec, d, initial_design=name)
        m.check(rig2.cl.get("MGR", "design", "value") == name, "design", "")
        rig2.judge_same(saved[name], "initial design")
        rig2.judge_modified(saved[name], "initial design")
        m.count("initial_loads")
    else:
        rig2 = Rig(m, rng, spec, d)
        for _ in range(rng.randrange(0, 4)):
            rig2.edit(rng)
        got = rig2.cl.get("MGR", "design", "meta", "choices")
        m.check(set(got) == set(saved) | {""}, "choices", lambda: "%s %s" % (got, list(saved)))
        rig2.load(name, saved[name])
        rig2.judge_modified(saved[name], "fresh load")
        m.count("fresh_loads")
    for _ in range(3):
        what = rig2.edit(rng)
        rig2.judge_modified(saved[name], "fresh " + what)


def bad_designs(m, rng, idx):
    """Designs that can't be saved, read or applied are refused with an error"""
    spec = Spec(rng)
    d = m.tmpdir()
    templates = m.tmpdir()
    json.dump(dict(attributes={}, children={}), open(os.path.join(templates, "template_t.json"), "w"))
    rig = Rig(m, rng, spec, d, template_designs=templates)
    cl = rig.cl
    for _ in range(3):
        rig.edit(rng)
    want = rig.snapshot()
    if not rig.save("good"):
        return
    for _ in range(4):
        rig.edit(rng)
    before = rig.snapshot()

    def refused(r, kind, fault):
        m.count("bad_" + kind)
        m.check(r is not None and not ok(r), "accepted", lambda: "%s gave %s" % (kind, r))
        if not fault:
            m.check(rig.state() == "Ready", "state", lambda: "%s after %s" % (rig.state(), kind))
            m.check(cl.get("MGR", "design", "value") == "good", "design-changed", kind)
            now = rig.snapshot()
            m.check(now == before, "changed", lambda: "%s: %s %s" % (kind, before, now))
        else:
            m.check(rig.state() == "Fault", "state", lambda: "%s after %s" % (rig.state(), kind))
            m.check(cl.get("MGR", "design", "value") == "good", "design-changed", kind)
            m.check(ok(cl.post(["MGR", "reset"])), "reset", kind)

    refused(cl.put(["MGR", "design", "value"], "nosuch"), "choice", False)
    # A design file that is not JSON, and one that went away
    names = ["broken", "gone", "wrongvalue"]
    for n in names:
        if not rig.save(n):
            return
    rig.load("good", want)
    for _ in range(2):
        rig.edit(rng)
    before = rig.snapshot()
    fn = lambda n: os.path.join(d, "MGR", n + ".json")
    text = open(fn("broken")).read()
    cut = rng.randrange(0, len(text) - 1)
    open(fn("broken"), "w").write(text[:cut])
    os.remove(fn("gone"))
    s = json.load(open(fn("wrongvalue")))
    kinds = []
    for part, f in rig.fields.items():
        for n in f.saved:
            if n in ("aChoice", "anEnum") or n.startswith("num"):
                kinds.append((part, n))
    for n in ("broken", "gone"):
        refused(cl.put(["MGR", "design", "value"], n), n, True)
        now = rig.snapshot()
        m.check(now == before, "changed", lambda: "%s: %s %s" % (n, before, now))
    if kinds:
        part, n = rng.choice(kinds)
        s["children"][part][n] = "not possible"
        json.dump(s, open(fn("wrongvalue"), "w"))
        refused(cl.put(["MGR", "design", "value"], "wrongvalue"), "wrongvalue", True)
    # Saving that can't work
    r = cl.post(["MGR", "save"], designName="template_t")
    m.count("bad_template")
    m.check(not ok(r), "accepted", "saved over a template")
    m.check(json.load(open(os.path.join(templates, "template_t.json"))) == dict(attributes={}, children={}), "template", "")
    m.check(not os.path.exists(fn("template_t")), "template", "")
    cl.post(["MGR", "reset"])
    os.mkdir(fn("dir"))
    r = cl.post(["MGR", "save"], designName="dir")
    m.count("bad_save")
    m.check(not ok(r), "accepted", "saved to a directory")
    m.check(rig.state() == "Fault", "state", lambda: rig.state())
    m.check(cl.get("MGR", "design", "value") == "good", "design-changed", "save")
    cl.post(["MGR", "reset"])
    # All the same, the good one still loads
    rig.load("good", want)
    rig.judge_modified(want, "good after bad")
    m.distinct("bad", cut * 10 // len(text), bool(kinds), spec.nchild)


def nested(m, rng, idx):
    """A manager child with designs of its own"""
    d = m.tmpdir()

    def build(**kwargs):
        import random

        r = random.Random("nested%s" % idx)
        process = Process("proc")
        c = BC.StatefulController("LEAF")
        f = FieldPart("fields").prepare(r, finite_metas(r, 5), readonly=0.0, saved=1.0)
        c.add_part(f)
        mid = BC.ManagerController("MID", d)
        mid.add_part(ChildPart("leaf", mri="LEAF", initial_visibility=True))
        top = BC.ManagerController("TOP", d, **kwargs)
        top.add_part(ChildPart("mid", mri="MID", initial_visibility=True))
        for x in (c, mid, top):
            process.add_controller(x)
        manrig.start(process)
        m.defer(mh.stop_process, process)
        return process, Client(process), f

    process, cl, f = build()
    vals = lambda f: {k: mh.norm(a.value) for k, a in f.models.items()}

    def scramble():
        for k, a in f.models.items():
            a.set_value(f.gens[k](rng))

    mids, tops = {}, {}
    for name in rng.sample(["a", "b", "c"], rng.randrange(2, 4)):
        scramble()
        m.check(ok(cl.post(["MID", "save"], designName=name)), "save", name)
        mids[name] = vals(f)
    for name in ("t1", "t2"):
        mid = rng.choice(list(mids))
        m.check(ok(cl.put(["MID", "design", "value"], mid)), "load", mid)
        m.check(vals(f) == mids[mid], "mid-load", lambda: "%s %s" % (vals(f), mids[mid]))
        m.check(ok(cl.post(["TOP", "save"], designName=name)), "save", name)
        tops[name] = mid
        m.check(cl.get("TOP", "modified", "value") is False, "modified", "after save")
    for _ in range(4):
        mid = rng.choice(list(mids))
        cl.put(["MID", "design", "value"], mid)
        if rng.random() < 0.3:
            scramble()
        cur = cl.get("TOP", "design", "value")
        same = tops[cur] == mid
        m.check(
            cl.get("TOP", "modified", "value") is (not same),
            "modified",
            lambda: "%s: %s, saved %s: %s" % (cur, mid, tops[cur], cl.get("TOP", "modified")),
        )
        name = rng.choice(list(tops))
        r = cl.put(["TOP", "design", "value"], name)
        m.check(ok(r), "load", lambda: "%s %s" % (name, r))
        m.check(cl.get("MID", "design", "value") == tops[name], "design", name)
        if mid != tops[name]:
            m.check(vals(f) == mids[tops[name]], "leaf", lambda: "%s: %s %s" % (name, vals(f), mids[tops[name]]))
            m.check(cl.get("MID", "modified", "value") is False, "modified", "mid")
        m.check(cl.get("TOP", "modified", "value") is False, "modified", "top")
        m.count("nested_loads")
        m.distinct("nested", len(mids), mid, tops[name])
    mh.stop_process(process)
    # At init the design of the child is not restored, but shown as modified
    name = rng.choice(list(tops))
    process, cl, f = build(initial_design=name)
    m.check(cl.get("MID", "design", "value") == "", "init-design", "restored at init")
    m.check(cl.get("TOP", "modified", "value") is True, "init-modified", "")
    m.check("mid.design.value" in cl.get("TOP", "modified", "alarm", "message"), "init-message", "")
    m.check(ok(cl.put(["TOP", "design", "value"], name)), "load", "")
    m.check(vals(f) == mids[tops[name]], "leaf", "after init")
    m.check(cl.get("TOP", "modified", "value") is False, "modified", "top")
    m.count("nested_init")


def dynamic(m, rng, idx):
    """A child whose fields come and go"""
    d = m.tmpdir()
    process = Process("proc")
    c = BC.BasicController("CHILD")
    process.add_controller(c)
    mgr = BC.ManagerController("MGR", d)
    mgr.add_part(ChildPart("p", mri="CHILD", initial_visibility=True, stateful=False))
    process.add_controller(mgr)
    manrig.start(process)
    m.defer(mh.stop_process, process)
    cl = Client(process)
    attrs, base = {}, {}
    for step in range(14):
        k = rng.random()
        if k < 0.35 and len(attrs) < 4:
            name = rng.choice([x for x in ("fa", "fb", "fc", "fd") if x not in attrs])
            a = StringMeta("x", tags=[config_tag(1)]).create_attribute_model("v%d" % rng.randrange(3))
            c.add_block_field(name, a, a.set_value, False)
            attrs[name] = a
            what = "add"
        elif k < 0.5 and attrs:
            name = rng.choice(list(attrs))
            c._block.remove_endpoint(name)
            del attrs[name]
            what = "remove"
        elif k < 0.85 and attrs:
            attrs[rng.choice(list(attrs))].set_value("v%d" % rng.randrange(3))
            what = "set"
        else:
            m.check(ok(cl.post(["MGR", "save"], designName="d")), "save", "")
            base = {n: a.value for n, a in attrs.items()}
            what = "save"
        mh.yields(20)
        m.count("dynamic_" + what)
        msg = cl.get("MGR", "modified", "alarm", "message")
        for n, a in attrs.items():
            differs = a.value != base.get(n)
            m.check(
                ("p.%s.value" % n in msg) == differs,
                "dynamic",
                lambda: "%s: %s is %s, saved %s, message %r" % (what, n, a.value, base.get(n), msg),
            )
        got = cl.get("MGR", "exports", "meta", "elements", "source", "choices")
        m.check(
            sorted(got) == sorted("p." + x for x in ["health"] + list(attrs)),
            "choices",
            lambda: "%s %s" % (got, list(attrs)),
        )
        m.distinct("dynamic", what, tuple(sorted(attrs)))


check = vmon.Check(
    "C10",
    [
        vmon.Scenario("designs", designs, quick=240, thorough=2500, timeout=90),
        vmon.Scenario("bad_designs", bad_designs, quick=72, thorough=600, timeout=90),
        vmon.Scenario("nested", nested, quick=48, thorough=400, timeout=90),
        vmon.Scenario("dynamic", dynamic, quick=90, thorough=600, timeout=60),
    ],
    rule="Distinct (set of modified settings), (stages applied), (nested designs), (fields present)",
    required=[
        "saves", "loads_judged", "modified_true", "modified_false", "stage_puts", "initial_loads",
        "fresh_loads", "bad_choice", "bad_broken", "bad_gone", "bad_wrongvalue", "bad_save",
        "bad_template", "nested_loads", "nested_init", "dynamic_add", "dynamic_remove",
    ],
    level="exploration",
    assumptions=["NaN settings are not generated: NaN differs from itself"],
)
if __name__ == "__main__":
    check.main()
