"""A controller whose block changes in every way a block can change, and
subscribers that keep the view a client would keep."""
import mh
from annotypes import Anno, add_call_types
from malcolm.core import (
    ChoiceMeta,
    Controller,
    Delta,
    Display,
    Error,
    Get,
    NumberMeta,
    Part,
    Post,
    Return,
    StringMeta,
    Subscribe,
    Unsubscribe,
    Update,
)

with Anno("x"):
    AX = int
with Anno("result"):
    AResult = str


class SubPart(Part):
    def prepare(self, names):
        self.metas = mh.make_metas()
        self.names = names
        self.models = {}
        return self

    def setup(self, registrar):
        super().setup(registrar)
        for n in self.names:
            meta, _ = self.metas[n]
            self.models[n] = meta.create_attribute_model()
            registrar.add_attribute_model(n, self.models[n], self.models[n].set_value)
        self.models["echo"] = registrar.add_method_model(self.echo)

    @add_call_types
    def echo(self, x: AX) -> AResult:
        return str(x)


class OpenController(Controller):
    """Adds and removes fields the way the built-in controllers do"""

    def add_field(self, name, model):
        with self.changes_squashed:
            self.add_block_field(name, model, None, False)

    def remove_field(self, name):
        with self.changes_squashed:
            self._block.remove_endpoint(name)

    def set_block_label(self, label):
        self._block.meta.set_label(label)

    def state(self):
        return mh.norm(self.block_view().to_dict())


class Sub:
    def __init__(self, rig, path, delta, sid):
        self.rig, self.path, self.delta, self.id = rig, path, delta, sid
        self.messages = 0
        self.view = mh.MISSING
        self.done = False
        self.final = []
        self.raw = []  # (response, normalised when delivered)

    def __call__(self, response):
        m = self.rig.m
        m.count("messages")
        m.check(response.id == self.id, "wrong-id", "sub %s got id %s" % (self.id, response.id))
        m.check(not self.done, "message-after-end", "%s got %r" % (self.path, response))
        if isinstance(response, (Return, Error)):
            self.final.append(response)
            self.done = True
            return
        self.messages += 1
        if isinstance(response, Update):
            m.check(not self.delta, "wrong-kind", "Update for a delta subscription %s" % self.path)
            n = mh.norm(response.value)
            self.view = n
            self.raw.append((response, n))
        elif isinstance(response, Delta):
            m.check(self.delta, "wrong-kind", "Delta for an update subscription %s" % self.path)
            n = mh.norm(response.changes)
            if self.view is mh.MISSING:
                m.check(
                    len(n) == 1 and n[0][0] == [] and len(n[0]) == 2,
                    "initial-delta",
                    "first delta %s" % str(n)[:200],
                )
            self.raw.append((response, mh.norm(response.changes)))
            try:
                self.view = mh.apply_delta(self.view, n)
            except Exception as e:
                m.fail("delta-not-applicable", "%s: %s applying %s" % (self.path, e, str(n)[:300]))
        else:
            m.fail("wrong-kind", "%r" % response)
        # What a Get would give at this very moment
        want = self.rig.current(self.path)
        m.check(
            self.view == want,
            "view-differs-on-delivery",
            lambda: "%s delta=%s view %s but block has %s" % (self.path, self.delta, str(self.view)[:300], str(want)[:300]),
        )
        m.distinct(len(self.path), self.path[2:], self.delta, self.rig.op)


class SubRig:
    def __init__(self, m, rng, nfields=5):
        self.m, self.rng = m, rng
        all_names = [n for n in mh.make_metas() if n != "aTable"]
        self.names = ["aTable"] + rng.sample(all_names, nfields - 1)
        self.c = OpenController("MRI")
        self.part = SubPart("part").prepare(self.names)
        self.c.add_part(self.part)
        self.p = mh.make_process()
        m.defer(mh.stop_process, self.p, 1)
        self.p.add_controller(self.c)
        mh.yields(3)
        self.subs = []
        self.next_id = 1
        self.op = "subscribe"
        self.dynamic = {}  # name -> model of fields added by hand

    # -- state
    def current(self, path):
        got = mh.walk(self.c.state(), path[1:])
        return None if got is mh.MISSING else got

    # -- requests
    def request(self, req):
        box = []
        req.set_callback(box.append)
        self.c.handle_request(req)
        mh.settle(lambda: box, 30)
        self.m.require(box, "unanswered", "%r" % req)
        return box[0]

    def subscribe(self, path, delta):
        sub = Sub(self, path, delta, self.next_id)
        # Ids may be shared by different clients (callbacks)
        if self.rng.random() < 0.7:
            self.next_id += 1
        req = Subscribe(sub.id, path, delta)
        req.set_callback(sub)
        self.op = "subscribe"
        self.c.handle_request(req)
        mh.settle(lambda: sub.messages, 30)
        self.m.require(sub.messages == 1, "no-initial", "%s got %d messages" % (path, sub.messages))
        self.subs.append(sub)
        self.m.count("subscribed")
        return sub

    def unsubscribe(self, sub):
        before = {s: s.messages for s in self.subs}
        req = Unsubscribe(sub.id)
        req.set_callback(sub)
        self.c.handle_request(req)
        mh.settle(lambda: sub.done, 30)
        self.m.check(
            sub.done and len(sub.final) == 1 and isinstance(sub.final[0], Return),
            "unsubscribe-answer",
            "%s: %s" % (sub.path, sub.final),
        )
        self.m.check(
            all(s.messages == n for s, n in before.items()),
            "unsubscribe-disturbs",
            "messages sent by an unsubscribe",
        )
        self.subs.remove(sub)
        self.m.count("unsubscribed")

    def random_path(self):
        rng = self.rng
        fields = self.names + list(self.dynamic) + ["echo", "dynA"]
        f = rng.choice(fields)
        p = rng.choice(
            [
                [],
                ["meta"],
                ["meta", "fields"],
                ["meta", "label"],
                [f],
                [f],
                [f, "value"],
                [f, "value"],
                [f, "alarm"],
                [f, "alarm", "severity"],
                [f, "alarm", "message"],
                [f, "timeStamp"],
                [f, "timeStamp", "nanoseconds"],
                [f, "meta"],
                [f, "meta", "description"],
                [f, "meta", "writeable"],
                [f, "meta", "tags"],
                [f, "meta", "display"],
                [f, "meta", "display", "units"],
                [f, "meta", "choices"],
                ["aTable"],
                ["aTable", "value"],
                ["aTable", "value", "num"],
                ["aTable", "value", "name"],
                ["aTable", "meta", "elements"],
                ["aTable", "meta", "elements", "num"],
                ["aTable", "meta", "elements", "num", "description"],
                ["echo"],
                ["echo", "took"],
                ["echo", "took", "value"],
                ["echo", "returned", "value", "return"],
                ["echo", "meta", "takes", "elements", "x"],
                ["notThere"],
                ["notThere", "value"],
            ]
        )
        return ["MRI"] + p

    # -- changes. Each returns the set of touched paths (relative to block)
    def attrs(self):
        d = {n: self.part.models[n] for n in self.names}
        d.update(self.dynamic)
        return d

    def random_change(self):
        rng = self.rng
        ops = [
            self.set_value,
            self.set_value,
            self.set_value,
            self.set_value,
            self.set_value_only,
            self.set_alarm,
            self.set_ts,
            self.set_table,
            self.set_table,
            self.set_description,
            self.set_meta_bits,
            self.set_display,
            self.set_choices,
            self.set_meta,
            self.block_label,
            self.add_field,
            self.remove_field,
            self.replace_field,
            self.table_elements,
        ]
        op = rng.choice(ops)
        self.op = op.__name__
        touched = op()
        self.m.count("op_" + op.__name__)
        return touched

    def gen(self, n):
        if n in self.dynamic:
            model = self.dynamic[n]
            if isinstance(model.meta, NumberMeta):
                return self.rng.randrange(1000)
            return mh.gen_string(self.rng)
        return self.part.metas[n][1](self.rng)

    def pick(self):
        d = self.attrs()
        n = self.rng.choice(sorted(d))
        return n, d[n]

    def set_value(self):
        n, a = self.pick()
        if n == "aTable":
            return self.set_table()
        rng = self.rng
        old_alarm = mh.norm(a.alarm)
        if rng.random() < 0.5:
            a.set_value(self.gen(n))
            alarm = None
        else:
            alarm = mh.gen_alarm(rng)
            a.set_value(self.gen(n), alarm=alarm, ts=mh.gen_ts(rng))
        t = [([n, "value"], True), ([n, "timeStamp"], True)]
        t.append(([n, "alarm"], mh.norm(a.alarm) != old_alarm))
        return t

    def set_value_only(self):
        n, a = self.pick()
        a.set_value(mh.gen_table(self.rng) if n == "aTable" else self.gen(n), set_alarm_ts=False)
        return [([n, "value"], True)]

    def set_alarm(self):
        n, a = self.pick()
        a.set_alarm(mh.gen_alarm(self.rng))
        return [([n, "alarm"], True)]

    def set_ts(self):
        n, a = self.pick()
        a.set_timeStamp(mh.gen_ts(self.rng))
        return [([n, "timeStamp"], True)]

    def set_table(self):
        a = self.part.models["aTable"]
        rng = self.rng
        cols = list(a.meta.elements)
        old = a.value
        old_alarm = mh.norm(a.alarm)
        before = mh.norm(old)
        n = len(old[cols[0]])
        if rng.random() < 0.6:
            # Keep some columns just as they are
            new = mh.gen_table(rng, n)
            value = {}
            for c in cols:
                if rng.random() < 0.5:
                    value[c] = old[c]
                else:
                    value[c] = new.get(c, [0] * n)
        else:
            new = mh.gen_table(rng)
            n = len(new["num"])
            value = {c: new.get(c, [0] * n) for c in cols}
        if rng.random() < 0.5:
            a.set_value(a.meta.validate(value))
        else:
            a.set_value(value, alarm=mh.gen_alarm(rng))
        after = mh.norm(a.value)
        self.m.count("table_sets")
        t = [(["aTable", "timeStamp"], True)]
        t.append((["aTable", "alarm"], mh.norm(a.alarm) != old_alarm))
        for c in cols:
            t.append((["aTable", "value", c], before[c] != after[c]))
        return t

    def set_description(self):
        n, a = self.pick()
        a.meta.set_description("desc %d" % self.rng.randrange(1000))
        return [([n, "meta", "description"], True)]

    def set_meta_bits(self):
        n, a = self.pick()
        k = self.rng.choice(["tags", "writeable", "label"])
        if k == "tags":
            a.meta.set_tags(["t%d" % self.rng.randrange(9) for _ in range(self.rng.randrange(3))])
        elif k == "writeable":
            a.meta.set_writeable(self.rng.random() < 0.5)
        else:
            a.meta.set_label("label %d" % self.rng.randrange(1000))
        return [([n, "meta", k], True)]

    def set_display(self):
        for n, a in sorted(self.attrs().items()):
            if hasattr(a.meta, "display"):
                if self.rng.random() < 0.5:
                    a.meta.display.set_units(self.rng.choice(["mm", "s", "", "\u00b5m"]))
                    return [([n, "meta", "display", "units"], True)]
                a.meta.set_display(Display(units="u%d" % self.rng.randrange(99)))
                return [([n, "meta", "display"], True)]
        return self.set_value()

    def set_choices(self):
        for n, a in sorted(self.attrs().items()):
            if isinstance(a.meta, ChoiceMeta) and n in ("aChoice", "choiceArray"):
                extra = ["x%d" % i for i in range(self.rng.randrange(4))]
                a.meta.set_choices(mh.CHOICES + extra)
                return [([n, "meta", "choices"], True)]
        return self.set_value()

    def set_meta(self):
        n, a = self.pick()
        if n in self.dynamic or n == "aTable":
            return self.set_value()
        meta = mh.make_metas()[n][0]
        meta.set_description("new meta %d" % self.rng.randrange(1000))
        a.set_meta(meta)
        return [([n, "meta"], True)]

    def table_elements(self):
        a = self.part.models["aTable"]
        c = self.rng.choice(list(a.meta.elements))
        if self.rng.random() < 0.6:
            a.meta.elements[c].set_description("col %d" % self.rng.randrange(1000))
            return [(["aTable", "meta", "elements", c, "description"], True)]
        els = {k: v.to_dict() for k, v in a.meta.elements.items()}
        els[c] = dict(els[c], description="replaced %d" % self.rng.randrange(1000))
        a.meta.set_elements(els)
        return [(["aTable", "meta", "elements"], True)]

    def block_label(self):
        self.c.set_block_label("label %d" % self.rng.randrange(1000))
        return [(["meta", "label"], True)]

    def new_model(self):
        if self.rng.random() < 0.5:
            return NumberMeta("int32", "dyn").create_attribute_model(self.rng.randrange(99))
        return StringMeta("dyn").create_attribute_model(mh.gen_string(self.rng))

    def add_field(self):
        n = self.rng.choice(["dynA", "dynB", "dynC"])
        if n in self.dynamic:
            return self.remove_field()
        self.dynamic[n] = self.new_model()
        self.c.add_field(n, self.dynamic[n])
        return [([n], True), (["meta", "fields"], True)]

    def replace_field(self):
        if not self.dynamic:
            return self.add_field()
        n = self.rng.choice(sorted(self.dynamic))
        self.dynamic[n] = self.new_model()
        self.c.add_field(n, self.dynamic[n])
        # Fields are announced again, though they are the same
        return [([n], True), (["meta", "fields"], False)]

    def remove_field(self):
        if not self.dynamic:
            return self.add_field()
        n = self.rng.choice(sorted(self.dynamic))
        del self.dynamic[n]
        self.c.remove_field(n)
        return [([n], True), (["meta", "fields"], True)]


def overlaps(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]
