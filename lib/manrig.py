"""A manager block with child parts over real child blocks."""
import cothread

from annotypes import Anno, add_call_types
from malcolm.core import (
    Context,
    Get,
    Part,
    Post,
    Process,
    Put,
    Return,
    StringMeta,
    Subscribe,
    config_tag,
)
from malcolm.modules import builtin

import mh

BC = builtin.controllers
with Anno("A number"):
    ANum = int
with Anno("A name"):
    AName = str


class MethodResult:
    pass


class FieldPart(Part):
    """Attributes of given metas, some saved, some read only, and methods"""

    def prepare(self, rng, fields, stages=(1,), saved=0.8, readonly=0.1, methods=True):
        self.fields, self.rng = fields, rng
        self.models, self.gens, self.saved, self.readonly = {}, {}, set(), set()
        self.stage = {}
        self.puts = []  # (field, value) in order
        self.calls = []
        self.on_put = None
        self._spec = (stages, saved, readonly, methods)
        return self

    def setup(self, registrar):
        super().setup(registrar)
        rng = self.rng
        stages, saved, readonly, methods = self._spec
        for name, (meta, gen) in self.fields.items():
            ro = rng.random() < readonly
            if not ro and rng.random() < saved:
                self.stage[name] = rng.choice(stages)
                meta.set_tags([config_tag(self.stage[name])])
                self.saved.add(name)
            model = meta.create_attribute_model(meta.validate(gen(rng)))
            setter = None
            if ro:
                self.readonly.add(name)
            else:

                def setter(value, name=name, model=model):
                    self.puts.append((name, mh.norm(value)))
                    if self.on_put:
                        self.on_put(name, value)
                    model.set_value(value)

            registrar.add_attribute_model(name, model, setter)
            self.models[name], self.gens[name] = model, gen
        if methods:
            registrar.add_method_model(self.nothing)
            registrar.add_method_model(self.add)
            registrar.add_method_model(self.fail)

    @add_call_types
    def nothing(self) -> None:
        self.calls.append(("nothing", {}))

    @add_call_types
    def add(self, num: ANum, name: AName = "dflt") -> AName:
        self.calls.append(("add", dict(num=num, name=name)))
        return "%s+%d" % (name, num)

    @add_call_types
    def fail(self, name: AName = "x") -> None:
        self.calls.append(("fail", dict(name=name)))
        raise ValueError("failed with " + name)


class Client:
    """Sends requests to blocks of a process and remembers the answers"""

    def __init__(self, process):
        self.process, self.n = process, 100000

    def send(self, request):
        box = []
        request.set_callback(box.append)
        self.process.get_controller(request.path[0]).handle_request(request)
        return box

    def ask(self, request, steps=3000):
        box = self.send(request)
        mh.settle(lambda: box, steps)
        return box[0] if box else None

    def id(self):
        self.n += 1
        return self.n

    def get(self, *path):
        r = self.ask(Get(self.id(), list(path)))
        return mh.norm(r.value) if isinstance(r, Return) else None

    def put(self, path, value):
        return self.ask(Put(self.id(), list(path), value))

    def post(self, path, **params):
        return self.ask(Post(self.id(), list(path), params))

    def subscribe(self, path, cb, delta=False):
        r = Subscribe(self.id(), list(path), delta=delta)
        r.set_callback(cb)
        self.process.get_controller(path[0]).handle_request(r)
        return r


def ok(resp):
    return isinstance(resp, Return)


def start(process, timeout=30):
    """Process.start waits for real, so give it a cothread"""
    s = cothread.Spawn(process.start, raise_on_wait=True)
    s.Wait(timeout)


def quiet(n=30):
    mh.yields(n)


class PortsPart(Part):
    """A source and some sinks, the sinks are saved"""

    def prepare(self, rng, name, nsinks=1):
        self.source, self.nsinks, self.sinks = name, nsinks, {}
        return self

    def setup(self, registrar):
        from malcolm.core import Port

        super().setup(registrar)
        src = StringMeta(
            "source", tags=[Port.INT32.source_port_tag(self.source)]
        ).create_attribute_model("")
        registrar.add_attribute_model("source", src)
        for i in range(self.nsinks):
            a = StringMeta(
                "sink", tags=[Port.INT32.sink_port_tag(""), config_tag(1)]
            ).create_attribute_model("")
            registrar.add_attribute_model("sink%d" % i, a, a.set_value)
            self.sinks["sink%d" % i] = a


def finite(v):
    """NaN is not equal to itself, so can't be compared when loaded"""
    if isinstance(v, float) and v != v:
        return 1.5
    if isinstance(v, dict):
        return {k: finite(x) for k, x in v.items()}
    if isinstance(v, list):
        return [finite(x) for x in v]
    return v


def finite_metas(rng, n=None):
    metas = mh.make_metas(rng)
    names = list(metas)
    if n is not None:
        names = rng.sample(names, n)
    return {
        k: (metas[k][0], lambda r, g=metas[k][1]: finite(g(r))) for k in names
    }
