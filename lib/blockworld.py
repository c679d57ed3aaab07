"""Some blocks with fields of every type and a manager of them, that change in
every way a block can."""
import mh
from manrig import BC, FieldPart

from malcolm.core import NumberMeta, StringMeta
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.scanning.controllers import RunnableController


class Blocks:
    """Needs m, rng, process, and cl once the process is started"""

    def build(self):
        m, rng = self.m, self.rng
        self.fields, self.ctrl = {}, {}
        self.n = rng.randrange(1, 3)
        name = rng.choice(["BLOCK%d", "BLOCK%d", "BL-01:B%d", "BL.B.%d"])
        for i in range(self.n):
            metas = mh.make_metas(rng)
            keep = rng.sample(list(metas), rng.randrange(4, len(metas)))
            if "aTable" not in keep:
                keep.append("aTable")
            kind = rng.choice([BC.StatefulController, BC.BasicController, "mgr"])
            mri = name % i
            c = RunnableController(mri, m.tmpdir()) if kind == "mgr" else kind(mri)
            f = FieldPart("fields").prepare(rng, {k: metas[k] for k in keep}, readonly=0.15)
            c.add_part(f)
            self.fields[mri], self.ctrl[mri] = f, c
            self.process.add_controller(c)
        self.mgr = BC.ManagerController("MGR", m.tmpdir())
        for i in range(self.n):
            c = self.ctrl[name % i]
            self.mgr.add_part(
                ChildPart(
                    "p%d" % i, mri=name % i, initial_visibility=True,
                    stateful=isinstance(c, BC.StatefulController),
                )
            )
        self.ctrl["MGR"] = self.mgr
        self.process.add_controller(self.mgr)
        self.extra = {mri: {} for mri in self.ctrl}
        self.k = 0

    # -- changes to the blocks
    def change(self):
        rng = self.rng
        mri = rng.choice([x for x in self.fields])
        f, c = self.fields[mri], self.ctrl[mri]
        kind = rng.choice(
            ["value", "value", "value", "alarm", "group", "meta", "method", "extra", "export", "replace", "redo"]
        )
        name = rng.choice(list(f.models))
        model = f.models[name]
        if kind == "value":
            v = f.gens[name](rng)
            if rng.random() < 0.5:
                model.set_value(v)
            else:
                model.set_value_alarm_ts(model.meta.validate(v), mh.gen_alarm(rng), mh.gen_ts(rng))
        elif kind == "alarm":
            if rng.random() < 0.5:
                model.set_alarm(mh.gen_alarm(rng))
            else:
                model.set_timeStamp(mh.gen_ts(rng))
        elif kind == "group":
            with c.changes_squashed:
                for n in rng.sample(list(f.models), min(3, len(f.models))):
                    f.models[n].set_value(f.gens[n](rng))
        elif kind == "meta":
            self.k += 1
            r = rng.randrange(4)
            meta = model.meta
            if r == 0:
                meta.set_label("label %d" % self.k)
            elif r == 1:
                meta.set_description("description %d" % self.k)
            elif r == 2:
                meta.set_tags(list(meta.tags) + ["tag%d" % self.k])
            elif hasattr(meta, "set_choices") and "num" not in name:
                meta.set_choices(list(meta.choices) + ["new%d" % self.k])
            else:
                meta.set_writeable(not meta.writeable)
                meta.set_writeable(not meta.writeable)
        elif kind == "method":
            mname = rng.choice(["nothing", "add", "fail"])
            self.cl.post([mri, mname], **{"add": dict(num=rng.randrange(9))}.get(mname, {}))
        elif kind == "extra":
            part = c.parts["fields"]
            if self.extra[mri] and rng.random() < 0.5:
                n = rng.choice(list(self.extra[mri]))
                del self.extra[mri][n]
                c._block.remove_endpoint(n)
            else:
                self.k += 1
                n = "extra%d" % self.k
                a = rng.choice(
                    [StringMeta("extra"), NumberMeta("int32", "extra")]
                ).create_attribute_model()
                c._block.set_endpoint_data(n, a)
                self.extra[mri][n] = a
        elif kind == "replace":
            if not self.extra[mri]:
                return "nothing"
            n = rng.choice(list(self.extra[mri]))
            metas = mh.make_metas(rng)
            k = rng.choice(list(metas))
            meta, gen = metas[k]
            a = meta.create_attribute_model(meta.validate(gen(rng)))
            c._block.set_endpoint_data(n, a)
            self.extra[mri][n] = a
        elif kind == "redo":
            self.redo(mri)
        elif kind == "export":
            part = "p" + mri[-1]
            rows = []
            for i, n in enumerate(rng.sample(list(f.models) + ["add"], rng.randrange(0, 3))):
                rows.append(("%s.%s" % (part, n), "exp%d" % i))
            self.cl.put(
                ["MGR", "exports", "value"],
                dict(source=[r[0] for r in rows], export=[r[1] for r in rows]),
            )
        return kind

    def redo(self, mri):
        """One group of changes to one field: parts of it, all of it, its
        removal, and its return"""
        rng, c = self.rng, self.ctrl[mri]
        extra = self.extra[mri]
        with c.changes_squashed:
            n = rng.choice(list(extra)) if extra and rng.random() < 0.8 else "extra%d" % self.k
            self.k += 1
            for _ in range(rng.randrange(2, 6)):
                r = rng.random()
                if n not in extra or r < 0.25:
                    metas = mh.make_metas(rng)
                    meta, gen = metas[rng.choice(list(metas))]
                    a = meta.create_attribute_model(meta.validate(gen(rng)))
                    c._block.set_endpoint_data(n, a)
                    extra[n] = a
                elif r < 0.5:
                    del extra[n]
                    c._block.remove_endpoint(n)
                elif r < 0.75:
                    self.k += 1
                    extra[n].meta.set_label("label %d" % self.k)
                else:
                    extra[n].set_alarm(mh.gen_alarm(rng))

    def reorder(self):
        """The same fields in another order"""
        rng = self.rng
        for mri, f in self.fields.items():
            extra = self.extra[mri]
            for n in list(extra)[: rng.randrange(0, 3)]:
                a = extra.pop(n)
                self.ctrl[mri]._block.remove_endpoint(n)
                extra[n] = rng.choice([StringMeta("extra"), a.meta]).create_attribute_model()
                self.ctrl[mri]._block.set_endpoint_data(n, extra[n])
