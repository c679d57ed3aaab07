#!/opt/venv/bin/python
"""C17: a YAML definition assembles exactly the system it describes.

YAML files are generated from a plain tree, written to a scratch directory,
loaded by the real creators, and what is instantiated (by recording parts and
controllers) is compared with an independent expansion of the tree."""
import json
import os
import sys
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon
import mh

from annotypes import Anno, Array
from enum import Enum
from typing import Union
from malcolm.core import Part
from malcolm.modules import builtin
from malcolm.yamlutil import check_yaml_names, make_block_creator, make_include_creator

with Anno("name"):
    AName = str
with Anno("mri"):
    AMri = str
with Anno("text"):
    AText = str
with Anno("whole"):
    AWhole = int
with Anno("real"):
    AReal = float
with Anno("flag"):
    AFlag = bool
with Anno("texts"):
    ATexts = Union[Array[str]]
with Anno("reals"):
    AReals = Union[Array[float]]


class Colour(Enum):
    RED = "red"
    BLUE = "blue"


with Anno("colour"):
    AColour = Colour


class FullPart(Part):
    """Takes everything"""

    def __init__(
        self,
        name: AName,
        text: AText = "dt",
        whole: AWhole = 7,
        real: AReal = 1.5,
        flag: AFlag = True,
        texts: ATexts = ("d",),
        reals: AReals = (0.5,),
        colour: AColour = Colour.BLUE,
    ) -> None:
        super().__init__(name)
        self.args = dict(
            name=name, text=text, whole=whole, real=real, flag=flag, texts=texts, reals=reals, colour=colour
        )
        self.kind = "FullPart"


class NeedsPart(Part):
    """Has required arguments"""

    def __init__(self, name: AName, text: AText, whole: AWhole, reals: AReals) -> None:
        super().__init__(name)
        self.args = dict(name=name, text=text, whole=whole, reals=reals)
        self.kind = "NeedsPart"


class FailPart(Part):
    def __init__(self, name: AName) -> None:
        raise ValueError("I don't want to")


class RecController(builtin.controllers.BasicController):
    def __init__(self, mri: AMri, text: AText = "dc", whole: AWhole = -1) -> None:
        super().__init__(mri)
        self.args = dict(mri=mri, text=text, whole=whole)


DEFAULTS = {
    "FullPart": dict(
        text="dt", whole=7, real=1.5, flag=True, texts=["d"], reals=[0.5], colour="blue"
    ),
    "NeedsPart": {},
    "RecController": dict(text="dc", whole=-1),
}


def module():
    """A malcolm module for the files to live in"""
    top = types.ModuleType("malcolm.modules.vmod")
    top.__path__ = []
    sys.modules["malcolm.modules.vmod"] = top
    for n, names in (
        ("parts", [FullPart, NeedsPart, FailPart]),
        ("controllers", [RecController]),
        ("blocks", []),
        ("includes", []),
    ):
        m = types.ModuleType("malcolm.modules.vmod." + n)
        for x in names:
            setattr(m, x.__name__, x)
        sys.modules["malcolm.modules.vmod." + n] = m
        setattr(top, n, m)
    return top


# ------------------------------------------------------------------ generator
STR = ["", "a", "hello world", "0", "1.5", "caf\u00e9 \u2603", 'quo"te', "back\\slash", "new\nline", "a: b", "- x",
       "#no comment", "$", "$(", "$()", "$(nothere)", "$x", "()", "null", "true", "{a}", "%s", "'single'", "~", " sp "]
# Anything that follows the naming rules
NAMES = ["alpha", "beta", "gamma", "delta_x", "epsilon2", "MRI", "some_PV", "mri", "name", "value", "pv_prefix",
         "creator", "args", "kwargs", "self", "x", "xy", "x1", "sections", "defines", "func", "ret", "locals"]


def gen_str(rng):
    return rng.choice(STR) if rng.random() < 0.5 else "s%d" % rng.randrange(1000)


def gen_of(rng, typ):
    if typ == "string":
        return gen_str(rng)
    if typ == "int32":
        return rng.choice([0, 1, -1, 2**31 - 1, -(2**31), rng.randrange(-1000, 1000)])
    return rng.choice([0.0, 1.0, -2.5, 1e-9, 1e22, 12345.678, float(rng.randrange(100)), rng.uniform(-9, 9)])


def text_of(typ, v):
    """What a value becomes when it is put in text"""
    return v if isinstance(v, str) else str(v)


class File:
    """One YAML file: kind block or include"""

    def __init__(self, rng, files, n, kind, directory):
        self.kind, self.n = kind, n
        self.yamlname = "%s%d" % (kind, n)
        self.directory = directory
        self.path = os.path.join(directory, self.yamlname + ".yaml")
        self.params, self.sections = {}, []
        names = rng.sample(NAMES, rng.randrange(0, 5))
        for p in names:
            typ = rng.choice(["string", "string", "int32", "float64"])
            has = rng.random() < 0.5
            default = gen_of(rng, typ) if has else None
            if has and typ == "string" and "$" in default:
                default = "dflt"
            self.params[p] = (typ, has, default)
            self.sections.append(("builtin.parameters." + typ, self.pdict(p, rng)))
        # Definitions can use parameters and those before them
        self.defines = []
        env = ["yamlname", "yamldir"] + names
        for k in range(rng.randrange(0, 4)):
            typ = rng.choice(["string", "string", "string", "int32", "float64", "env_string", "cmd_string"])
            dname = "def%d" % k if rng.random() < 0.9 else "DEF_x%d" % k
            if typ == "env_string":
                d = dict(name=dname, env="VMON_ENV_%d" % rng.randrange(3))
            elif typ == "cmd_string":
                d = dict(name=dname, cmd="printf 'out%d\\n\\n'" % rng.randrange(5))
            elif typ == "string":
                d = dict(name=dname, value=self.template(rng, env))
            else:
                d = dict(name=dname, value=gen_of(rng, typ))
            self.defines.append((dname, typ, d))
            self.sections.append(("builtin.defines." + typ, d))
            env.append(dname)
        self.env = env
        body = []
        if kind == "block":
            self.controller = dict(mri=self.template(rng, env, plain="M%d" % rng.randrange(100)))
            if rng.random() < 0.5:
                self.controller["text"] = self.template(rng, env)
            if rng.random() < 0.3:
                self.controller["whole"] = rng.randrange(100)
            body.append(("vmod.controllers.RecController", self.controller))
        self.nparts = 0
        for _ in range(rng.randrange(0, 5)):
            body.append(self.part(rng))
        taken = set()
        for f in rng.sample(files, min(len(files), rng.randrange(0, 4))):
            # The same file may be used several times
            for _ in range(rng.choice([1, 1, 2])):
                names = set(f.partnames())
                if names & taken:
                    # A block can't have two parts with the same name
                    continue
                taken |= names
                d = {}
                for p, (typ, has, default) in f.params.items():
                    if has and rng.random() < 0.5:
                        continue
                    if typ == "string":
                        d[p] = self.template(rng, env)
                    else:
                        same = [q for q, (t, _, _) in self.params.items() if t == typ]
                        d[p] = "$(%s)" % rng.choice(same) if same and rng.random() < 0.5 else gen_of(rng, typ)
                body.append(("vmod.%ss.%s" % (f.kind, f.yamlname), d, f))
        rng.shuffle(body)
        if rng.random() < 0.2:
            self.doc = gen_str(rng).replace("$", "")
            body.append(("builtin.defines.docstring", dict(value=self.doc)))
        else:
            self.doc = None
        # Definitions work wherever they are, as long as they are in order
        if rng.random() < 0.3:
            tail = [s for s in self.sections if ".defines." in s[0]]
            self.sections = [s for s in self.sections if ".defines." not in s[0]]
            pos = sorted(rng.randrange(len(body) + 1) for _ in tail)
            for i, (at, s) in enumerate(zip(pos, tail)):
                body.insert(at + i, s)
        self.sections += body
        if not self.sections:
            self.sections.append(self.part(rng))

    def pdict(self, p, rng):
        typ, has, default = self.params[p]
        d = dict(name=p, description="about " + p)
        if has:
            d["default"] = default
        return d

    def template(self, rng, env, plain=None):
        r = rng.random()
        lit = gen_str(rng) if plain is None else plain
        if r < 0.4 or not env:
            return lit
        if r < 0.6:
            return "$(%s)" % rng.choice(env)
        return "".join(
            rng.choice(["$(%s)" % rng.choice(env), ":", "x", lit]) for _ in range(rng.randrange(2, 5))
        )

    def part(self, rng):
        self.nparts += 1
        name = "p%d_%s" % (self.nparts, self.yamlname)
        if rng.random() < 0.2:
            name = "p%d_$(yamlname)" % self.nparts
        nums = [p for p, (t, _, _) in self.params.items() if t != "string"]
        ints = [p for p, (t, _, _) in self.params.items() if t == "int32"]
        d = dict(name=name)

        def num(of, gen):
            return "$(%s)" % rng.choice(of) if of and rng.random() < 0.4 else gen()

        if rng.random() < 0.3:
            d["text"] = self.template(rng, self.env)
            d["whole"] = num(ints, lambda: rng.randrange(-9, 9))
            d["reals"] = [num(nums, lambda: rng.uniform(-5, 5)) for _ in range(rng.randrange(0, 4))]
            items = list(d.items())
            rng.shuffle(items)
            return ("vmod.parts.NeedsPart", dict(items))
        if rng.random() < 0.5:
            d["text"] = rng.choice([self.template(rng, self.env), self.template(rng, self.env), 5, 2.5])
        if rng.random() < 0.4:
            d["whole"] = num(ints, lambda: rng.randrange(-9, 9))
        if rng.random() < 0.4:
            d["real"] = num(nums, lambda: rng.choice([3, 2.5, "1e3", -0.0]))
        if rng.random() < 0.4:
            d["flag"] = rng.choice([True, False, "True", "False", 0, 1])
        if rng.random() < 0.4:
            d["texts"] = [self.template(rng, self.env) for _ in range(rng.randrange(0, 4))]
        if rng.random() < 0.3:
            d["reals"] = [num(nums, lambda: rng.uniform(-5, 5)) for _ in range(rng.randrange(0, 4))]
        if rng.random() < 0.3:
            d["colour"] = rng.choice(["red", "blue"])
        return ("vmod.parts.FullPart", d)

    def partnames(self):
        if self.kind == "block":
            return []
        out = [s[1]["name"].replace("$(yamlname)", self.yamlname) for s in self.sections if ".parts." in s[0]]
        for s in self.sections:
            if len(s) > 2:
                out += s[2].partnames()
        return out

    def write(self, rng):
        lines = []
        for s in self.sections:
            name, d = s[:2]
            if rng.random() < 0.3:
                lines.append("# a comment")
            if not d:
                lines.append("- %s:" % name if rng.random() < 0.5 else "- %s: {}" % name)
            elif rng.random() < 0.3:
                lines.append("- %s: %s" % (name, dumps(d)))
            else:
                lines.append("- %s:" % name)
                for k, v in d.items():
                    if isinstance(v, list) and v and rng.random() < 0.5:
                        lines.append("    %s:" % k)
                        lines += ["      - %s" % dumps(x) for x in v]
                    elif isinstance(v, str) and v.isalnum() and not v[0].isdigit() and len(v) > 5:
                        lines.append("    %s: %s" % (k, v))
                    else:
                        lines.append("    %s: %s" % (k, dumps(v)))
            lines.append("")
        with open(self.path, "w", encoding="utf8") as f:
            f.write("\n".join(lines) + "\n")

    # -- the independent expansion
    def expand(self, given):
        """(controllers, parts) as plain data, given {param: value}"""
        env = dict(yamlname=self.yamlname, yamldir=self.directory)
        for p, (typ, has, default) in self.params.items():
            env[p] = given[p] if p in given else default
        sub = lambda v: substitute(v, env)
        for dname, typ, d in self.defines:
            if typ == "env_string":
                env[dname] = os.environ[d["env"]]
            elif typ == "cmd_string":
                env[dname] = d["cmd"].split("'")[1].split("\\n")[0]
            elif typ == "string":
                env[dname] = sub(d["value"])
            else:
                env[dname] = d["value"]
        controllers, parts = [], []
        for s in self.sections:
            name, d = s[:2]
            d = {k: sub(v) for k, v in d.items()}
            if len(s) > 2:
                f = s[2]
                child = {}
                for p, v in d.items():
                    child[p] = conv({"string": "text", "int32": "whole", "float64": "real"}[f.params[p][0]], v)
                c, ps = f.expand(child)
                controllers += c
                parts += ps
            elif ".parts." in name:
                kind = name.split(".")[-1]
                args = dict(DEFAULTS[kind])
                args.update((k, conv(k, v)) for k, v in d.items())
                parts.append((kind, args))
            elif ".controllers." in name:
                ctrl = dict(DEFAULTS["RecController"])
                ctrl.update((k, conv(k, v)) for k, v in d.items())
        if self.kind == "block":
            controllers.append((ctrl, parts))
            parts = []
        return controllers, parts


def dumps(v):
    return json.dumps(v, ensure_ascii=False)


def substitute(v, env):
    if isinstance(v, list):
        return [substitute(x, env) for x in v]
    if not isinstance(v, str):
        return v
    out, i = "", 0
    while i < len(v):
        if v.startswith("$(", i):
            j = v.find(")", i)
            if j > 0 and v[i + 2 : j] in env:
                out += str(env[v[i + 2 : j]])
                i = j + 1
                continue
        out += v[i]
        i += 1
    return out


def conv(arg, v):
    if arg in ("name", "text", "mri"):
        return v if isinstance(v, str) else str(v)
    if arg == "whole":
        return int(v)
    if arg == "real":
        return float(v)
    if arg == "flag":
        return v not in ("False", "0", 0, False)
    if arg == "texts":
        return [str(x) for x in v]
    if arg == "reals":
        return [float(x) for x in v]
    return v


def read(created):
    """What was created, as plain data"""
    if isinstance(created, tuple):
        controllers, parts = created
    else:
        controllers, parts = created, []
    return (
        [(mh.norm(c.args), [(p.kind, mh.norm(p.args)) for p in c.parts.values()]) for c in controllers],
        [(p.kind, mh.norm(p.args)) for p in parts],
    )


def objects(created):
    controllers, parts = created if isinstance(created, tuple) else (created, [])
    obs = list(controllers) + list(parts)
    for c in controllers:
        obs += list(c.parts.values())
    return obs


def build(m, rng):
    top = module()
    for i in range(3):
        os.environ["VMON_ENV_%d" % i] = ["", "env one", "e:2"][i]
    dirs = [m.tmpdir() for _ in range(2)]
    files = []
    for n in range(rng.randrange(1, 6)):
        f = File(rng, files, n, rng.choice(["block", "include"]), rng.choice(dirs))
        f.write(rng)
        files.append(f)
    return top, files


def load(top, f, rng):
    make = make_block_creator if f.kind == "block" else make_include_creator
    if rng.random() < 0.5:
        c = make(f.path)
    else:
        c = make(os.path.join(f.directory, "__init__.py"), f.yamlname + ".yaml")
    setattr(getattr(top, f.kind + "s"), f.yamlname, c)
    return c


def assemble(m, rng, idx):
    top, files = build(m, rng)
    creators = {f: load(top, f, rng) for f in files}
    m.check(
        all(c.__name__ == f.yamlname and c.__doc__ == f.doc for f, c in creators.items()),
        "names",
        lambda: "%s" % [(f.yamlname, f.doc, c.__name__, c.__doc__) for f, c in creators.items()],
    )
    check_yaml_names({f.yamlname: c for f, c in creators.items()})
    seen = []
    for _ in range(12):
        f = rng.choice(files)
        c = creators[f]
        given = {}
        for p, (typ, has, default) in f.params.items():
            if not has or rng.random() < 0.5:
                v = gen_of(rng, typ)
                given[p] = v
        want = json.loads(json.dumps(f.expand(given)))
        try:
            created = c(**given)
            got = json.loads(json.dumps(read(created)))
        except Exception as e:
            m.check(False, "refused", "%s(%s): %s: %s" % (f.yamlname, given, type(e).__name__, e))
            continue
        m.check(
            got == want,
            "assembled",
            lambda: "%s(%s) gave\n%s\nwanted\n%s\n%s" % (f.yamlname, given, got, want, open(f.path).read()),
        )
        m.count("assembled")
        m.count("controllers", len(want[0]))
        m.count("parts", len(want[1]) + sum(len(x[1]) for x in want[0]))
        m.distinct(
            f.kind, len(want[0]), len(want[1]), sorted({t for t, _, _ in f.params.values()}),
            sorted({t for _, t, _ in f.defines}), sorted(len(x[1]) for x in want[0]),
        )
        # Nothing is shared with what was created before
        obs = objects(created)
        m.check(
            len({id(o) for o in obs}) == len(obs) and not any(o is x for o in obs for x in seen),
            "shared",
            "%s gave the same object twice" % f.yamlname,
        )
        seen += obs
        for o in obs:
            for k, v in o.args.items():
                seq = getattr(v, "seq", v)
                if isinstance(seq, list):
                    # It is ours
                    seq.append("spoiled")
            o.args.clear()
        if any(len(s) > 2 for s in f.sections):
            m.count("nested")
    m.sample(dict(file=open(files[-1].path).read()))


def faults(m, rng, idx):
    """Change one thing so that it can't be right"""
    top, files = build(m, rng)
    f = files[-1]
    kinds = [
        "ident", "module", "section", "dots", "twokeys", "extra", "controller", "dupparam", "case", "fail", "ext",
        "missing", "unconvertible", "duppart", "colour", "call-missing", "call-extra", "noenv", "typeless",
    ]
    kind = rng.choice(kinds)
    for x in files[:-1]:
        load(top, x, rng)
    at = rng.randrange(len(f.sections) + 1)
    text = None
    call = {p: gen_of(rng, t) for p, (t, has, _) in f.params.items()}
    if kind == "ident":
        f.sections.insert(at, ("vmod.parts.NoSuchPart", dict(name="n")))
    elif kind == "module":
        f.sections.insert(at, ("nosuch.parts.FullPart", dict(name="n")))
    elif kind == "section":
        f.sections.insert(at, ("vmod.things.FullPart", dict(name="n")))
    elif kind == "dots":
        f.sections.insert(at, (rng.choice(["FullPart", "parts.FullPart", "vmod.parts.x.FullPart"]), dict(name="n")))
    elif kind == "twokeys":
        text = "\n- vmod.parts.FullPart:\n    name: n1\n  vmod.parts.NeedsPart:\n    name: n2\n"
    elif kind == "extra":
        f.sections.insert(at, ("vmod.parts.FullPart", dict(name="n", nosuch=1)))
    elif kind == "controller":
        if f.kind == "include" or rng.random() < 0.5:
            f.sections.insert(at, ("vmod.controllers.RecController", dict(mri="again")))
        else:
            f.sections = [s for s in f.sections if ".controllers." not in s[0]]
    elif kind == "dupparam":
        for _ in range(2):
            f.sections.insert(0, ("builtin.parameters.string", dict(name="twice", description="d")))
        call["twice"] = "x"
    elif kind == "case":
        n = rng.choice(["camelCase", "Title", "a_Mixed"])
        f.sections.insert(0, ("builtin.parameters.string", dict(name=n, description="d")))
        call[n] = "x"
    elif kind == "fail":
        f.sections.insert(at, ("vmod.parts.FailPart", dict(name="n")))
    elif kind == "ext":
        f.path = f.path[:-5] + ".yml"
    elif kind == "missing":
        f.sections.insert(at, ("vmod.parts.NeedsPart", dict(name="n", text="t", whole=3)))
    elif kind == "unconvertible":
        d = dict(name="n")
        d.update(rng.choice([dict(whole="abc"), dict(real="x1"), dict(reals=["a"]), dict(reals=[1, "$(nothere)"])]))
        f.sections.insert(at, ("vmod.parts.FullPart", d))
    elif kind == "colour":
        f.sections.insert(at, ("vmod.parts.FullPart", dict(name="n", colour="green")))
    elif kind == "duppart":
        if f.kind == "include":
            return
        for _ in range(2):
            f.sections.insert(at, ("vmod.parts.FullPart", dict(name="twice")))
    elif kind == "call-missing":
        need = [p for p, (t, has, _) in f.params.items() if not has]
        if not need:
            return
        del call[rng.choice(need)]
    elif kind == "call-extra":
        call["nosuch"] = "x"
    elif kind == "noenv":
        f.sections.insert(0, ("builtin.defines.env_string", dict(name="n", env="VMON_NOT_SET_EVER")))
    elif kind == "typeless":
        f.sections.insert(0, ("builtin.parameters.complex", dict(name="n", description="d")))
    f.write(rng)
    if text:
        with open(f.path, "a") as fh:
            fh.write(text)
    refused, got = None, None
    try:
        c = load(top, f, rng) if kind != "ext" else make_block_creator(f.path)
        got = read(c(**call))
    except Exception as e:
        refused = e
    m.count("faults")
    m.count("fault_" + kind)
    m.distinct(kind, f.kind, type(refused).__name__)
    m.check(
        refused is not None,
        "accepted",
        lambda: "%s was accepted, %s gave %s\n%s" % (kind, call, got, open(f.path).read()),
    )
    # And used by another file
    if kind in ("extra", "missing", "unconvertible", "fail", "colour", "ident", "module", "duppart") and hasattr(
        getattr(top, f.kind + "s"), f.yamlname
    ):
        path = os.path.join(f.directory, "parent.yaml")
        with open(path, "w") as fh:
            fh.write("- vmod.%ss.%s: %s\n" % (f.kind, f.yamlname, dumps(call)))
        try:
            got = make_include_creator(path)()
            refused = None
        except Exception as e:
            refused = e
        m.check(refused is not None, "accepted-nested", lambda: "%s gave %s" % (kind, got))


def modules(m, rng, idx):
    """Modules of one's own, loaded by a definition, and temporary directories"""
    d = m.tmpdir()
    name = "vmonmod%d" % rng.randrange(10**6)
    pkg = os.path.join(d, "pkg%d" % rng.randrange(100))
    n = rng.randrange(100)
    for sub, text in (
        ("", ""),
        (
            "blocks",
            "from malcolm.yamlutil import make_block_creator, check_yaml_names\n"
            "thing_block = make_block_creator(__file__, 'thing_block.yaml')\n"
            "__all__ = check_yaml_names(globals())\n",
        ),
    ):
        os.makedirs(os.path.join(pkg, sub), exist_ok=True)
        with open(os.path.join(pkg, sub, "__init__.py"), "w") as f:
            f.write(text)
    with open(os.path.join(pkg, "blocks", "thing_block.yaml"), "w") as f:
        f.write(
            "- builtin.parameters.string: {name: mri, description: d}\n"
            "- builtin.controllers.BasicController: {mri: $(mri):THING}\n"
            "- builtin.parts.StringPart: {name: a, description: b, value: %s$(mri) in $(yamldir)}\n" % ("v%d" % n)
        )
    module()
    path = os.path.join(d, "top.yaml")
    with open(path, "w") as f:
        f.write(
            "- builtin.defines.module_path: {name: %s, path: %s}\n" % (name, pkg.replace(d, "$(yamldir)"))
            + "- builtin.defines.tmp_dir: {name: scratch}\n"
            + "- builtin.defines.export_env_string: {name: VMON_EXPORTED, value: out $(yamlname)}\n"
            + "- %s.blocks.thing_block: {mri: A}\n- %s.blocks.thing_block: {mri: B$(VMON_EXPORTED)}\n" % (name, name)
            + "- vmod.parts.FullPart: {name: p, text: $(scratch)}\n"
        )
    controllers, parts = make_include_creator(path)()
    scratch = parts[0].args["text"]
    isdir = os.path.isdir(scratch)
    if isdir and scratch.startswith(("/tmp/", os.environ.get("TMPDIR", "/tmp"))) and not os.listdir(scratch):
        os.rmdir(scratch)
    m.check(isdir, "tmp-dir", lambda: "%r" % scratch)
    got = [(c.mri, c.parts["a"].attr.value) for c in controllers]
    bdir = os.path.join(pkg, "blocks")
    want = [("%s:THING" % x, "v%d%s in %s" % (n, x, bdir)) for x in ("A", "Bout top")]
    m.check(got == want, "module", lambda: "%s, wanted %s" % (got, want))
    m.check(os.environ.get("VMON_EXPORTED") == "out top", "export", "%s" % os.environ.get("VMON_EXPORTED"))
    m.count("modules")
    m.distinct("module", n % 5)
    with open(path, "w") as f:
        f.write("- builtin.defines.module_path: {name: %s, path: %s}\n" % (name, os.path.join(d, "nosuch")))
    try:
        make_include_creator(path)()
        m.check(False, "module-missing", "a module path that does not exist was accepted")
    except Exception:
        m.count("faults")


check = vmon.Check(
    "C17",
    [
        vmon.Scenario("assemble", assemble, quick=750, thorough=12000),
        vmon.Scenario("faults", faults, quick=750, thorough=8000),
        vmon.Scenario("modules", modules, quick=18, thorough=60),
    ],
    rule="Distinct (kind of file, shape of what it creates, types of parameters and definitions), (fault, how refused)",
    required=["assembled", "controllers", "parts", "nested", "faults", "modules"],
    level="exploration",
    assumptions=[
        "Values given for parameters and defaults do not contain $(name) of another parameter of the same file",
    ],
)
if __name__ == "__main__":
    check.main()
