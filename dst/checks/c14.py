"""C14: the selected front end does not depend on imports, order or failures."""
import importlib
import sys

from .. import addr, cases, env, pool, runner, sched, world

LIB = {"torch": ("torch",), "tensorflow": ("tensorflow",), "jax": ("jax", "jaxlib"), "keras": ("tensorflow", "keras"), "sklearn": ("sklearn",), "numpy": ("scipy",)}
SPELL = {"numpy": ["numpy", "NumPy", "NUMPY"], "torch": ["torch", "Torch"], "tensorflow": ["tensorflow", "TensorFlow"], "jax": ["jax", "Jax", "JAX"],
         "keras": ["keras", "Keras"], "sklearn": ["sklearn", "SKLearn"]}
POS = {"1d": ("J", "shape", "Q", "T"), "2d": ("J", "shape", "L"), "3d": ("J", "shape", "L", "sigma_0"), "jtfs": ()}
PKG = {"1d": "scattering1d", "jtfs": "scattering1d", "2d": "scattering2d", "3d": "scattering3d"}


class W14(world.World):
    def __init__(self, spec, ep):
        super().__init__(spec, ep)
        self.hidden = {}
        self.blocked = set()
        self.classes = {}

    def select(self, cfg, op):
        kym = importlib.import_module("kymatio")
        kw = cases.untuple(cfg["kw"])
        if op.get("name") is not None:
            kw["frontend"] = op["name"]
        args = []
        if op.get("pos"):
            for n in POS[cfg["fam"]]:
                if n not in kw:
                    break
                args.append(kw.pop(n))
        if op.get("entry"):
            m = importlib.import_module("kymatio.%s" % PKG[cfg["fam"]])
            C = getattr(m, cases.CLS[cfg["fam"]])
        else:
            C = getattr(kym, cases.CLS[cfg["fam"]])
        return C(*args, **kw)

    def op_select(self, t, op):
        cfg = op["cfg"]
        try:
            S = self.select(cfg, op)
        except ImportError:
            if self.blocked:
                self.bump("selection_failed_import")
                return ("noimport",)
            raise
        self.disarm(t)
        self.check_class(op, cfg, S)
        self.objs[op["obj"]] = world.Obj(S, cfg)
        self.bump("selected_" + cfg["fe"])
        return ("selected", type(S).__module__, type(S).__name__)

    def op_direct(self, t, op):
        cfg = op["cfg"]
        try:
            S = cases.build(cfg)
        except ImportError:
            if self.blocked:
                return ("noimport",)
            raise
        self.disarm(t)
        self.check_class(op, cfg, S)
        self.objs[op["obj"]] = world.Obj(S, cfg)
        return ("built", type(S).__module__, type(S).__name__)

    def check_class(self, op, cfg, S):
        m = sys.modules.get("kymatio." + cfg["fe"])
        C = getattr(m, cases.CLS[cfg["fam"]], None) if m is not None else None
        if C is not None and type(S) is not C:
            self.violation("wrong-class", "%s with front end %s gives a %s" % (cases.CLS[cfg["fam"]], op.get("name"), type(S)), op=op)

    def op_class(self, t, op):
        """The object still is what was selected (its own module is imported for the comparison)."""
        o = self.objs.get(op["obj"])
        if o is None or self.blocked:
            return ("skip",)
        C = cases.get_class(o.cfg["fam"], o.cfg["fe"])
        if type(o.S) is not C:
            self.violation("wrong-class", "%s is a %s.%s, not a %s.%s" % (op["obj"], type(o.S).__module__, type(o.S).__qualname__, C.__module__, C.__qualname__), op=op)
        return ("class", C.__module__)

    def op_imp(self, t, op):
        try:
            importlib.import_module(op["mod"])
        except ImportError:
            if self.blocked:
                return ("noimport",)
            raise
        return ("imported", op["mod"])

    def op_bogus(self, t, op):
        kym = importlib.import_module("kymatio")
        try:
            getattr(kym, cases.CLS[op["cfg"]["fam"]])(frontend=op["name"], **cases.untuple(op["cfg"]["kw"]))
        except RuntimeError:
            return ("rejected",)
        self.violation("accepted", "front end %r was accepted" % op["name"], op=op)

    def op_badselect(self, t, op):
        try:
            S = self.select(op["cfg"], op)
        except Exception as e:
            return ("rejected", world.exc_name(e))
        del S
        return ("accepted",)

    def op_block(self, t, op):
        """The library cannot be imported for now."""
        for lib in sorted(set(op["libs"]) - self.blocked):
            self.blocked.add(lib)
            for n in [n for n in sys.modules if n == lib or n.startswith(lib + ".")]:
                self.hidden[n] = sys.modules[n]
                sys.modules[n] = None
        return ("blocked", op["libs"])

    def op_unblock(self, t, op):
        for n, m in self.hidden.items():
            sys.modules[n] = m
        self.hidden.clear()
        self.blocked.clear()
        return ("unblocked",)

    def op_call(self, t, op):
        if self.blocked:
            return ("skip",)
        return super().op_call(t, op)

    def op_attrs(self, t, op):
        if self.blocked:
            return ("skip",)
        return super().op_attrs(t, op)

    def op_meta(self, t, op):
        if self.blocked:
            return ("skip",)
        return super().op_meta(t, op)

    def step(self, t, op):
        if op["op"] in ("select", "direct", "imp", "badselect"):
            self.arm(t, op)
        r = super().step(t, op)
        addr.ADDR.install()
        return r


class C14(runner.Check):
    prop = "C14"
    world = W14
    need_kymatio = False
    runs = {"quick": 1200, "thorough": 60000}
    cap = {"quick": 62., "thorough": 3000.}
    rule = ("a run starts in a process that has not imported kymatio and makes 3-25 selections through the generic entry points, direct constructions, imports, rejected and bogus selections from 1-3 tasks; libraries become "
            "unavailable and return, imports and constructions are interrupted or run out of memory at a random line and are repeated; the class, settings, metadata and results of every object are compared with those of the front end's "
            "own module in a fresh process; distinct by digest of history and switches")
    assumptions = ["the execution of a module's top level is atomic with respect to scheduling (the import lock)"]
    real = "all of kymatio including its imports, all libraries"
    stub = "thread scheduling, availability of the libraries (sys.modules), the failing library call or line"
    fresh = {"quick": .06, "thorough": .2}
    PER = {"quick": dict(numpy=6, sklearn=4, torch=7, tensorflow=3, keras=3, jax=2),
           "thorough": dict(numpy=15, sklearn=10, torch=12, tensorflow=6, keras=6, jax=3)}

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        return self.pool.build(rng, self.PER[tier], variants=1, n_inputs=1, attrs=True, small=True, batches=[[1], [2]])

    def after_pool(self, tier):
        self.pool.prune()

    def mods(self, fe, fam):
        out = ["kymatio", "kymatio." + fe, "kymatio." + PKG[fam], "kymatio.%s.frontend.%s_frontend" % (PKG[fam], fe), "kymatio.%s.frontend.entry" % PKG[fam], "kymatio.frontend.%s_frontend" % fe, "kymatio.caching"]
        be = {"sklearn": "numpy", "keras": "tensorflow"}.get(fe, fe)
        out.append("kymatio.%s.backend.%s_backend" % (PKG[fam], be))
        return out

    def sel(self, rng, e, obj):
        cfg = e.cfg
        name = rng.choice(SPELL[cfg["fe"]])
        if cfg["fe"] == "numpy" and rng.random() < .5:
            name = None
        return dict(op="select", obj=obj, cfg=cfg, name=name, pos=rng.random() < .2)

    def fault(self, rng):
        kind = rng.choice(["line", "line", "lib"])
        k = 1 + int(rng.expovariate(1 / rng.choice([5., 60., 600.])))
        return {"kind": kind, "k": k, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]) if kind == "line" else "MemoryError"}

    def judge(self, rng, obj, e):
        out = [dict(op="class", obj=obj)] if rng.random() < .4 else []
        if rng.random() < .5:
            out.append(dict(op="call", obj=obj, x=rng.choice(e.inputs)))
        if rng.random() < .5:
            out.append(dict(op="attrs", obj=obj))
        return out

    def episode(self, rng, es):
        import copy
        from . import c04
        nt = rng.choice([1, 1, 2, 2, 3])
        tasks, objs, n = [], [], 0
        post = []
        for tk in range(nt):
            ops = []
            for q in range(rng.choice([2, 4, 6, 10]) if nt == 1 else rng.choice([1, 2, 3])):
                e = rng.choice(es)
                cfg, fe, fam = e.cfg, e.cfg["fe"], e.cfg["fam"]
                obj = "o%d_%d" % (tk, q)
                u = rng.random()
                if u < .5:
                    op = self.sel(rng, e, obj)
                    if rng.random() < .25:
                        ops.append(dict(op, fault=self.fault(rng)))
                    ops.append(op)
                    objs.append((obj, e))
                    ops += self.judge(rng, obj, e)
                    n += pool.cost(world.k_build(cfg))
                elif u < .62:
                    op = dict(op="direct", obj=obj, cfg=cfg)
                    if rng.random() < .25:
                        ops.append(dict(op, fault=self.fault(rng)))
                    ops.append(op)
                    objs.append((obj, e))
                    ops += self.judge(rng, obj, e)
                elif u < .75:
                    op = dict(op="imp", mod=rng.choice(self.mods(fe, fam)), fe=fe)
                    if rng.random() < .4:
                        ops.append(dict(op, fault=self.fault(rng)))
                    ops.append(op)
                elif u < .82:
                    c = copy.deepcopy(cfg)
                    bad = dict(rng.choice(c04.BADKW[fam]))
                    if fe == "keras":
                        bad = {"bogus": 3}
                    c["kw"].update(bad if rng.random() < .7 else {"bogus": 1})
                    op = self.sel(rng, e, None)
                    op.pop("obj")
                    ops.append(dict(op, op="badselect", cfg=c))
                elif u < .87:
                    ops.append(dict(op="bogus", cfg=cfg, name=rng.choice(["bogus", "", "num py", "torch2", "cupy"])))
                elif nt == 1:
                    ops.append(dict(op="block", libs=list(LIB[fe])) if rng.random() < .6 else dict(op="unblock"))
                    if ops[-1]["op"] == "block":
                        for _ in range(rng.choice([1, 2])):
                            ops.append(self.sel(rng, rng.choice(es) if rng.random() < .4 else e, obj + "b"))
            tasks.append(ops)
        post.append(dict(op="unblock"))
        for obj, e in objs:
            post += [dict(op="class", obj=obj), dict(op="call", obj=obj, x=rng.choice(e.inputs)), dict(op="attrs", obj=obj)]
            if e.cfg["fam"] in ("1d", "jtfs") and e.cfg["fe"] != "keras" and rng.random() < .4:
                post.append(dict(op="meta", obj=obj))
        for k, e in enumerate(es):
            post.append(self.sel(rng, e, "z%d" % k))
            post.append(dict(op="call", obj="z%d" % k, x=rng.choice(e.inputs)))
            post.append(dict(op="class", obj="z%d" % k))
        d = rng.choice(rng.choice(self.pool.clusters[self.pool.pick_combo(rng, fes=("numpy",))]))
        post += [dict(op="select", obj="dflt", cfg=d.cfg, name=None, pos=rng.random() < .2), dict(op="class", obj="dflt")]
        return dict(pre=[], tasks=tasks, post=post, sched=sched.gen_policy(rng, n + 500) if nt > 1 else {"name": "none"})

    def gen(self, rng, i, tier):
        es = [rng.choice(rng.choice(self.pool.clusters[self.pool.pick_combo(rng)])) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if rng.random() < .3:                     # one signal family, several front ends
            es = [rng.choice(rng.choice(self.pool.clusters[self.pool.pick_combo(rng, fams=(es[0].cfg["fam"],))])) for _ in range(3)]
        return {"episodes": [self.episode(rng, es)]}


CHECK = C14()
