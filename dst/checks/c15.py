"""C15: compiled and traced transforms compute what the plain call computes."""
import numpy as np

from .. import cases, pool, runner, sched, world


def weights(shape, w, k):
    return np.random.RandomState(w * 1000 + k).standard_normal(tuple(shape)).astype(np.float32)


def k_tgrad(cfg, st, x, w):
    return cases.key_of("tgrad", world.merged(cfg, st), x, w)


def loss(cfg, r, w):
    tot = None
    for k, a in enumerate(cases.arrays_of(r)):
        if cfg["fe"] == "jax":
            import jax.numpy as jnp
            s = jnp.sum(a * weights(a.shape, w, k))
        else:
            import tensorflow as tf
            s = tf.reduce_sum(a * weights(a.shape, w, k))
        tot = s if tot is None else tot + s
    return tot


def grad_fn(cfg, S, w):
    if cfg["fe"] == "jax":
        import jax
        return jax.grad(lambda x: loss(cfg, cases.call(cfg, S, x), w))
    import tensorflow as tf

    def g(x):
        with tf.GradientTape() as tape:
            tape.watch(x)
            l = loss(cfg, cases.call(cfg, S, x), w)
        return tape.gradient(l, x)
    return g


def eval_tgrad(cfg, S, x, w):
    return cases.norm(grad_fn(cfg, S, w)(cases.mk_input(cfg, x)))


world.EVAL["tgrad"] = eval_tgrad


class Wrapped:
    """A compiled form of a transform.  seen[shape]: the settings when that shape was traced, and the container traced."""

    def __init__(self, o, kind, how, w):
        self.o, self.kind, self.w = o, kind, w
        self.seen, self.last = {}, None
        cfg, S = o.cfg, o.S

        def arrs(x):
            r = cases.call(cfg, S, x, how)
            self.last = form(r)
            return list(cases.arrays_of(r))
        self.grad = kind.startswith("grad")
        if cfg["fe"] == "jax":
            import jax
            if kind == "jit":
                self.f = jax.jit(arrs)
            elif kind == "vmap":
                self.f = jax.vmap(arrs)
            elif kind == "jitvmap":
                self.f = jax.jit(jax.vmap(arrs))
            elif kind == "vmapjit":
                self.f = jax.vmap(jax.jit(arrs))
            elif kind == "grad":
                self.f = grad_fn(cfg, S, w)
            elif kind == "gradjit":
                g = grad_fn(cfg, S, w)
                self.f = jax.jit(lambda x: g(x))
            elif kind == "jitobj":
                self.f = jax.jit(S)
                self.seen = o.extra.setdefault("jitobj", self.seen)        # jax keys the traces on the object
            else:
                raise KeyError(kind)
        else:
            import tensorflow as tf
            if kind in ("tff", "tffag"):
                self.f = tf.function(arrs, autograph=kind == "tffag")
            elif kind == "tfdyn":
                self.f = tf.function(arrs, autograph=False, input_signature=[tf.TensorSpec([None] + list(in_sig(cfg)), tf.float32)])
            elif kind == "tfobj":
                self.f = tf.function(S.__call__ if cfg["fe"] != "keras" else S, autograph=False)
            elif kind == "tfconc":
                self.f = self.concrete
                self.fn = tf.function(arrs, autograph=False)
                self.conc = {}
            elif kind == "grad":
                self.f = grad_fn(cfg, S, w)
            elif kind == "gradtff":
                self.f = tf.function(grad_fn(cfg, S, w), autograph=False)
            elif kind in ("model", "predict", "functional"):
                self.f = None
            else:
                raise KeyError(kind)

    def concrete(self, x):
        import tensorflow as tf
        k = tuple(x.shape)
        if k not in self.conc:
            self.conc[k] = self.fn.get_concrete_function(tf.TensorSpec(x.shape, tf.float32))
        return self.conc[k](x)

    def model(self):
        import tensorflow as tf
        K = tf.keras
        if self.kind == "functional":
            inp = K.Input(shape=tuple(in_sig(self.o.cfg)))
            out = self.o.S(inp)
            m = K.Model(inp, [out, K.layers.Flatten()(out)])
            self.f = lambda x: m(x)[0]
        else:
            m = K.Sequential([K.Input(shape=tuple(in_sig(self.o.cfg))), self.o.S])
            self.f = (lambda x: m.predict(np.asarray(x), verbose=0)) if self.kind == "predict" else m
        self.m = m

    def __call__(self, x):
        if self.f is None:
            self.model()
        return self.f(x)

    def slot(self, x):
        if self.kind in ("grad", "vmap"):
            return None
        return "any" if self.kind in ("tfdyn", "vmapjit") or self.f is None or self.o.cfg["fe"] == "keras" else tuple(x["shape"])


def in_sig(cfg):
    return cases.padded_2d(cfg) if cfg["fam"] == "2d" and cfg["kw"].get("pre_pad") else cfg["sig"]


def form(r):
    """Container and labels of a traced result."""
    if isinstance(r, dict):
        return ("dict", [cases._lab(k) for k in r])
    if isinstance(r, list):
        return ("list", [";".join("%s=%s" % (k, cases._lab(p[k])) for k in sorted(p) if k != "coef") for p in r])
    return ("array", [""])


KINDS = {"jax": ("jit", "jit", "vmap", "jitvmap", "vmapjit", "grad", "gradjit", "jitobj"),
         "tensorflow": ("tff", "tff", "tffag", "tfdyn", "tfobj", "tfconc", "grad", "gradtff"),
         "keras": ("tff", "tffag", "tfdyn", "tfobj", "tfconc", "model", "predict", "functional", "gradtff")}


class W15(world.World):
    def __init__(self, spec, ep):
        super().__init__(spec, ep)
        self.wr = {}

    def op_wrap(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        self.wr[op["w"]] = Wrapped(o, op["kind"], op.get("how", "call"), op.get("gw", 0))
        return ("wrapped",)

    def op_run(self, t, op):
        w = self.wr.get(op["w"])
        if w is None:
            return ("skip",)
        o = w.o
        cfg, x = o.cfg, cases.mk_input(o.cfg, op["x"])
        now = dict(o.st)
        w.last = None
        self.arm(t, op)
        r = w(x)
        self.disarm(t)
        slot = w.slot(op["x"])
        if slot is None:
            st, fm = now, w.last
        else:
            st, fm = w.seen.setdefault(slot, (now, w.last))
            self.bump("replays" if st is not now else "traces")
        if w.grad:
            res, key = cases.norm(r), k_tgrad(cfg, st, op["x"], w.w)
            e = world.EXP.get(key)
            if e is None:
                raise KeyError("no expected gradient")
            d = cases.diff(res, e, loose=True)
            if d:
                self.violation("wrong-gradient", "%s of %s: %s" % (w.kind, op["obj"], d), op=op)
            self.bump("ran_" + w.kind)
            return ("res",)
        e = world.EXP.get(world.k_call(cfg, st, op["x"]))
        if e is None:
            raise KeyError("no expected value")
        if fm is not None:
            arrs = r if isinstance(r, (list, tuple)) else [r]
            res = cases.Res(fm[0], fm[1], [np.asarray(a) for a in arrs], e.ak)
        else:
            res = cases.norm(r)
            if w.kind == "predict":
                res.ak = e.ak
        d = cases.diff(res, e, loose=True)
        if d:
            self.violation("wrong-result", "%s of %s: %s" % (w.kind, op["obj"], d), op=op)
        self.bump("ran_" + w.kind)
        return ("res",)

    def op_badrun(self, t, op):
        """A trace that fails."""
        w = self.wr.get(op["w"])
        if w is None:
            return ("skip",)
        o = w.o
        if o.cfg["fe"] == "keras" and not o.S.built or w.kind == "tfdyn":
            return ("skip",)         # tf.function itself never releases its lock when an input does not match input_signature
        self.arm(t, op)
        try:
            w(world.bad_input(o.cfg, op["bad"]))
        except Exception as e:
            self.bump("failed_traces")
            return ("rejected",)
        finally:
            self.disarm(t)
        return ("accepted",)


class C15(runner.Check):
    prop = "C15"
    world = W15
    libs = ("numpy", "scipy.fft", "scipy.signal", "scipy.special", "tensorflow", "jax", "jax.numpy")
    runs = {"quick": 500, "thorough": 40000}
    cap = {"quick": 62., "thorough": 3000.}
    counts = ("call",)
    rule = ("a run wraps 1-2 TensorFlow, Keras or JAX transforms in tf.function (with and without autograph, with unknown batch, concrete), Keras models, jax.jit, vmap and grad and their combinations, and runs 3-16 traces, "
            "replays with other inputs and batches, traces that fail or are interrupted, plain calls and setting changes from 1-3 tasks; every result or gradient is compared with the plain call's in a fresh process; "
            "distinct by digest of history and switches")
    assumptions = ["a compiled function keeps the settings of its trace (tf.function, jax.jit)", "XLA and TensorFlow compute the graph they are given up to rounding"]
    real = "all of kymatio's TensorFlow, Keras and JAX front ends and backends, TensorFlow, Keras, JAX"
    stub = "thread scheduling, the failing library call or line"
    PER = {"quick": dict(tensorflow=2, keras=3, jax=2), "thorough": dict(tensorflow=14, keras=12, jax=10)}
    NW = 2

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()

        def tweak(r, c):                      # tracing and compiling take time in proportion to the number of paths
            kw = c["kw"]
            if r.random() < (.85 if tier == "quick" else .5):
                if c["fam"] == "1d":
                    kw["J"], kw["Q"] = r.choice([1, 2, 2]), 1
                    if r.random() < .35 and c["fe"] != "keras":
                        kw["shape"] = r.choice([20, 35, 36])      # the last coefficient reaches to the end of the padded signal
                        kw["T"] = r.choice([kw["shape"] - 2, kw["shape"]])
                    elif isinstance(kw.get("T"), int) and kw["T"]:
                        kw["T"] = 2 ** r.randint(1, 3)
                elif c["fam"] == "jtfs":
                    kw["J"], kw["J_fr"], kw["Q"] = r.choice([2, 3]), r.choice([1, 2]), 1
                    kw.pop("F", None)
                    if isinstance(kw.get("T"), int) and kw["T"]:
                        kw["T"] = 2 ** r.randint(1, 3)
                elif c["fam"] == "2d":
                    kw["L"] = r.choice([1, 2])
                else:
                    kw["J"], kw["L"] = r.choice([0, 1]), 1
                kw.pop("stride", None)
        keys = self.pool.build(rng, self.PER[tier], variants=1, n_inputs=3, n_sets=1, fes=("tensorflow", "keras", "jax"), small=True, full_sets=True, tweak=tweak,
                               batches=[[1], [2], [3]], kinds=("randn", "randn", "pos"))
        self.gk = {}
        for cl in self.pool.clusters.values():
            for ents in cl:
                for e in ents:
                    for st in e.sets:
                        keys.append(k_tgrad(e.cfg, st, e.inputs[0], 0))
                        keys.append(k_tgrad(e.cfg, st, e.inputs[1], 0))
        return keys

    def after_pool(self, tier):
        self.pool.prune()

    def grad_inputs(self, e):
        return [x for x in e.inputs[:2] if all(isinstance(world.EXP.get(k_tgrad(e.cfg, s, x, 0)), cases.Res) for s in e.sets)]

    def kinds(self, rng, e, nt):
        out = []
        for k in KINDS[e.cfg["fe"]]:
            if k.startswith("grad") and not self.grad_inputs(e):
                continue
            if k in ("jitobj", "tfobj") and (nt > 1 or e.cfg["kw"].get("out_type", "array") != "array" or any(s.get("out_type", "array") != "array" for s in e.sets)):
                continue
            if k == "tffag" and nt > 1:
                continue
            out.append(k)
        return rng.choice(out)

    def episode(self, rng, ents):
        keys, pre, tasks, post = [], [], [], []
        objs = [("a%d" % k, rng.choice(ents)) for k in range(rng.choice([1, 1, 2]))]
        for nm, e in objs:
            pre.append(dict(op="build", obj=nm, cfg=e.cfg))
            for s in e.sets:
                for x in e.inputs:
                    keys.append(world.k_call(e.cfg, s, x))
                for x in self.grad_inputs(e):
                    keys.append(k_tgrad(e.cfg, s, x, 0))
        nt = rng.choice([1, 1, 2, 2, 3])
        wraps = []
        n = 0
        for tk in range(nt):
            ops, mine = [], []
            for q in range(rng.choice([3, 5, 8]) if nt == 1 else rng.choice([2, 3, 4])):
                nm, e = rng.choice(objs)
                u = rng.random()
                if u < .25 or not mine:
                    w = "w%d_%d" % (tk, q)
                    kind = self.kinds(rng, e, nt)
                    ops.append(dict(op="wrap", obj=nm, w=w, kind=kind, how=rng.choice(["call", "scattering"])))
                    mine.append((w, nm, e, kind))
                    u = .5
                if u < .62:
                    w, nm, e, kind = rng.choice(mine[-2:])
                    op = dict(op="run", obj=nm, w=w, x=rng.choice(self.grad_inputs(e) if kind.startswith("grad") else e.inputs))
                    if rng.random() < .22:
                        f = pool.gen_fault(rng, e.cfg["fe"], world.k_call(e.cfg, {}, op["x"]), ("lib", "lib", "bin", "line", "line"))
                        if f:
                            ops.append(dict(op, fault=f))
                    ops.append(op)
                    n += pool.cost(world.k_call(e.cfg, {}, op["x"]))
                elif u < .7:
                    w, nm, e, kind = rng.choice(mine)
                    ops.append(dict(op="badrun", obj=nm, w=w, bad=rng.choice(world.BAD)))
                elif u < .76:
                    ops.append(dict(op="bad", obj=nm, bad=rng.choice(world.BAD)))
                elif u < .84 and nt == 1 and len(e.sets) > 1:
                    ops.append(dict(op="set", obj=nm, st=rng.choice(e.sets[1:])))
                else:
                    op = dict(op="call", obj=nm, x=rng.choice(e.inputs), how=rng.choice(["call", "scattering"]))
                    if rng.random() < .15:
                        f = pool.gen_fault(rng, e.cfg["fe"], world.k_call(e.cfg, {}, op["x"]))
                        if f:
                            ops.append(dict(op, fault=f))
                    ops.append(op)
                    n += pool.cost(world.k_call(e.cfg, {}, op["x"]))
            wraps += mine
            tasks.append(ops)
        rng.shuffle(wraps)
        for w, nm, e, kind in wraps[:2]:
            post.append(dict(op="run", obj=nm, w=w, x=rng.choice(self.grad_inputs(e) if kind.startswith("grad") else e.inputs)))
        for nm, e in objs:
            post.append(dict(op="call", obj=nm, x=rng.choice(e.inputs)))
            if rng.random() < .5:
                k = self.kinds(rng, e, 1)
                post.append(dict(op="wrap", obj=nm, w="z" + nm, kind=k))
                post.append(dict(op="run", obj=nm, w="z" + nm, x=rng.choice(self.grad_inputs(e) if k.startswith("grad") else e.inputs)))
                post.append(dict(op="call", obj=nm, x=rng.choice(e.inputs)))
        return dict(pre=pre, tasks=tasks, post=post, sched=sched.gen_policy(rng, n) if nt > 1 else {"name": "none"}), keys

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        ep, keys = self.episode(rng, ents)
        return {"episodes": [ep], "keys": sorted(set(keys))}


CHECK = C15()
