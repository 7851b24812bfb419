"""C05: no operation leaves a process-wide setting changed."""
import copy
import os
import pickle

from .. import cases, pool, runner, sched, settings, world
from .c04 import BADKW


class W05(world.World):
    """Results are not judged here (the ambient settings may legitimately change them); settings are."""

    def __init__(self, spec, ep):
        super().__init__(spec, ep)
        self.ambient = ep.get("ambient", [])
        self.single = len(ep.get("tasks", [])) <= 1

    def judge(self, t, op, res, key):
        pass

    def op_warm(self, t, op):
        """First use of the libraries in this process, without kymatio: what they set up lazily is not kymatio's doing."""
        import numpy as np
        fe = op["fe"]
        np.fft.fft(np.ones(4))
        if fe == "torch":
            import torch
            torch.fft.ifft(torch.fft.fft(torch.ones(4)))
            torch.nn.Module()
        elif fe in ("tensorflow", "keras"):
            import tensorflow as tf
            tf.signal.ifft(tf.signal.fft(tf.ones(4, tf.complex64)))
            if fe == "keras":
                import keras
                keras.layers.Dense(1)(tf.ones((1, 2)))
        elif fe == "jax":
            import jax.numpy as jnp
            jnp.fft.fft(jnp.ones(4))
        return ("warm",)

    def op_ambient(self, t, op):
        settings.apply_ambient(self.ambient, thread=t is not None)
        return ("ambient",)

    def op_meta(self, t, op):
        return self._plain(t, op, lambda o: o.S.meta())

    def op_osize(self, t, op):
        return self._plain(t, op, lambda o: (o.S.output_size(), o.S.output_size(detail=True)))

    def op_attrs(self, t, op):
        return self._plain(t, op, lambda o: (world.attrs_of(o.cfg, o.S), repr(o.S)))

    def op_copy(self, t, op):
        def f(o):
            how = op["how"]
            if how == "deepcopy":
                copy.deepcopy(o.S)
            elif how == "copy":
                copy.copy(o.S)
            elif how == "pickle":
                pickle.loads(pickle.dumps(o.S))
            elif how == "double" and o.cfg["fe"] == "torch":
                copy.copy(o.S).float()
            elif how == "state" and o.cfg["fe"] == "torch":
                o.S.load_state_dict(o.S.state_dict())
            elif how == "state" and o.cfg["fe"] == "sklearn":
                o.S.get_params()
        return self._plain(t, op, f)

    def _plain(self, t, op, f):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        self.arm(t, op)
        f(o)
        self.disarm(t)
        return ("done",)

    def step(self, t, op):
        if op["op"] in ("warm", "ambient"):
            return super().step(t, op)
        a = settings.thread_local()
        pa = settings.process_wide() if self.single else None
        nv = len(self.viol)
        out = super().step(t, op)
        del self.viol[nv:]                        # only settings are judged
        bad = settings.compare(a, settings.thread_local())
        if pa is not None:
            bad += settings.compare(pa, settings.process_wide())
        if bad:
            k, was, now = bad[0]
            self.violation("setting-changed", "%s on %s changed %s from %s to %s (outcome %s)" % (
                op["op"], op.get("obj"), k, short(was), short(now), out[:2]), op=op)
        self.bump("snapshots")
        if out and out[0] == "exc":
            self.bump("raised")
        return out

    def run(self):
        ep = self.ep
        if not os.environ.get("DST_TB"):          # ambient warning filters and log levels make noise
            n = os.open(os.devnull, os.O_WRONLY)
            os.dup2(n, 2)
            os.close(n)
        pre = ep.get("pre", [])
        for op in pre:
            if op["op"] in ("warm", "ambient"):
                self.step(None, op)
        ep = self.ep = dict(ep, pre=[op for op in pre if op["op"] not in ("warm", "ambient")])
        base = settings.process_wide()
        import gc
        base["gc"] = (False, gc.get_threshold())
        super().run()
        if any(v["cls"] in ("deadlock", "overrun", "wall") for v in self.viol):
            self.viol = []                        # not this property's business
            return
        bad = settings.compare(base, settings.process_wide())
        if bad and not self.viol:
            k, was, now = bad[0]
            self.violation("setting-changed", "after the run %s is %s, was %s" % (k, short(now), short(was)))


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:75] + "..." + s[-75:]


class C05(runner.Check):
    prop = "C05"
    world = W05
    runs = {"quick": 1500, "thorough": 80000}
    cap = {"quick": 62., "thorough": 3000.}
    counts = ("call", "meta", "build")
    rule = ("a run sets seeded ambient settings (error handling, warning filters, seeds, default dtype, log level, ...), then builds, calls (also with "
            "non-finite, degenerate and rejected inputs), inspects and copies transforms from 1-3 tasks, with library failures at random points; a snapshot of all "
            "settings is compared around every operation (thread-local ones) and around every operation or the whole run (process-wide ones); "
            "distinct by digest of history and switches")
    assumptions = ["a failing library call fails before it has any effect", "the settings looked at are the ones listed in dst/settings.py"]
    PER = {"quick": dict(numpy=4, sklearn=2, torch=4, tensorflow=2, keras=2, jax=1),
           "thorough": dict(numpy=30, sklearn=10, torch=30, tensorflow=10, keras=8, jax=3)}
    KINDS = ("randn", "randn", "zero", "const", "sparse", "large", "small", "nan", "inf")

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        return self.pool.build(rng, self.PER[tier], variants=2, n_inputs=4, n_sets=1, batches=[[1], [], [2], [2, 1]], small=True, kinds=self.KINDS)

    def after_pool(self, tier):
        self.pool.prune()

    def ops_for(self, rng, e, name, kinds, build):
        fe, fam = e.cfg["fe"], e.cfg["fam"]
        ops = []

        def maybe(op, key):
            if rng.random() < .45:
                f = pool.gen_fault(rng, fe, key, kinds)
                if f:
                    op["fault"] = f
            return op
        if build:
            c = dict(e.cfg, generic=True) if rng.random() < .3 else e.cfg
            if rng.random() < .3:
                ops.append(maybe(dict(op="build", obj=name + "f", cfg=c), world.k_build(e.cfg)))
            ops.append(dict(op="build", obj=name, cfg=c))
        for _ in range(rng.choice([1, 2, 3])):
            u = rng.random()
            if u < .1 and len(e.sets) > 1:
                ops.append(dict(op="set", obj=name, st=e.sets[1]))
            elif u < .2 and fam in ("1d", "jtfs") and fe != "keras":
                ops.append(maybe(dict(op=rng.choice(["meta", "osize"]), obj=name), world.k_meta(e.cfg, {})))
            elif u < .25:
                ops.append(dict(op="attrs", obj=name))
            elif u < .35:
                ops.append(dict(op="copy", obj=name, how=rng.choice(["deepcopy", "copy", "pickle", "double", "state"])))
            elif u < .45:
                ops.append(dict(op="bad", obj=name, bad=rng.choice(world.BAD)))
            elif u < .52:
                c = copy.deepcopy(e.cfg)
                bad = rng.choice(BADKW[fam])
                if fe == "keras":
                    bad = {k: v for k, v in bad.items() if k in ("J", "L", "Q", "T")}
                c["kw"].update(bad)
                ops.append(dict(op="badbuild", cfg=c))
            else:
                x = rng.choice(e.inputs)
                ops.append(maybe(dict(op="call", obj=name, x=x, how=rng.choice(["call", "scattering"])), world.k_call(e.cfg, {}, x)))
        return ops

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        eps = []
        for _ in range({"jax": 3, "tensorflow": 2, "keras": 2}.get(combo[1], 2)):
            nt = rng.choice([1, 1, 1, 2, 2, 3])
            kinds = rng.choice([("lib",), ("lib", "bin")])
            pre = [dict(op="warm", fe=combo[1]), dict(op="ambient")]
            e0 = rng.choice(ents)
            pre.append(dict(op="build", obj="s", cfg=e0.cfg))
            tasks, n = [], 0
            for tk in range(nt):
                ops = [dict(op="ambient")]
                for b in range(rng.choice([1, 2])):
                    e = rng.choice(ents)
                    bld = rng.random() < (.5 if combo[0] != "2d" else .3)
                    if bld:
                        n += pool.cost(world.k_build(e.cfg))
                    else:
                        e = e0
                    ops += self.ops_for(rng, e, "p%d_%d" % (tk, b) if bld else "s", kinds, bld)
                    n += 2 * pool.cost(world.k_call(e.cfg, {}, e.inputs[0]))
                tasks.append(ops)
            eps.append(dict(pre=pre, tasks=tasks, post=[], ambient=settings.gen_ambient(rng), sched=sched.gen_policy(rng, n) if nt > 1 else {"name": "none"}))
        return {"episodes": eps}


CHECK = C05()
