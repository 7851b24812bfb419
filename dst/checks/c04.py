"""C04: a failed construction leaves nothing behind and can be retried."""
import copy

from .. import pool, runner, sched, world

BADKW = {"1d": [dict(J="x"), dict(Q=0), dict(shape="a"), dict(shape=-4), dict(T=-1), dict(T=10 ** 6), dict(J=None), dict(Q=[1, 2, 3]), dict(shape=0),
                dict(shape=[4, 4]), dict(J=2.5), dict(T="bogus"), dict(J=-1), dict(stride=3)],
         "jtfs": [dict(J_fr=None), dict(F=10 ** 6), dict(F=-1), dict(Q_fr=0), dict(T=10 ** 6), dict(format="bogus"), dict(Q=0), dict(shape="a"), dict(J=-1)],
         "2d": [dict(J=-1), dict(J=20), dict(shape=[4]), dict(shape="a"), dict(J=None), dict(shape=[0, 0]), dict(L="x"), dict(L=-2)],
         "3d": [dict(shape=[4, 4]), dict(shape="a"), dict(sigma_0=0), dict(sigma_0="x"), dict(J=None), dict(shape=[0, 0, 0]), dict(L=-1)]}


class W04(world.World):
    def op_rebuild(self, t, op):
        """Build again if the earlier attempt failed."""
        if op["obj"] in self.objs:
            return ("skip",)
        self.bump("rebuilt_after_failure")
        return self.op_build(t, op)


class C04(runner.Check):
    prop = "C04"
    world = W04
    runs = {"quick": 900, "thorough": 60000}
    cap = {"quick": 66., "thorough": 3000.}
    counts = ("build",)
    rule = ("a run makes 1-6 constructions from 1-3 tasks, of which some are hit by an allocation failure, library error or interrupt at a random point or have "
            "rejected arguments; every failed one is repeated, and all transforms before, beside and after are then called, compared and inspected; "
            "non-trivial: at least one construction is made to fail; distinct by digest of history and switches")
    assumptions = ["a failing library call fails before it has any effect", "interrupts strike between lines of kymatio code"]
    PER = {"quick": dict(numpy=5, sklearn=2, torch=4, tensorflow=2, keras=2, jax=1),
           "thorough": dict(numpy=40, sklearn=20, torch=30, tensorflow=12, keras=8, jax=4)}

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        return self.pool.build(rng, self.PER[tier], variants=3, n_inputs=2, attrs=True, batches=[[1], [1], [2]], small=True)

    def after_pool(self, tier):
        self.pool.prune()

    def cfg(self, rng, e):
        c = e.cfg
        if rng.random() < .3:
            c = dict(c, generic=True)
        return c

    def judge_ops(self, rng, name, e):
        ops = [dict(op="call", obj=name, x=rng.choice(e.inputs), how=rng.choice(["call", "scattering"]))]
        if rng.random() < .5:
            ops.append(dict(op="attrs", obj=name))
        if e.cfg["fam"] in ("1d", "jtfs") and e.cfg["fe"] != "keras" and rng.random() < .5:
            ops.append(dict(op=rng.choice(["meta", "osize"]), obj=name))
        return ops

    def episode(self, rng, ents, combo):
        fe = combo[1]
        pre, post, tasks, n = [], [], [], 0
        shared = []
        for k in range(rng.choice([0, 1, 1])):
            e = rng.choice(ents)
            pre.append(dict(op="build", obj="s%d" % k, cfg=self.cfg(rng, e)))
            shared.append(("s%d" % k, e))
            if rng.random() < .4:
                pre.append(dict(op="call", obj="s%d" % k, x=rng.choice(e.inputs)))
        kinds = rng.choice([("lib",), ("lib", "bin"), ("line",), ("lib", "bin", "line")])
        nt = rng.choice([1, 1, 2, 3])
        for tk in range(nt):
            ops = []
            for b in range(rng.choice([1, 2, 3] if nt == 1 else [1, 2])):
                e = rng.choice(ents)
                name = "p%d_%d" % (tk, b)
                key = world.k_build(e.cfg)
                n += pool.cost(key) + pool.cost(world.k_call(e.cfg, {}, e.inputs[0]))
                u = rng.random()
                if u < .2:
                    c = copy.deepcopy(self.cfg(rng, e))
                    bad = dict(rng.choice(BADKW[e.cfg["fam"]]))
                    if fe == "keras":
                        bad = {k: v for k, v in bad.items() if k in ("J", "L", "Q", "T")}
                    c["kw"].update(bad)
                    ops.append(dict(op="badbuild", cfg=c))
                elif u < .9 or (tk == 0 and b == 0):
                    for _ in range(rng.choice([1, 1, 2])):
                        f = pool.gen_fault(rng, fe, key, kinds)
                        op = dict(op="build", obj=name, cfg=self.cfg(rng, e))
                        if f:
                            op["fault"] = f
                        ops.append(op)
                if rng.random() < .4 and shared:
                    nm, ee = rng.choice(shared)
                    ops += self.judge_ops(rng, nm, ee)
                ops.append(dict(op="rebuild", obj=name, cfg=self.cfg(rng, e)))
                j = self.judge_ops(rng, name, e)
                if rng.random() < .6:
                    ops += j
                else:
                    post += j
            tasks.append(ops)
        for nm, e in shared:
            post += self.judge_ops(rng, nm, e)
        e = rng.choice(ents)
        post.append(dict(op="build", obj="z", cfg=self.cfg(rng, e)))
        post += self.judge_ops(rng, "z", e)
        return dict(pre=pre, tasks=tasks, post=post, sched=sched.gen_policy(rng, n) if nt > 1 else {"name": "none"})

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        k = {"jax": 4, "tensorflow": 2, "keras": 2}.get(combo[1], 2) if combo[0] != "2d" else 1
        return {"episodes": [self.episode(rng, ents, combo) for _ in range(rng.randint(1, k))]}


CHECK = C04()
