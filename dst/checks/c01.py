"""C01: overlapping calls on one transform."""
from .. import cases, pool, runner, sched, world


class C01(runner.Check):
    prop = "C01"
    runs = {"quick": 900, "thorough": 60000}
    cap = {"quick": 72., "thorough": 3000.}
    rule = ("a run builds 1-2 transforms and lets 2-4 tasks make 1-3 calls/meta/output_size queries each on them under a seeded schedule; "
            "non-trivial: at least two tasks overlap on one object (every run has >= 2 tasks and several switches); distinct by digest of history and switches")
    assumptions = ["a thread can lose control only between lines (or, in a fraction of the runs, bytecode instructions) of kymatio code; "
                   "library calls are atomic"]
    PER = {"quick": dict(numpy=10, sklearn=5, torch=8, tensorflow=5, keras=4, jax=2),
           "thorough": dict(numpy=60, sklearn=30, torch=50, tensorflow=25, keras=15, jax=8)}
    EPISODES = {"numpy": 2, "sklearn": 2, "torch": 2, "tensorflow": 3, "keras": 3, "jax": 6}

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        return self.pool.build(rng, self.PER[tier], variants=1, n_inputs=3,
                               batches=[[], [1], [2], [3], [2, 2], [5]], kinds=pool.RARE)

    def after_pool(self, tier):
        self.pool.prune()

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        fe = combo[1]
        eps = []
        for _ in range(rng.randint(1, self.EPISODES[fe])):
            e = rng.choice(ents)
            eps.append(self.episode(rng, e))
        return {"episodes": eps}

    def episode(self, rng, e):
        pre = [dict(op="build", obj="a", cfg=e.cfg)]
        st = {}
        if rng.random() < .3:
            pre.append(dict(op="call", obj="a", x=rng.choice(e.inputs), how="call"))
        nt = rng.choice([2, 2, 2, 3, 3, 4])
        if rng.random() < .5:
            xs = [rng.choice(e.inputs)] * 1 + [x for x in e.inputs]
        else:
            xs = e.inputs
        tasks, n = [], 0
        has_meta = e.cfg["fam"] in ("1d", "jtfs") and e.cfg["fe"] != "keras"
        for _ in range(nt):
            ops = []
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
                u = rng.random()
                if has_meta and u < .15:
                    ops.append(dict(op=rng.choice(["meta", "osize"]), obj="a"))
                    n += pool.cost(world.k_meta(e.cfg, st))
                else:
                    x = rng.choice(xs)
                    ops.append(dict(op="call", obj="a", x=x, how=rng.choice(["call", "scattering"])))
                    n += pool.cost(world.k_call(e.cfg, st, x))
            tasks.append(ops)
        post = [dict(op="call", obj="a", x=rng.choice(e.inputs))] if rng.random() < .5 else []
        return dict(pre=pre, tasks=tasks, post=post, sched=sched.gen_policy(rng, n))


CHECK = C01()
