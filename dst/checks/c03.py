"""C03: a call that fails part-way raises and leaves the transform fully usable."""
from .. import cases, pool, runner, sched, world


class C03(runner.Check):
    prop = "C03"
    runs = {"quick": 1200, "thorough": 80000}
    cap = {"quick": 72., "thorough": 3000.}
    counts = ("call", "meta")
    rule = ("a run makes 2-12 calls on one or two transforms from 1-3 tasks; some calls are hit by an allocation failure, library error or interrupt at a "
            "random library call, operator or line; non-trivial: at least one fault was armed; distinct by digest of history and switches")
    assumptions = ["a failing library call fails before it has any effect", "interrupts strike between lines of kymatio code"]
    PER = {"quick": dict(numpy=6, sklearn=3, torch=6, tensorflow=3, keras=2, jax=2),
           "thorough": dict(numpy=40, sklearn=20, torch=40, tensorflow=16, keras=10, jax=5)}

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        return self.pool.build(rng, self.PER[tier], variants=1, n_inputs=3, attrs=True, batches=[[], [1], [2], [2, 2], [3]], small=True, kinds=pool.RARE)

    def after_pool(self, tier):
        self.pool.prune()

    def episode(self, rng, e):
        fe = e.cfg["fe"]
        has_meta = e.cfg["fam"] in ("1d", "jtfs") and fe != "keras"
        pre = [dict(op="build", obj="a", cfg=e.cfg)]
        if rng.random() < .5:
            pre.append(dict(op="call", obj="a", x=rng.choice(e.inputs)))
        nt = rng.choice([1, 1, 1, 2, 2, 3])
        pf = rng.choice([.25, .5, .8])
        kinds = rng.choice([("lib",), ("lib", "bin"), ("line",), ("lib", "bin", "line")])
        tasks, n, nf = [], 0, 0
        for tk in range(nt):
            ops = []
            for q in range(rng.choice([2, 3, 4] if nt == 1 else [1, 2, 3])):
                if has_meta and rng.random() < .1:
                    op, key = dict(op="meta", obj="a"), world.k_meta(e.cfg, {})
                else:
                    x = rng.choice(e.inputs)
                    op, key = dict(op="call", obj="a", x=x, how=rng.choice(["call", "scattering"])), world.k_call(e.cfg, {}, x)
                n += pool.cost(key)
                if rng.random() < pf or (nf == 0 and tk == nt - 1 and q == 0):
                    f = pool.gen_fault(rng, fe, key, kinds)
                    if f:
                        if rng.random() < .1:
                            g = pool.gen_fault(rng, fe, key, kinds)
                            if g and g["kind"] == f["kind"]:
                                a, b = sorted([f["k"], g["k"]])
                                f = dict(f, k=a, more=dict(g, k=b + (a == b)))
                        op["fault"] = f
                        nf += 1
                ops.append(op)
                if rng.random() < .15:
                    ops.append(dict(op="attrs", obj="a"))
            tasks.append(ops)
        post = [dict(op="call", obj="a", x=x) for x in e.inputs[:rng.choice([1, 2, 3])]] + [dict(op="attrs", obj="a")]
        if has_meta:
            post.append(dict(op=rng.choice(["meta", "osize"]), obj="a"))
        return dict(pre=pre, tasks=tasks, post=post, sched=sched.gen_policy(rng, n) if nt > 1 else {"name": "none"})

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        k = {"jax": 8, "tensorflow": 3, "keras": 3}.get(combo[1], 2)
        return {"episodes": [self.episode(rng, rng.choice(ents)) for _ in range(rng.randint(1, k))]}


CHECK = C03()
