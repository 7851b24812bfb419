"""C02: transforms are isolated from one another."""
from .. import cases, pool, runner, sched, world


def tweak(rng, cfg):
    """Some longer signals and averaging scales: rounding tells fewer of them apart."""
    if cfg["fam"] == "1d" and cfg["fe"] in ("numpy", "torch", "sklearn") and rng.random() < .4:
        N = rng.choice([256, 400, 512])
        cfg["sig"], cfg["kw"]["shape"] = [N], N
        cfg["kw"]["Q"] = min(cfg["kw"]["Q"], 2) if isinstance(cfg["kw"]["Q"], int) else cfg["kw"]["Q"]
        if "stride" not in cfg["kw"] and cfg["kw"].get("T") != 0:
            cfg["kw"]["T"] = rng.choice([N, N - 1, N // 2, rng.randint(100, N)])


class C02(runner.Check):
    prop = "C02"
    runs = {"quick": 700, "thorough": 50000}
    cap = {"quick": 72., "thorough": 3000.}
    rule = ("a run builds, calls, reconfigures, rejects, drops and inspects 2-7 transforms, most of them differing in one argument, from 1-3 tasks under a "
            "seeded schedule; every result is compared with that of the same transform alone in a fresh process; distinct by digest of history and switches")
    assumptions = ["library calls are atomic with respect to scheduling"]
    PER = {"quick": dict(numpy=5, sklearn=2, torch=4, tensorflow=2, keras=2, jax=1),
           "thorough": dict(numpy=40, sklearn=20, torch=30, tensorflow=12, keras=10, jax=4)}

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        return self.pool.build(rng, self.PER[tier], variants=4, n_inputs=2, n_sets=1, attrs=True, batches=[[1], [1], [2], [2, 1]], small=True, tweak=tweak, kinds=pool.RARE)

    def after_pool(self, tier):
        self.pool.prune()

    def some_ops(self, rng, e, name, build=True):
        ops = []
        st = {}
        if build:
            ops.append(dict(op="build", obj=name, cfg=e.cfg))
        for _ in range(rng.choice([1, 1, 2, 3])):
            u = rng.random()
            if u < .12 and len(e.sets) > 1:
                ops.append(dict(op="set", obj=name, st=rng.choice(e.sets[1:])))
            elif u < .2 and e.cfg["fam"] in ("1d", "jtfs") and e.cfg["fe"] != "keras":
                ops.append(dict(op=rng.choice(["meta", "osize"]), obj=name))
            elif u < .27:
                ops.append(dict(op="bad", obj=name, bad=rng.choice(world.BAD)))
            elif u < .33:
                ops.append(dict(op="attrs", obj=name))
            else:
                ops.append(dict(op="call", obj=name, x=rng.choice(e.inputs), how=rng.choice(["call", "scattering"])))
        if rng.random() < .2:
            ops.append(dict(op="drop", obj=name))
            if rng.random() < .5:
                ops.append(dict(op="gc", obj=name))
        return ops

    def final_ops(self, rng, live):
        post = []
        for name, e in live:
            x = rng.choice(e.inputs)
            post.append(dict(op="call", obj=name, x=x))
            post.append(dict(op="attrs", obj=name))
            if e.cfg["fam"] in ("1d", "jtfs") and e.cfg["fe"] != "keras":
                post.append(dict(op="meta", obj=name))
        rng.shuffle(post)
        return post

    def gen(self, rng, i, tier):
        eps = []
        combo, ents = self.pool.pick_cluster(rng)
        for _ in range(rng.randint(1, 4 if combo[1] == "jax" else 2)):
            es = list(ents)
            if rng.random() < .35:
                c2, e2 = self.pool.pick_cluster(rng, fes=None if rng.random() < .3 and combo[1] != "jax" else (combo[1], "numpy"))
                es = es + list(e2)
            nshared = rng.choice([0, 1, 2])
            pre, live, n = [], [], 0
            for k in range(nshared):
                e = rng.choice(es)
                pre.append(dict(op="build", obj="s%d" % k, cfg=e.cfg))
                live.append(("s%d" % k, e))
                if rng.random() < .5:
                    pre.append(dict(op="call", obj="s%d" % k, x=rng.choice(e.inputs)))
            tasks = []
            for tk in range(rng.choice([1, 2, 2, 3])):
                ops = []
                for b in range(rng.choice([1, 1, 2, 3])):
                    e = rng.choice(es)
                    name = "p%d_%d" % (tk, b)
                    ops += self.some_ops(rng, e, name)
                    live.append((name, e))
                    n += pool.cost(world.k_build(e.cfg)) + 2 * pool.cost(world.k_call(e.cfg, {}, e.inputs[0]))
                    if live[:nshared] and rng.random() < .6:
                        nm, ee = rng.choice(live[:nshared])
                        ops.append(dict(op="call", obj=nm, x=rng.choice(ee.inputs)))
                # the builds of a task may come before its uses: several transforms are alive at once
                if rng.random() < .5:
                    ops.sort(key=lambda o: o["op"] != "build")
                tasks.append(ops)
            eps.append(dict(pre=pre, tasks=tasks, post=self.final_ops(rng, live), sched=sched.gen_policy(rng, n)))
        return {"episodes": eps}


CHECK = C02()
