"""C09: replicas made for data-parallel use compute with their own filters."""
import hashlib

from .. import cases, pool, runner, sched, world


def factor(rs, name):
    h = hashlib.sha256(("%s/%s" % (rs, name)).encode()).digest()
    return .6 + h[0] / 256. * 1.2


def rescale(S, root, rs):
    """Give S buffers of its own: those of root, each multiplied by its own factor."""
    for n in list(S._buffers):
        if S._buffers[n] is not None:
            S._buffers[n] = root._buffers[n].clone() * factor(rs, n)


def k_rcall(cfg, st, rs, x):
    return cases.key_of("rcall", world.merged(cfg, st), rs, x)


def eval_rcall(cfg, S, rs, x):
    rescale(S, S, rs)
    return cases.norm(cases.call(cfg, S, cases.mk_input(cfg, x)))


world.EVAL["rcall"] = eval_rcall


class W09(world.World):
    def op_replicate(self, t, op):
        """What torch.nn.parallel.replicate does: a replica whose buffers are copies on another device."""
        o = self.objs.get(op["src"])
        if o is None:
            return ("skip",)
        R = o.S._replicate_for_data_parallel()
        root = o.extra.get("root", o.S)
        rs = op["rs"]
        if rs is not None:
            rescale(R, root, rs)
        else:
            for n in list(R._buffers):
                R._buffers[n] = root._buffers[n].clone()
        n = world.Obj(R, o.cfg, o.st)
        n.extra.update(root=root, rs=rs)
        self.objs[op["obj"]] = n
        self.bump("replicas")
        return ("replicated", rs)

    def op_rcall(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        cfg, st, rs = o.cfg, dict(o.st), o.extra.get("rs")
        x = self.get_input(cfg, op["x"])
        before = [(n, b, b._version) for n, b in sorted(o.S._buffers.items())]
        self.arm(t, op)
        r = cases.call(cfg, o.S, x, op.get("how", "call"))
        self.disarm(t)
        res = cases.norm(r)
        plain = world.EXP.get(world.k_call(cfg, st, op["x"]))
        if rs is None:
            d = cases.diff(res, plain)
        else:
            e = world.EXP.get(k_rcall(cfg, st, rs, op["x"]))
            if e is None:
                raise KeyError("no expected value for replica")
            d = cases.diff(res, e)
            if d is None and cases.diff(res, plain) is None:
                d = "the result does not depend on the replica's buffers"
        if d:
            self.violation("wrong-result", "call on replica %s: %s" % (op["obj"], d), op=op)
        after = sorted(o.S._buffers.items())
        if len(after) != len(before) or any(n != m or b is not c or b._version != v for (n, b, v), (m, c) in zip(before, after)):
            self.violation("buffers-changed", "a call changed the buffers of %s" % op["obj"], op=op)
        return ("res", res.digest())


class C09(runner.Check):
    prop = "C09"
    world = W09
    libs = ("numpy", "scipy.fft", "scipy.signal", "scipy.special", "torch", "tensorflow", "jax", "jax.numpy", "sklearn.base")
    runs = {"quick": 1500, "thorough": 80000}
    cap = {"quick": 56., "thorough": 3000.}
    counts = ("call", "rcall")
    rule = ("a run makes 2-5 replicas (nn.Module._replicate_for_data_parallel, as DataParallel does) of a torch transform, gives each its own scaled buffers, and calls replicas and original "
            "from 2-4 tasks under a seeded schedule, with failing calls and re-replication in between; every result is compared with that of a lone transform holding the same "
            "buffers; non-trivial: at least two replicas overlap; distinct by digest of history and switches")
    assumptions = ["scaled CPU buffers stand for the per-device copies DataParallel makes"]
    real = "all of kymatio's torch front ends, torch's module replication"
    stub = "devices (buffers with distinguishable values instead), thread scheduling, the failing library call or line"
    PER = {"quick": 9, "thorough": 60}
    RS = 3

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()

        def tweak(r, c):
            if r.random() < .2:
                c["double"] = True
        keys = self.pool.build(rng, self.PER[tier], variants=1, n_inputs=2, n_sets=1, fes=("torch",), small=True, full_sets=True,
                               batches=[[1], [2], []], tweak=tweak)
        for cl in self.pool.clusters.values():
            for ents in cl:
                for e in ents:
                    for st in e.sets:
                        for x in e.inputs:
                            for rs in range(self.RS):
                                keys.append(k_rcall(e.cfg, st, rs, x))
        return keys

    def after_pool(self, tier):
        self.pool.prune()

    def episode(self, rng, e):
        cfg = e.cfg
        pre = [dict(op="build", obj="a", cfg=cfg)]
        st, keys = {}, []
        if rng.random() < .3 and len(e.sets) > 1:
            st = rng.choice(e.sets[1:])
            pre.append(dict(op="set", obj="a", st=st))
        if rng.random() < .5:
            pre.append(dict(op="call", obj="a", x=rng.choice(e.inputs)))
        kinds = rng.choice([("lib",), ("lib", "bin", "line")])
        nr = rng.choice([1, 2, 2, 3, 4])
        reps = []
        for r in range(nr):
            rs = rng.choice([None, 0, 1, 2, 0, 1, 2])
            pre.append(dict(op="replicate", obj="r%d" % r, src=rng.choice(["a"] + reps), rs=rs))
            reps.append("r%d" % r)
        rss = {o["obj"]: o["rs"] for o in pre if o["op"] == "replicate"}

        def use(name, fault=True):
            x = rng.choice(e.inputs)
            op = dict(op="rcall", obj=name, x=x, how=rng.choice(["call", "scattering"]), kcall=True)
            rs = rss.get(name)
            keys.append(world.k_call(cfg, st, x))
            if rs is not None:
                keys.append(k_rcall(cfg, st, rs, x))
            if fault and rng.random() < .12:
                f = pool.gen_fault(rng, "torch", world.k_call(cfg, {}, x), kinds)
                if f:
                    op["fault"] = f
            return op
        tasks = []
        who = reps + ["a"]
        rng.shuffle(who)
        for tk in range(max(2, min(4, len(who)))):
            ops = []
            nm = who[tk % len(who)]
            for _ in range(rng.choice([1, 1, 2, 3])):
                u = rng.random()
                if u < .12 and nm != "a":
                    # a new replica of the same name, as every DataParallel forward makes one (only this task uses it)
                    new = "%s_%d" % (nm, len(ops))
                    rss[new] = rng.choice([None, 0, 1, 2])
                    ops.append(dict(op="replicate", obj=new, src="a", rs=rss[new]))
                    nm = new
                ops.append(use(nm if rng.random() < .85 else rng.choice(who)))
            tasks.append(ops)
        post = [use(nm, False) for nm in who]
        if rng.random() < .3:
            post.insert(0, dict(op="drop", obj="a"))
            post.insert(1, dict(op="gc", obj="a"))
        n = sum(len(t) for t in tasks) * pool.cost(world.k_call(cfg, {}, e.inputs[0]))
        return dict(pre=pre, tasks=tasks, post=post, sched=sched.gen_policy(rng, n)), keys

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        eps, keys = [], []
        for _ in range(rng.randint(1, 3)):
            ep, k = self.episode(rng, rng.choice(ents))
            eps.append(ep)
            keys += k
        return {"episodes": eps, "keys": sorted(set(keys))}


CHECK = C09()
