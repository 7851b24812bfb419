"""C10: gradients belong to their own forward pass, whatever overlaps."""
import random

import numpy as np

from .. import cases, pool, runner, sched, world


def parts_of(r, w):
    """The differentiable arrays of a result and the gradient of the loss with respect to each."""
    import torch
    out = []
    rng = np.random.RandomState(w)
    for a in cases.arrays_of(r):
        if a.requires_grad:
            out.append((a, torch.from_numpy(rng.standard_normal(tuple(a.shape))).to(a.dtype)))
    return out


def loss_of(parts):
    tot = None
    for a, v in parts:
        s = (v * a).sum()
        tot = s if tot is None else tot + s
    return tot


def k_grad(cfg, st, x, w):
    return cases.key_of("grad", world.merged(cfg, st), x, w)


def eval_grad(cfg, S, x, w):
    import torch
    leaf = cases.mk_input(cfg, x).clone().requires_grad_(True)
    loss = loss_of(parts_of(cases.call(cfg, S, leaf), w))
    g, = torch.autograd.grad(loss, leaf)
    return cases.norm(g)


world.EVAL["grad"] = eval_grad


class W10(world.World):
    def __init__(self, spec, ep):
        super().__init__(spec, ep)
        self.tapes, self.leaves = {}, {}

    def want(self, key):
        e = world.EXP.get(key)
        if e is None:
            raise KeyError("no expected gradient")
        return e

    def op_fwd(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        cfg, st = o.cfg, dict(o.st)
        leaf = self.leaves.get(op.get("leaf"))
        if leaf is None:
            leaf = [cases.mk_input(cfg, op["x"]).clone().requires_grad_(True), [], [0]]
            if op.get("leaf"):
                self.leaves[op["leaf"]] = leaf
        self.arm(t, op)
        r = cases.call(cfg, o.S, leaf[0] if not op.get("view") else leaf[0] * 1, op.get("how", "call"))
        self.disarm(t)
        res = cases.norm(r)
        self.judge(t, op, res, world.k_call(cfg, st, op["x"]))
        arrs = [a.detach() for a in cases.arrays_of(r) if hasattr(a, "detach")]
        self.tapes[op["tape"]] = [leaf, parts_of(r, op["w"]), k_grad(cfg, st, op["x"], op["w"]), arrs, [a.numpy().tobytes() for a in arrs], o]
        return ("fwd", res.digest())

    def op_bwd(self, t, op):
        import torch
        tp = self.tapes.get(op["tape"])
        if tp is None:
            return ("skip",)
        leaf, parts, key = tp[:3]
        if not op.get("retain"):
            del self.tapes[op["tape"]]
        if op.get("swap"):
            # other buffers are in place while the gradient is computed, and the ones of the forward pass after it
            S, r = tp[5].S, random.Random(op["swap"])
            old = dict(S._buffers)
            for n, b in sorted(old.items()):
                S._buffers[n] = (b * r.uniform(.6, 1.7)).to(r.choice([b.dtype, b.dtype, torch.float64]))
            try:
                return self.bwd(t, op, leaf, parts, key, tp)
            finally:
                S._buffers.clear()
                S._buffers.update(old)
        return self.bwd(t, op, leaf, parts, key, tp)

    def bwd(self, t, op, leaf, parts, key, tp):
        import torch
        self.arm(t, op)
        if op.get("accum"):
            leaf[2][0] += 1                     # a failing pass may leave some of its gradient in .grad
            loss_of(parts).backward(retain_graph=bool(op.get("retain")))
            leaf[2][0] -= 1
            self.disarm(t)
            leaf[1].append(key)
            self.bump("backward_accumulated")
            self.intact(tp, op)
            return ("bwd",)
        if op.get("outs"):
            vs = [v.clone() for a, v in parts]
            g, = torch.autograd.grad([a for a, v in parts], leaf[0], vs, retain_graph=bool(op.get("retain")))
            for (a, v), v1 in zip(parts, vs):
                if v1.numpy().tobytes() != v.numpy().tobytes():
                    self.violation("gradient-written", "the backward pass of %s wrote into the gradient it was given" % op["tape"], op=op)
                    break
        else:
            g, = torch.autograd.grad(loss_of(parts), leaf[0], retain_graph=bool(op.get("retain")))
        self.disarm(t)
        self.intact(tp, op)
        g = cases.norm(g)
        self.bump("backward")
        d = cases.diff(g, self.want(key), loose=True)
        if d:
            self.violation("wrong-gradient", "gradient of %s: %s" % (op["tape"], d), op=op)
        return ("bwd", g.digest())

    def intact(self, tp, op):
        """The results of the forward pass are the caller's: no backward pass changes them."""
        if any(a.numpy().tobytes() != b for a, b in zip(tp[3], tp[4])):
            self.violation("result-changed", "the backward pass of %s changed the results of its forward pass" % op["tape"], op=op)

    def op_leaf(self, t, op):
        """.grad of a leaf is the sum over the backward passes that reached it."""
        leaf = self.leaves.get(op["leaf"])
        if leaf is None or leaf[2][0] or not leaf[1]:
            return ("skip",)
        got = cases.norm(leaf[0].grad)
        es = [self.want(k) for k in leaf[1]]
        tot = sum(e.arrs[0].astype(np.float64) for e in es)
        fin = np.isfinite(tot)
        scale = max(float(np.max(np.abs(np.where(fin, e.arrs[0], 0)))) for e in es)
        err = float(np.max(np.abs(np.where(fin, got.arrs[0] - np.where(fin, tot, 0), 0)))) if tot.size else 0.
        if not np.array_equal(np.isfinite(got.arrs[0]), fin):
            err = np.inf
        if not err <= (1e-3 if es[0].arrs[0].dtype == np.float32 else 1e-9) * scale + 1e-30:
            self.violation("wrong-gradient", ".grad of %s after %d passes is off by %.3g (scale %.3g)" % (op["leaf"], len(es), err, scale), op=op)
        return ("leaf", got.digest())

    def op_nograd(self, t, op):
        import torch
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        cfg, st = o.cfg, dict(o.st)
        x = cases.mk_input(cfg, op["x"])
        with (torch.no_grad() if op["mode"] == "no_grad" else torch.inference_mode()):
            self.arm(t, op)
            r = cases.call(cfg, o.S, x)
            self.disarm(t)
            res = cases.norm(r)
        self.judge(t, op, res, world.k_call(cfg, st, op["x"]))
        return ("res", res.digest())

    def op_recast(self, t, op):
        """There and back: the values are the same afterwards, and earlier passes keep theirs."""
        o = self.objs.get(op["obj"])
        if o is None or o.cfg.get("double"):
            return ("skip",)
        o.S.double()
        o.S.float()
        return ("recast",)


    # ---- the backend's modulus used on its own: the derivative has a closed form
    def op_mfwd(self, t, op):
        import torch
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        r = np.random.RandomState(op["seed"])
        a = r.standard_normal(tuple(op["shape"]) + (2,)) * r.choice([1., 1., 0.], size=tuple(op["shape"]))[..., None]
        dt = torch.float64 if op["dbl"] else torch.float32
        x = torch.from_numpy(a).to(dt).requires_grad_(True)
        self.arm(t, op)
        y = o.S.backend.modulus(x)
        self.disarm(t)
        g = torch.from_numpy(r.standard_normal(tuple(y.shape))).to(dt)
        a = x.detach().numpy().copy()
        m = np.sqrt((a * a).sum(-1, keepdims=True))
        want = np.where(m == 0, 0, a / np.where(m == 0, 1, m)) * g.numpy().reshape(m.shape)
        self.tapes[op["tape"]] = [x, y, g, g.numpy().copy(), want, y.detach().numpy().tobytes()]
        got = y.detach().numpy().reshape(m.shape)
        if not np.allclose(got, m, rtol=1e-5, atol=1e-12):
            self.violation("wrong-result", "the modulus of a %s array" % (x.shape,), op=op)
        return ("mfwd",)

    def op_mbwd(self, t, op):
        import torch
        tp = self.tapes.get(op["tape"])
        if tp is None:
            return ("skip",)
        x, y, g, g0, want, y0 = tp
        if not op.get("retain"):
            del self.tapes[op["tape"]]
        self.arm(t, op)
        got, = torch.autograd.grad(y, x, g, retain_graph=bool(op.get("retain")))
        self.disarm(t)
        self.bump("backward_modulus")
        if not np.allclose(got.numpy(), want, rtol=1e-5, atol=1e-12):
            self.violation("wrong-gradient", "of the modulus of a %s array: off by %.3g" % (tuple(x.shape), np.max(np.abs(got.numpy() - want))), op=op)
        if y.detach().numpy().tobytes() != y0:
            self.violation("result-changed", "the backward pass of the modulus changed its forward result", op=op)
        if g.numpy().tobytes() != g0.tobytes():
            self.violation("gradient-written", "the backward pass of the modulus wrote into the gradient it was given", op=op)
        return ("mbwd",)


class C10(runner.Check):
    prop = "C10"
    world = W10
    libs = ("numpy", "scipy.fft", "scipy.signal", "scipy.special", "torch", "tensorflow", "jax", "jax.numpy", "sklearn.base")
    runs = {"quick": 1500, "thorough": 80000}
    cap = {"quick": 56., "thorough": 3000.}
    counts = ("call",)
    rule = ("a run makes 2-12 forward passes on 1-3 torch transforms from 1-3 tasks and their backward passes in another order, some twice, some failing and repeated, some accumulated into one leaf, "
            "with no_grad and inference-mode calls, settings, casts, drops and collections in between; every gradient is compared with that of the same forward and backward alone in a fresh "
            "process; distinct by digest of history and switches")
    assumptions = ["torch's autograd engine is correct and runs the backward of CPU graphs on the calling thread"]
    real = "all of kymatio's torch front ends and backends, torch autograd"
    stub = "thread scheduling, the failing library call or line"
    PER = {"quick": 9, "thorough": 60}
    KINDS = ("randn", "randn", "sparse", "zero", "pos", "large", "const")
    NW = 2

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()

        def tweak(r, c):
            if r.random() < .25:
                c["double"] = True
        keys = self.pool.build(rng, self.PER[tier], variants=2, n_inputs=2, n_sets=1, fes=("torch",), small=True, full_sets=True,
                               batches=[[1], [2], []], tweak=tweak, kinds=self.KINDS)
        for cl in self.pool.clusters.values():
            for ents in cl:
                for e in ents:
                    for st in e.sets:
                        for x in e.inputs:
                            for w in range(self.NW):
                                keys.append(k_grad(e.cfg, st, x, w))
        return keys

    def after_pool(self, tier):
        self.pool.prune()
        for cl in self.pool.clusters.values():
            for ents in cl:
                for e in ents:
                    e.sets = [s for s in e.sets if all(isinstance(world.EXP.get(k_grad(e.cfg, s, x, w)), cases.Res)
                                                       for x in e.inputs for w in range(self.NW))]
        for k in list(self.pool.clusters):
            self.pool.clusters[k] = [c for c in ([e for e in ents if {} in e.sets] for ents in self.pool.clusters[k]) if c]
            if not self.pool.clusters[k]:
                raise RuntimeError("no gradient works for %s" % (k,))

    def bfault(self, rng, kinds):
        kind = rng.choice(kinds)
        return {"kind": kind, "k": 1 + int(rng.expovariate(1 / 12.)), "exc": "KeyboardInterrupt" if kind == "line" else rng.choice(["MemoryError", "RuntimeError"])}

    def episode(self, rng, ents):
        keys, pre, tasks, post = [], [], [], []
        objs = [("a%d" % k, rng.choice(ents)) for k in range(rng.choice([1, 1, 2, 3]))]
        stof = {}
        for nm, e in objs:
            pre.append(dict(op="build", obj=nm, cfg=e.cfg))
            stof[nm] = {}
        kinds = rng.choice([("lib",), ("lib", "bin", "line")])
        nt = rng.choice([1, 1, 2, 2, 3])
        n = 0
        for tk in range(nt):
            ops, open_ = [], []
            for q in range(rng.choice([2, 4, 6, 10]) if nt == 1 else rng.choice([2, 3, 5])):
                nm, e = rng.choice(objs)
                u = rng.random()
                if u < .45 or not open_:
                    x, w = rng.choice(e.inputs), rng.randrange(self.NW)
                    tape = "t%d_%d" % (tk, q)
                    op = dict(op="fwd", obj=nm, x=x, w=w, tape=tape, kcall=True, how=rng.choice(["call", "scattering"]))
                    if rng.random() < .3:
                        op["leaf"] = "leaf-%d-%s" % (rng.randrange(2) if nt == 1 else tk, sorted(x.items()))
                    if rng.random() < .3:
                        op["view"] = True
                    if rng.random() < .12:
                        f = pool.gen_fault(rng, "torch", world.k_call(e.cfg, {}, x), kinds)
                        if f:
                            op["fault"] = f
                    for s in e.sets:
                        keys += [world.k_call(e.cfg, s, x), k_grad(e.cfg, s, x, w)]
                    ops.append(op)
                    open_.append(op)
                    n += pool.cost(world.k_call(e.cfg, {}, x))
                elif u < .8:
                    f = open_.pop(rng.randrange(len(open_)))
                    acc = bool(f.get("leaf")) and rng.random() < .7
                    if rng.random() < .25:
                        ops.append(dict(op="bwd", tape=f["tape"], retain=True, accum=acc and rng.random() < .5))
                        if rng.random() < .6:
                            ops[-1]["fault"] = self.bfault(rng, kinds)
                    if nt == 1 and rng.random() < .25 and len(dict(objs)[f["obj"]].sets) > 1:
                        ops.append(dict(op="set", obj=f["obj"], st=rng.choice(dict(objs)[f["obj"]].sets)))
                    ops.append(dict(op="bwd", tape=f["tape"], accum=acc, outs=rng.random() < .4))
                    if nt == 1 and rng.random() < .2:
                        ops[-1]["swap"] = 1 + rng.randrange(1 << 20)
                    if acc:
                        ops.append(dict(op="leaf", leaf=f["leaf"]))
                elif u < .86:
                    ops.append(dict(op="nograd", obj=nm, x=rng.choice(e.inputs), mode=rng.choice(["no_grad", "inference"]), kcall=True))
                elif u < .9:
                    tape = "m%d_%d" % (tk, q)
                    ops.append(dict(op="mfwd", obj=nm, tape=tape, seed=rng.randrange(1 << 16), dbl=rng.random() < .5,
                                    shape=[rng.randint(1, 4) for _ in range(rng.randint(1, 3))]))
                    late = []
                    for k in range(rng.choice([1, 1, 2, 3]), 0, -1):
                        late.append(dict(op="mbwd", tape=tape, retain=k > 1))
                        if k > 1 and rng.random() < .4:
                            late[-1]["fault"] = dict(self.bfault(rng, kinds), k=rng.randint(1, 6))
                    if rng.random() < .5:
                        ops += late
                    else:
                        post += late
                elif nt > 1:
                    ops.append(dict(op="call", obj=nm, x=rng.choice(e.inputs)))
                elif u < .92 and len(e.sets) > 1:
                    ops.append(dict(op="set", obj=nm, st=rng.choice(e.sets[1:])))
                elif u < .94:
                    ops.append(dict(op="recast", obj=nm))
                elif u < .97:
                    ops.append(dict(op="bad", obj=nm, bad=rng.choice(world.BAD)))
                else:
                    ops.append(dict(op="drop", obj=nm))
                    ops.append(dict(op="gc", obj=nm))
            rng.shuffle(open_)
            for f in open_:
                b = dict(op="bwd", tape=f["tape"], accum=bool(f.get("leaf")))
                (ops if rng.random() < .6 else post).append(b)
                if f.get("leaf"):
                    post.append(dict(op="leaf", leaf=f["leaf"]))
            tasks.append(ops)
        post.sort(key=lambda o: o["op"] == "leaf")
        return dict(pre=pre, tasks=tasks, post=post, sched=sched.gen_policy(rng, n) if nt > 1 else {"name": "none"}), keys

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        eps, keys = [], []
        for _ in range(rng.randint(1, 2)):
            ep, k = self.episode(rng, ents)
            eps.append(ep)
            keys += k
        return {"episodes": eps, "keys": sorted(set(keys))}


CHECK = C10()
