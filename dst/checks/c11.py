"""C11: torch transforms always compute with their current buffers."""
import copy
import random

import numpy as np

from .. import cases, pool, runner, sched, server, world


def fresh(cfg, st, state, x):
    """Runs in a pristine process: the result of a new transform that holds this state from the start."""
    import torch
    import warnings
    warnings.simplefilter("ignore")
    S = cases.build(cfg)
    assert sorted(S._buffers) == sorted(state), "other buffers"
    for n, a in state.items():
        S._buffers[n] = torch.from_numpy(a.copy())
    cases.apply_set(S, st)
    return cases.norm(cases.call(cfg, S, cases.mk_input(cfg, x)))


class W11(world.World):
    def __init__(self, spec, ep):
        super().__init__(spec, ep)
        self.states, self.kept = {}, []

    # ---- changes of the state
    def op_build(self, t, op):
        out = super().op_build(t, op)
        self.objs[op["obj"]].extra["scaled"] = False
        return out

    def get(self, op):
        return self.objs.get(op["obj"])

    def op_cast(self, t, op):
        import torch
        o = self.get(op)
        if o is None:
            return ("skip",)
        k, S = op["how"], o.S
        if op.get("parent"):
            S = torch.nn.Sequential(torch.nn.Identity(), S)
        if k in ("double", "float"):
            getattr(S, k)()
        elif k == "to64":
            S.to(torch.float64)
        elif k == "to32":
            S.to(dtype=torch.float32)
        elif k == "type64":
            S.type(torch.float64)
        elif k == "type32":
            S.type(torch.float32)
        elif k == "cpu":
            S.cpu()
        elif k == "tox":
            S.to(torch.zeros(1, dtype=next(iter(o.S.buffers())).dtype))
        elif k == "share":
            S.share_memory()
        elif k == "int":
            try:
                S.to(torch.int32)
            except TypeError:
                return ("rejected",)
        elif k == "eval":
            S.eval()
        elif k == "train":
            S.train()
        elif k == "nograd":
            S.requires_grad_(False)
        return ("cast", k)

    def op_write(self, t, op):
        """Change buffer values in one of the ways torch offers."""
        import torch
        o = self.get(op)
        if o is None:
            return ("skip",)
        S, how = o.S, op["how"]
        r = random.Random(op["seed"])
        names = sorted(S._buffers)
        if op["some"]:
            names = r.sample(names, 1 if op["some"] == "one" else max(1, len(names) // 2))
        with torch.no_grad():
            for n in names:
                f = r.uniform(.6, 1.7)
                b = S._buffers[n]
                if how == "inplace":
                    b.mul_(f)
                elif how == "data":
                    b.data = b.data * f
                elif how == "datacopy":
                    b.data.copy_(b * f)
                elif how == "setattr":
                    setattr(S, n, b * f)
                elif how == "register":
                    S.register_buffer(n, b * f)
                elif how == "numpy":
                    b.numpy()[...] *= f
        if not op["some"]:
            o.extra["scaled"] = True         # some buffers may be unused (max_order=1)
        return ("write", how)

    def op_snap(self, t, op):
        o = self.get(op)
        if o is None:
            return ("skip",)
        self.states[op["slot"]] = ({k: v.clone() for k, v in o.S.state_dict().items()}, o.extra["scaled"], o.cfg)
        return ("snap",)

    def op_load(self, t, op):
        """load_state_dict from an earlier snapshot (possibly of another transform), complete, partial or failing."""
        o = self.get(op)
        s = self.states.get(op["slot"])
        if o is None or s is None or s[2] != o.cfg:
            return ("skip",)
        sd, how = dict(s[0]), op["how"]
        r = random.Random(op["seed"])
        ks = sorted(sd)
        if how in ("partial", "partassign"):
            for k in r.sample(ks, len(ks) // 2):
                del sd[k]
            o.S.load_state_dict(sd, strict=False, assign=how == "partassign")
            self.states[op["slot"]] = ({k: v.clone() for k, v in s[0].items()}, s[1], s[2])
            o.extra["scaled"] = None                 # unknown
        elif how == "badshape":
            k = r.choice(ks)
            sd[k] = sd[k][..., None].repeat(*([1] * sd[k].dim() + [2]))
            try:
                o.S.load_state_dict(sd)
            except RuntimeError:
                o.extra["scaled"] = None
                return ("rejected",)
            return ("accepted",)
        elif how == "assign":
            o.S.load_state_dict(sd, assign=True)
            # the buffers are now the snapshot's tensors; keep them apart
            self.states[op["slot"]] = ({k: v.clone() for k, v in s[0].items()}, s[1], s[2])
            o.extra["scaled"] = s[1]
        else:
            o.S.load_state_dict(sd)
            o.extra["scaled"] = s[1]
        return ("load", how)

    # ---- uses
    def state_of(self, S):
        return {n: b.detach().numpy().copy() for n, b in S._buffers.items()}

    def dtype(self, state):
        ds = {a.dtype for a in state.values()}
        return "f8" if ds == {np.dtype(np.float64)} else "f4" if ds == {np.dtype(np.float32)} else None

    def expect(self, op, cfg, st, state, x, res, scaled):
        out = server.request("dst.checks.c11", "fresh", cfg, st, state, x)
        if out[0] != "ok":
            raise RuntimeError("pristine evaluation failed: %s" % (out,))
        self.bump("fresh_comparisons")
        d = cases.diff(res, out[1])
        if d is None and scaled and cases.diff(res, world.EXP[world.k_call(cfg, st, op["x"])]) is None and x["kind"] == "randn" and x["dtype"] == op["x"]["dtype"]:
            d = "the result does not depend on the values of the buffers"
        if d:
            self.violation("stale-filters", "%s on %s: %s" % (op["op"], op["obj"], d), op=op)

    def op_bcall(self, t, op):
        o = self.get(op)
        if o is None:
            return ("skip",)
        cfg, st = o.cfg, dict(o.st)
        state = self.state_of(o.S)
        dt = self.dtype(state)
        if dt is None:
            return ("mixed",)
        x = dict(op["x"], dtype=dt)
        self.arm(t, op)
        r = cases.call(cfg, o.S, cases.mk_input(cfg, x), op.get("how", "call"))
        self.disarm(t)
        res = cases.norm(r)
        after = self.state_of(o.S)
        if list(after) != list(state) or any(a.dtype != b.dtype or not np.array_equal(a, b) for a, b in zip(after.values(), state.values())):
            self.violation("buffers-changed", "a call changed the buffers of %s" % op["obj"], op=op)
        sd = o.S.state_dict()
        if sorted(sd) != sorted(state) or any(sd[n].dtype != o.S._buffers[n].dtype or sd[n].data_ptr() != o.S._buffers[n].data_ptr() for n in sd):
            self.violation("state-dict", "state_dict() of %s does not show its buffers" % op["obj"], op=op)
        self.expect(op, cfg, st, state, x, res, o.extra["scaled"])
        self.kept.append((r, res))
        return ("res", res.digest())

    def op_fcall(self, t, op):
        """torch.func.functional_call: one call with other buffers."""
        import torch
        o = self.get(op)
        if o is None:
            return ("skip",)
        cfg, st = o.cfg, dict(o.st)
        r = random.Random(op["seed"])
        bufs = {n: b.detach() * r.uniform(.6, 1.7) for n, b in sorted(o.S._buffers.items())}
        if op.get("to64"):
            bufs = {n: b.double() for n, b in bufs.items()}
        state = {n: b.numpy().copy() for n, b in bufs.items()}
        dt = self.dtype(state)
        if dt is None:
            return ("mixed",)
        x = dict(op["x"], dtype=dt)
        self.arm(t, op)
        r = torch.func.functional_call(o.S, bufs, (cases.mk_input(cfg, x),))
        self.disarm(t)
        res = cases.norm(r)
        self.expect(op, cfg, st, state, x, res, True)
        self.kept.append((r, res))
        return ("res", res.digest())

    def op_dup(self, t, op):
        o = self.objs.get(op["src"])
        if o is None:
            return ("skip",)
        n = world.Obj(copy.deepcopy(o.S), o.cfg, o.st)
        n.extra.update(o.extra)
        self.objs[op["obj"]] = n
        return ("dup",)

    def op_kept(self, t, op):
        """Results returned earlier keep their values."""
        for r, res in self.kept:
            now = cases.norm(r)
            if now.digest() != res.digest():
                self.violation("result-changed", "a result returned earlier has changed: %s" % cases.diff(now, res), op=op)
                break
        return ("kept", len(self.kept))


class C11(runner.Check):
    prop = "C11"
    world = W11
    need_server = "loaded"
    libs = ("numpy", "scipy.fft", "scipy.signal", "scipy.special", "torch", "tensorflow", "jax", "jax.numpy", "sklearn.base")
    runs = {"quick": 900, "thorough": 50000}
    cap = {"quick": 56., "thorough": 3000.}
    counts = ("call",)
    rule = ("a run takes 1-3 torch transforms through casts (double, float, to, type, through a parent module), in-place writes, replacements and registrations of buffers, complete, partial, assigning and failing "
            "loads of state dicts, functional calls, copies, failing calls and calls; each result is compared with that of a new transform holding the same buffers in a pristine process; distinct by digest of history")
    assumptions = ["there is one device; moves are casts and storage moves on the CPU"]
    real = "all of kymatio's torch front ends, torch's module state handling"
    stub = "devices other than the CPU, the failing library call or line"
    PER = {"quick": 8, "thorough": 60}

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        keys = self.pool.build(rng, self.PER[tier], variants=1, n_inputs=2, n_sets=1, fes=("torch",), small=True, full_sets=True, batches=[[1], [2], []], meta=False)
        for fam in cases.FAMS:
            for ents in self.pool.clusters.get((fam, "torch"), []):
                for e in ents:
                    e.inputs = [dict(x, dtype="f4") for x in e.inputs]
        return keys

    def after_pool(self, tier):
        self.pool.prune()

    def episode(self, rng, ents):
        e = rng.choice(ents)
        cfg = e.cfg
        objs = ["a%d" % k for k in range(rng.choice([1, 1, 2]))]
        ops = []
        for nm in objs:
            ops.append(dict(op="build", obj=nm, cfg=cfg))
        kinds = rng.choice([("lib",), ("lib", "bin", "line")])
        slots = []
        d64 = {nm: False for nm in objs}
        w = [rng.choice([.3, 1, 2]) for _ in range(7)]
        def call(nm):
            return dict(op="bcall", obj=nm, x=rng.choice(e.inputs), how=rng.choice(["call", "scattering"]), kcall=True, seed=rng.randrange(1 << 20))

        if rng.random() < .6:
            ops += [call(nm) for nm in objs]
        for q in range(rng.choice([4, 6, 9, 12])):
            if ops[-1]["op"] in ("write", "load", "cast", "set") and rng.random() < .55:
                c = call(ops[-1]["obj"])
                if rng.random() < .45:           # the call that meets the new buffers first fails, often early; the next one counts
                    f = pool.gen_fault(rng, "torch", world.k_call(cfg, {}, c["x"]), ("lib", "line", "line"))
                    if f:
                        if f["kind"] == "line" and rng.random() < .7:
                            f["k"] = 1 + int(rng.expovariate(1 / rng.choice([20., 60., 150.])))
                        ops.append(dict(c, fault=f))
                ops.append(c)
            nm = rng.choice(objs)
            what = pool.wchoice(rng, ["cast", "write", "load", "bcall", "fcall", "set", "dup"], [1.2 * w[0], 1.2 * w[1], w[2], 1.6 * w[3], .4 * w[4], .3 * w[5], .25 * w[6]])
            if what == "cast":
                ops.append(dict(op="cast", obj=nm, how=rng.choice(["double", "float", "double", "float", "to64", "to32", "type64", "type32", "cpu", "tox", "share", "int", "eval", "train", "nograd"]),
                                parent=rng.random() < .3))
            elif what == "write":
                ops.append(dict(op="write", obj=nm, how=rng.choice(["inplace", "data", "datacopy", "setattr", "register", "numpy"]), seed=rng.randrange(1 << 20), some=rng.choice([False, False, "half", "one"])))
            elif what == "load":
                if not slots or rng.random() < .5:
                    s = "s%d" % q
                    ops.append(dict(op="snap", obj=nm, slot=s))
                    slots.append(s)
                else:
                    ops.append(dict(op="load", obj=nm, slot=rng.choice(slots), how=rng.choice(["all", "all", "partial", "partassign", "assign", "badshape"]), seed=rng.randrange(1 << 20)))
            elif what == "set" and len(e.sets) > 1:
                ops.append(dict(op="set", obj=nm, st=rng.choice(e.sets[1:])))
            elif what == "dup" and len(objs) < 4:
                ops.append(dict(op="dup", obj="d%d" % q, src=nm))
                objs.append("d%d" % q)
            else:
                op = dict(op="bcall" if what != "fcall" else "fcall", obj=nm, x=rng.choice(e.inputs), how=rng.choice(["call", "scattering"]), kcall=True, seed=rng.randrange(1 << 20))
                if what == "fcall":
                    op["to64"] = rng.random() < .3
                if rng.random() < .15:
                    f = pool.gen_fault(rng, "torch", world.k_call(cfg, {}, op["x"]), kinds)
                    if f:
                        op["fault"] = f
                ops.append(op)
        for nm in objs:
            ops.append(dict(op="bcall", obj=nm, x=rng.choice(e.inputs), kcall=True))
        ops.append(dict(op="kept", obj=objs[0]))
        keys = [world.k_call(cfg, s, x) for s in e.sets for x in e.inputs]
        return dict(pre=[], tasks=[ops], post=[], sched={"name": "none"}), keys

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        ep, keys = self.episode(rng, ents)
        return {"episodes": [ep], "keys": keys}


CHECK = C11()
