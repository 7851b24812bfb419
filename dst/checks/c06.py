"""C06: inputs are never written to, and results never change afterwards."""
import numpy as np

from .. import cases, pool, runner, sched, world

LAYOUTS = {"numpy": ("C", "C", "F", "strided", "rev", "offset", "ro"), "sklearn": ("C", "C", "rev", "strided", "ro"),
           "torch": ("C", "C", "F", "strided", "offset"), "tensorflow": ("C",), "keras": ("C",), "jax": ("C",)}


def view(a):
    """A numpy view of the memory of a (live) array, where the front end gives one."""
    return cases.to_np(a)


def fingerprint(r):
    """Everything a caller can see of a result."""
    if isinstance(r, dict):
        lab = [cases._lab(k) for k in r]
        arrs = [r[k] for k in r]
    elif isinstance(r, list):
        lab = [";".join("%s=%s" % (k, cases._lab(p[k])) for k in sorted(p) if k != "coef") for p in r]
        arrs = [p.get("coef") for p in r]
    else:
        lab, arrs = [], [r]
    out = [repr(lab).encode()]
    for a in arrs:
        v = view(a) if a is not None else None
        out.append(b"none" if v is None else repr((v.shape, v.dtype.str)).encode() + v.tobytes())
    return out


def header(x):
    """What the caller's array object says of itself, besides its content."""
    if isinstance(x, np.ndarray):
        return (x.shape, x.strides, x.dtype.str, x.flags.writeable)
    if type(x).__module__.split(".")[0] == "torch":
        return (tuple(x.shape), x.stride(), str(x.dtype), x.requires_grad, x.grad is None, x._version)
    return (tuple(x.shape), str(x.dtype))


def meta_fingerprint(m):
    out = []
    for k in sorted(m, key=str):
        v = m[k]
        out.append(repr((k, v.tolist() if isinstance(v, np.ndarray) else v)).encode())
    return out


class W06(world.World):
    def __init__(self, spec, ep):
        super().__init__(spec, ep)
        self.live = {}            # name -> [kind, object, fingerprint]
        self.active = {}          # id -> (view, bytes, op)

    # ---- inputs
    def watch(self, x, op):
        v = view(x)
        self.active[id(op)] = (v, v.tobytes(), op, x, header(x))

    def invariant(self, t):
        for v, b, op, x, h in self.active.values():
            if header(x) != h:
                self.violation("input-written", "during %s on %s the input array has become %s, was %s" % (op["op"], op["obj"], header(x), h), op=op)
                self.active.clear()
                return
            if v.tobytes() != b:
                self.violation("input-written", "during %s on %s the %s input is not what the caller passed (%s layout)" % (
                    op["op"], op["obj"], v.dtype, op.get("lay", "C")), op=op)
                self.active.clear()
                return

    def op_icall(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        cfg, st = o.cfg, dict(o.st)
        a = cases.mk_np(dict(op["x"], layout=op.get("lay", "C")))
        if op.get("raw") and cfg["fe"] == "tensorflow":
            x = a
        elif cfg["fe"] == "torch" and op.get("lay") in ("F", "strided", "offset"):
            import torch
            x = torch.from_numpy(a)
        else:
            x = cases.to_fe(cfg["fe"], a, cfg)
        if op.get("lay") == "ro" and cfg["fe"] == "sklearn":
            x.flags.writeable = False
        self.watch(x, op)
        self.arm(t, op)
        try:
            r = cases.call(cfg, o.S, x, op.get("how", "call"))
        except RuntimeError as e:
            if cfg["fe"] == "torch" and not x.is_contiguous() and "contiguous" in str(e):
                return ("rejected", "not contiguous")
            raise
        finally:
            self.disarm(t)
            self.invariant(t)
            self.active.pop(id(op), None)
            self.live["x:" + op["name"]] = ["in", x, fingerprint(x)]
        res = cases.norm(r)
        self.judge(t, op, res, world.k_call(cfg, st, op["x"]))
        if cfg["fe"] in ("numpy", "sklearn"):
            for c in cases.arrays_of(r):
                if not c.flags.writeable:
                    self.violation("read-only-result", "the result of %s on %s cannot be written to" % (op["op"], op["obj"]), op=op)
                    break
        self.live["r:" + op["name"]] = ["res", r, fingerprint(r)]
        return ("res", res.digest())

    def op_imeta(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        self.arm(t, op)
        m = o.S.meta()
        self.disarm(t)
        n = cases.norm_meta(m)
        if n != world.EXP[world.k_meta(o.cfg, o.st)]:
            self.violation("wrong-meta", "meta() of %s differs from that of a new transform with the same settings" % op["obj"], op=op)
        self.live["m:" + op["name"]] = ["meta", m, meta_fingerprint(m)]
        return ("meta", world.hash_s(n))

    def op_scribble(self, t, op):
        """The caller writes into what is his own."""
        names = sorted(k for k in self.live if k[0] in op["what"])
        if not names:
            return ("skip",)
        n = names[op["pick"] % len(names)]
        kind, o, _ = self.live[n]
        if kind == "meta":
            for k in list(o):
                v = o[k]
                if isinstance(v, np.ndarray) and v.dtype != object and v.flags.writeable:
                    v[...] = 77
                elif isinstance(v, list):
                    v.reverse()
                    v.append("scribbled")
            if op["pick"] % 3 == 0:
                o.clear()
            del self.live[n]
            return ("scribbled", n)
        arrs = [o] if kind == "in" else cases.arrays_of(o)
        for a in arrs:
            m = type(a).__module__.split(".")[0]
            if isinstance(a, np.ndarray):
                if a.flags.writeable:
                    a[...] = [np.nan, 1e30, -7.][op["pick"] % 3]
            elif m == "torch":
                a.detach().fill_([float("nan"), 1e30, -7.][op["pick"] % 3])
        if isinstance(o, dict):
            if op["pick"] % 2:
                o.clear()
        elif isinstance(o, list):
            for p in o:
                for k in list(p):
                    if k != "coef":
                        p[k] = "scribbled"
            if op["pick"] % 2:
                o.reverse()
        del self.live[n]
        self.bump("scribbles")
        return ("scribbled", n)

    def verify(self, where):
        for n in sorted(self.live):
            kind, o, fp = self.live[n]
            now = meta_fingerprint(o) if kind == "meta" else fingerprint(o)
            self.bump("kept_verified")
            if now != fp:
                what = {"in": "an input passed earlier", "res": "a result returned earlier", "meta": "metadata returned earlier"}[kind]
                self.violation("result-changed" if kind != "in" else "input-written", "%s (%s) was changed by %s" % (what, n, where))
                del self.live[n]

    def step(self, t, op):
        out = super().step(t, op)
        self.verify("%s on %s" % (op["op"], op.get("obj")))
        return out


class C06(runner.Check):
    prop = "C06"
    world = W06
    runs = {"quick": 1300, "thorough": 80000}
    cap = {"quick": 62., "thorough": 3000.}
    counts = ("call", "meta")
    rule = ("a run makes 3-14 calls and meta queries on one or two transforms from 1-3 tasks, some failing, keeps every input, result and metadata alive, lets the caller "
            "overwrite some of them, and compares all others byte by byte after every operation; the inputs of calls in progress are compared at a "
            "seeded sampling of the scheduling points; distinct by digest of history and switches")
    assumptions = ["between two scheduling points the input is not looked at", "TensorFlow and JAX arrays are immutable: their memory is compared, not written"]
    PER = {"quick": dict(numpy=8, sklearn=4, torch=8, tensorflow=3, keras=2, jax=1),
           "thorough": dict(numpy=50, sklearn=20, torch=40, tensorflow=12, keras=8, jax=4)}

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        return self.pool.build(rng, self.PER[tier], variants=1, n_inputs=3, n_sets=1, batches=[[], [1], [1], [2], [2, 2]], small=True, kinds=pool.RARE)

    def after_pool(self, tier):
        self.pool.prune()

    def episode(self, rng, e):
        fe, fam = e.cfg["fe"], e.cfg["fam"]
        has_meta = fam in ("1d", "jtfs") and fe != "keras"
        pre = [dict(op="build", obj="a", cfg=e.cfg)]
        st = {}
        if rng.random() < .3 and len(e.sets) > 1:
            st = e.sets[1]
            pre.append(dict(op="set", obj="a", st=st))
        kinds = rng.choice([("lib",), ("lib", "bin", "line"), ("line",)])
        pf = rng.choice([0, 0, .3])
        c = [0]

        def ops_(n):
            ops = []
            for _ in range(n):
                c[0] += 1
                if has_meta and rng.random() < .2:
                    ops.append(dict(op="imeta", obj="a", name=str(c[0])))
                else:
                    x = rng.choice(e.inputs)
                    op = dict(op="icall", obj="a", x=x, lay=rng.choice(LAYOUTS[fe]), name=str(c[0]), how=rng.choice(["call", "scattering"]), kcall=1)
                    if fe == "tensorflow" and rng.random() < .4:
                        op["raw"] = True
                    if rng.random() < pf:
                        f = pool.gen_fault(rng, fe, world.k_call(e.cfg, {}, x), kinds)
                        if f:
                            op["fault"] = f
                    ops.append(op)
                if rng.random() < .45:
                    ops.append(dict(op="scribble", what=rng.choice(["r", "r", "x", "m", "rxm"]), pick=rng.randrange(1 << 16)))
            return ops
        nt = rng.choice([1, 1, 2, 2, 3])
        tasks = [ops_(rng.choice([2, 3, 5]) if nt == 1 else rng.choice([1, 2, 3])) for _ in range(nt)]
        n = sum(len(t) for t in tasks) * pool.cost(world.k_call(e.cfg, st, e.inputs[0]))
        return dict(pre=pre, tasks=tasks, post=ops_(2), inv_every=rng.choice([1, 3, 10, 50]) if fam != "2d" else rng.choice([3, 20, 100]),
                    sched=sched.gen_policy(rng, n) if nt > 1 else {"name": "none"})

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng, fes=("numpy", "sklearn", "torch") if rng.random() < .6 else None)
        k = {"jax": 5, "tensorflow": 3, "keras": 3}.get(combo[1], 2)
        return {"episodes": [self.episode(rng, rng.choice(ents)) for _ in range(rng.randint(1, k))]}


CHECK = C06()
