"""C07: results depend only on the current settings and the input, not on the history."""
from .. import cases, pool, runner, sched, world


BADSET = {"1d": [("max_order", 0), ("max_order", 3), ("max_order", "2"), ("out_type", "foo"), ("out_type", None), ("out_type", "tuple")],
          "jtfs": [("max_order", 3), ("out_type", "foo"), ("out_type", None), ("format", "foo"), ("format", None)],
          "2d": [("max_order", 0), ("max_order", 3), ("out_type", "foo"), ("out_type", "dict")],
          "3d": [("max_order", 0), ("method", "local"), ("method", "standard"), ("integral_powers", None), ("integral_powers", []), ("rotation_covariant", None)]}


class W07(world.World):
    def op_badset(self, t, op):
        """A setting the transform does not accept, found out in the next call or query, and taken back."""
        o = self.objs.get(op["obj"])
        if o is None or not hasattr(o.S, op["attr"]):
            return ("skip",)
        old = getattr(o.S, op["attr"])
        out = []
        try:
            setattr(o.S, op["attr"], op["value"])
            for what in op["then"]:
                try:
                    if what == "call":
                        cases.call(o.cfg, o.S, cases.mk_input(o.cfg, op["x"]))
                    elif what == "meta":
                        o.S.meta()
                    else:
                        o.S.output_size()
                    out.append("accepted")
                except Exception as e:
                    out.append(world.exc_name(e))
        except Exception as e:
            out.append(world.exc_name(e))
        setattr(o.S, op["attr"], old)
        return ("badset",) + tuple(out)

    def op_describe(self, t, op):
        """meta() and output_size() must describe the result of a call made now."""
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        cfg = o.cfg
        self.arm(t, op)
        r = cases.call(cfg, o.S, cases.mk_input(cfg, op["x"]))
        self.disarm(t)
        m, n, nd = o.S.meta(), o.S.output_size(), o.S.output_size(detail=True)
        keys = [tuple(k) for k in m["key"]]
        fmt = o.st.get("format", cfg["kw"].get("format", "time"))
        ax = -3 if cfg["fam"] == "jtfs" and fmt == "joint" else -2
        if isinstance(r, dict):
            got = [tuple(k) for k in r]
            ok = sorted(got) == sorted(keys)
        elif isinstance(r, list):
            got = [tuple(p["n"]) for p in r]
            ok = got == keys
        elif cfg["fe"] == "sklearn":
            got, ok = [None] * n, True            # flattened
        else:
            got = [None] * cases.to_np(r).shape[ax]
            ok = len(got) == len(keys)
        if not ok or n != len(got) or sum(nd) != n:
            self.violation("wrong-meta", "meta() lists %d paths, output_size() is %r (%r), the result of %s has %d%s" % (
                len(keys), n, nd, op["obj"], len(got), "" if len(keys) != len(got) else ", in another order or with other keys"), op=op)
        for k in m:
            if len(m[k]) != len(keys):
                self.violation("wrong-meta", "meta()[%r] has %d rows for %d paths" % (k, len(m[k]), len(keys)), op=op)
        return ("described", len(keys), n)


class C07(runner.Check):
    prop = "C07"
    world = W07
    runs = {"quick": 1500, "thorough": 80000}
    cap = {"quick": 62., "thorough": 3000.}
    counts = ("call", "meta")
    rule = ("a run is a history of 4-40 operations on one transform (and sometimes a second one that differs in one argument): calls of several batch shapes, dtypes and values, "
            "assignments of every documented run-time attribute, assignments that are rejected and taken back, meta/output_size/attribute queries, rejected inputs, failing calls, collections; every answer "
            "is compared with that of a newly built transform with the present settings; distinct by digest of the history")
    assumptions = ["the documented run-time attributes are max_order, out_type, format, method, integral_powers and rotation_covariance"]
    PER = {"quick": dict(numpy=4, sklearn=2, torch=4, tensorflow=2, keras=2, jax=1),
           "thorough": dict(numpy=40, sklearn=20, torch=30, tensorflow=12, keras=8, jax=4)}
    KINDS = ("randn", "randn", "zero", "sparse", "large", "small", "pos", "const")

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        return self.pool.build(rng, self.PER[tier], variants=2, n_inputs=3, n_sets=2, attrs=True, full_sets=True, small=True, kinds=self.KINDS,
                               batches=[[], [1], [2], [3], [2, 2], [1, 2], [4]])

    def after_pool(self, tier):
        self.pool.prune()

    def episode(self, rng, ents, n):
        es = [rng.choice(ents)]
        if rng.random() < .4:
            es.append(rng.choice(ents))
        ops = [dict(op="build", obj="o%d" % k, cfg=e.cfg) for k, e in enumerate(es)]
        kinds = rng.choice([("lib",), ("lib", "bin", "line")])
        w = [rng.choice([0, .5, 1, 2]) for _ in range(7)]
        w[0] += 1.
        for _ in range(n):
            k = rng.randrange(len(es))
            e, obj = es[k], "o%d" % k
            fe = e.cfg["fe"]
            has_meta = e.cfg["fam"] in ("1d", "jtfs") and fe != "keras"
            what = pool.wchoice(rng, ["call", "set", "meta", "bad", "attrs", "gc", "describe"], [2.5 * w[0], w[1], w[2], .4 * w[3], .5 * w[4], .2 * w[5], w[6]])
            if what == "set":
                if len(e.sets) > 1:
                    ops.append(dict(op="set", obj=obj, st=rng.choice(e.sets[1:])))
                continue
            if what == "meta" and has_meta:
                ops.append(dict(op=rng.choice(["meta", "osize"]), obj=obj))
            elif what == "bad" and rng.random() < .5:
                a, v = rng.choice(BADSET[e.cfg["fam"]])
                if fe not in ("sklearn", "keras"):
                    ops.append(dict(op="badset", obj=obj, attr=a, value=v, then=[rng.choice(["call", "call", "meta", "osize"] if has_meta else ["call"]) for _ in range(rng.randint(1, 2))],
                                    x=rng.choice(e.inputs)))
            elif what == "bad":
                ops.append(dict(op="bad", obj=obj, bad=rng.choice(world.BAD)))
            elif what == "attrs":
                ops.append(dict(op="attrs", obj=obj))
            elif what == "gc":
                ops.append(dict(op="gc", obj=obj))
            elif what == "describe" and has_meta:
                ops.append(dict(op="describe", obj=obj, x=rng.choice(e.inputs)))
            else:
                x = rng.choice(e.inputs)
                op = dict(op="call", obj=obj, x=x, how=rng.choice(["call", "scattering"]))
                if rng.random() < .15:
                    f = pool.gen_fault(rng, fe, world.k_call(e.cfg, {}, x), kinds)
                    if f:
                        op["fault"] = f
                ops.append(op)
        for k, e in enumerate(es):
            ops.append(dict(op="call", obj="o%d" % k, x=rng.choice(e.inputs)))
        return dict(pre=[], tasks=[ops], post=[], sched={"name": "none"})

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        n = int(min(40, 4 + rng.expovariate(1 / 10.)))
        return {"episodes": [self.episode(rng, ents, n) for _ in range(1 if combo[1] not in ("jax", "keras") else 3)]}


CHECK = C07()
