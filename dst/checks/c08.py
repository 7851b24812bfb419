"""C08: copies and restored transforms equal the original, at any point of its life."""
import copy
import io
import os
import pickle
import random
import shutil
import tempfile
import warnings

from .. import cases, pool, runner, sched, server, world

LOCAL = {"numpy": ("copy", "deep", "deep", "p2", "p3", "p4", "p5", "joblib"),
         "sklearn": ("copy", "deep", "p2", "p5", "joblib", "clone", "clone", "params"),
         "torch": ("copy", "deep", "deep", "p2", "p4", "p5", "tsave", "tsave", "sd", "sd"),
         "tensorflow": ("copy", "deep", "p2", "p4", "p5"),
         "jax": ("copy", "deep", "p2", "p4", "p5"),
         "keras": ("conf", "conf", "kjson", "kfile")}
REMOTE = {"numpy": ("p2", "p3", "p4", "p5", "joblib"), "sklearn": ("p2", "p4", "p5", "joblib"), "torch": ("p2", "p4", "p5", "tsave", "tsave", "sd"),
          "tensorflow": ("p2", "p4", "p5"), "jax": ("p2", "p5"), "keras": ("conf", "kjson", "kfile")}


def keras_model(S, sig):
    import keras
    inp = keras.Input(shape=tuple(sig))
    return keras.Model(inp, S(inp))


def save(kind, S, cfg):
    """The transform as bytes."""
    if kind[0] == "p" and kind[1:].isdigit():
        return pickle.dumps(S, int(kind[1:]))
    b = io.BytesIO()
    if kind == "joblib":
        import joblib
        joblib.dump(S, b)
    elif kind == "tsave":
        import torch
        torch.save(S, b)
    elif kind == "sd":
        import torch
        torch.save(S.state_dict(), b)
    elif kind == "conf":
        return pickle.dumps(S.get_config())
    elif kind == "kjson":
        return keras_model(S, cfg["sig"]).to_json().encode()
    elif kind == "kfile":
        d = tempfile.mkdtemp(prefix="dst-c08-")
        try:
            keras_model(S, cfg["sig"]).save(os.path.join(d, "m.keras"))
            with open(os.path.join(d, "m.keras"), "rb") as f:
                return f.read()
        finally:
            shutil.rmtree(d)
    else:
        raise KeyError(kind)
    return b.getvalue()


def load(kind, blob, cfg, st):
    if kind[0] == "p" and kind[1:].isdigit():
        return pickle.loads(blob)
    b = io.BytesIO(blob)
    if kind == "joblib":
        import joblib
        return joblib.load(b)
    if kind == "tsave":
        import torch
        return torch.load(b, weights_only=False)
    if kind == "sd":
        import torch
        S = cases.build(cfg)
        S.load_state_dict(torch.load(b))
        cases.apply_set(S, st)
        return S
    if kind == "conf":
        return cases.get_class(cfg["fam"], cfg["fe"]).from_config(pickle.loads(blob))
    import keras
    name = cases.CLS[cfg["fam"]]
    co = {name: cases.get_class(cfg["fam"], cfg["fe"])}
    if kind == "kjson":
        m = keras.models.model_from_json(blob.decode(), custom_objects=co)
    else:
        d = tempfile.mkdtemp(prefix="dst-c08-")
        try:
            p = os.path.join(d, "m.keras")
            with open(p, "wb") as f:
                f.write(blob)
            m = keras.models.load_model(p, custom_objects=co)
        finally:
            shutil.rmtree(d)
    return m.layers[-1]


def has_meta(cfg):
    return cfg["fam"] in ("1d", "jtfs") and cfg["fe"] != "keras"


def restored(kind, blob, cfg, st, x):
    """Runs in a process that had not imported kymatio before."""
    warnings.simplefilter("ignore")
    S = load(kind, blob, cfg, st)
    out = {"call": cases.norm(cases.call(cfg, S, cases.mk_input(cfg, x)))}
    out["attrs"] = world.attrs_of(cfg, S)
    if has_meta(cfg):
        out["meta"] = cases.norm_meta(S.meta())
        out["osize"] = repr((S.output_size(), S.output_size(detail=True)))
    # a restored transform can be saved and restored again
    if kind[0] in "pt":
        S2 = pickle.loads(pickle.dumps(S))
        out["again"] = cases.norm(cases.call(cfg, S2, cases.mk_input(cfg, x)))
    return out


def smash(S):
    """Overwrite, in place, every writable array the object holds."""
    import numpy as np
    seen, todo, n = set(), [S.__dict__], 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            todo += list(o.values())
        elif isinstance(o, (list, tuple)):
            todo += list(o)
        elif isinstance(o, np.ndarray):
            if o.dtype == object:
                todo += list(o.ravel())
            elif o.flags.writeable and o.dtype.kind in "fc":
                o.fill(np.nan)
                n += 1
        elif type(o).__module__.split(".")[0] == "torch" and hasattr(o, "fill_") and o.is_floating_point():
            o.detach().fill_(float("nan"))
            n += 1
        elif type(o).__module__.startswith("kymatio.") and not isinstance(o, type) and hasattr(o, "__dict__"):
            todo.append(o.__dict__)
    return n


class W08(world.World):
    def __init__(self, spec, ep):
        super().__init__(spec, ep)
        self.slots = {}

    def op_copy(self, t, op):
        o = self.objs.get(op["src"])
        if o is None:
            return ("skip",)
        kind, cfg, st = op["kind"], o.cfg, dict(o.st)
        self.arm(t, op)
        if kind == "copy":
            S = copy.copy(o.S)
        elif kind == "deep":
            S = copy.deepcopy(o.S)
        elif kind == "clone":
            import sklearn.base
            S = sklearn.base.clone(o.S)
        elif kind == "params":
            S = type(o.S)(**o.S.get_params())
        else:
            S = load(kind, save(kind, o.S, cfg), cfg, st)
        self.disarm(t)
        if S is o.S:
            self.violation("not-a-copy", "%s of %s returned the same object" % (kind, op["src"]), op=op)
        if type(S) is not type(o.S):
            self.violation("wrong-class", "%s of %s is a %s, not a %s" % (kind, op["src"], type(S), type(o.S)), op=op)
        n = world.Obj(S, cfg, st)
        n.extra["grp"] = o.extra.setdefault("grp", op["src"]) if kind == "copy" else op["obj"]
        self.objs[op["obj"]] = n
        return ("copied", kind)

    def op_save(self, t, op):
        o = self.objs.get(op["src"])
        if o is None:
            return ("skip",)
        self.arm(t, op)
        blob = save(op["kind"], o.S, o.cfg)
        self.disarm(t)
        self.slots[op["obj"]] = (op["kind"], blob, o.cfg, dict(o.st))
        self.objs.pop(op["obj"], None)
        return ("saved", op["kind"])

    def op_crash(self, t, op):
        """The process is lost: only what was saved survives."""
        self.objs.clear()
        self.bump("crashes")
        return ("crashed",)

    def op_restore(self, t, op):
        s = self.slots.get(op["src"])
        if s is None:
            return ("skip",)
        self.bump("restores")
        self.objs[op["obj"]] = world.Obj(load(*s), s[2], s[3])
        return ("restored", s[0])

    def judge_remote(self, op, out, cfg, st):
        if out[0] != "ok":
            self.violation("restore-failed", "in a new process: %s: %s" % (out[1], out[2]), op=op, trace=out[3])
            return ("exc", out[1])
        out = out[1]
        self.bump("remote_restores")
        for k in ("call", "again"):
            if k in out:
                d = cases.diff(out[k], world.EXP[world.k_call(cfg, st, op["x"])], x=op["x"])
                if d:
                    self.violation("wrong-result", "restored in a new process (%s): %s" % (k, d), op=op)
        e = world.EXP[world.k_attrs(cfg, st)]
        bad = [(a, b) for a, b in zip(out["attrs"], e) if a != b]
        if bad:
            self.violation("wrong-setting", "restored in a new process: attribute %s is %s, expected %s" % (bad[0][0][0], bad[0][0][1], bad[0][1][1]), op=op)
        if "meta" in out and (out["meta"] != world.EXP[world.k_meta(cfg, st)] or out["osize"] != world.EXP[world.k_osize(cfg, st)]):
            self.violation("wrong-meta", "restored in a new process: meta() or output_size() differs", op=op)
        return ("remote", out["call"].digest())

    def op_remote(self, t, op):
        """Save now (or take a slot), restore and use in a process that never imported kymatio."""
        s = self.slots.get(op["obj"])
        if s is None:
            o = self.objs.get(op["obj"])
            if o is None:
                return ("skip",)
            s = (op["kind"], save(op["kind"], o.S, o.cfg), o.cfg, dict(o.st))
        out = server.request("dst.checks.c08", "restored", *s, op["x"])
        return self.judge_remote(op, out, s[2], s[3])

    def op_twin(self, t, op):
        """A torch transform whose buffers hold other values than those it was built with, and a copy of it."""
        import torch
        cfg, kind, st = op["cfg"], op["kind"], op["st"]
        S = cases.build(cfg)
        cases.apply_set(S, st)
        x = cases.mk_input(cfg, op["x"])
        if op["used"]:
            cases.call(cfg, S, x)
        r = random.Random(op["seed"])
        for n, b in sorted(S._buffers.items()):
            f = r.uniform(.6, 1.7)
            if op["how"] == "inplace":
                b.mul_(f)
            else:
                S._buffers[n] = b * f
        if op["used"] and r.random() < .5:
            cases.call(cfg, S, x)
        state = {n: b.numpy().tobytes() for n, b in S._buffers.items()}
        want = cases.norm(cases.call(cfg, S, x))
        self.bump("twins")
        if op["remote"]:
            out = server.request("dst.checks.c08", "restored", kind, save(kind, S, cfg), cfg, st, op["x"])
            if out[0] != "ok":
                self.violation("restore-failed", "in a new process: %s: %s" % (out[1], out[2]), op=op, trace=out[3])
                return ("exc", out[1])
            for k in ("call", "again"):
                d = cases.diff(out[1][k], want) if k in out[1] else None
                if d:
                    self.violation("wrong-result", "restored with changed buffers in a new process (%s, %s): %s" % (kind, k, d), op=op)
            return ("twin", out[1]["call"].digest())
        T = copy.copy(S) if kind == "copy" else copy.deepcopy(S) if kind == "deep" else load(kind, save(kind, S, cfg), cfg, st)
        got = {n: b.numpy().tobytes() for n, b in T._buffers.items()}
        if got != state:
            self.violation("wrong-state", "%s: the buffers of the copy are not those of the original (%s)" % (kind, sorted(n for n in set(got) | set(state) if got.get(n) != state.get(n))[:3]), op=op)
        res = cases.norm(cases.call(cfg, T, x))
        d = cases.diff(res, want)
        if d:
            self.violation("wrong-result", "%s of a transform with changed buffers: %s" % (kind, d), op=op)
        if kind != "copy":
            for b in T._buffers.values():
                b.fill_(float("nan"))
        else:
            cases.call(cfg, T, x)
        d = cases.diff(cases.norm(cases.call(cfg, S, x)), want)
        if d:
            self.violation("wrong-result", "the original after its %s was changed: %s" % (kind, d), op=op)
        return ("twin", res.digest())

    def op_smash(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None or o.cfg["fe"] == "keras":
            return ("skip",)
        g = o.extra.setdefault("grp", op["obj"])
        if any(p is not o and p.extra.get("grp") == g for p in self.objs.values()):
            return ("skip",)                 # a shallow copy shares its filters
        self.objs.pop(op["obj"])
        n = smash(o.S)
        self.bump("arrays_overwritten", n)
        return ("smashed", n)


class C08(runner.Check):
    prop = "C08"
    world = W08
    need_server = "bare"
    runs = {"quick": 900, "thorough": 60000}
    cap = {"quick": 62., "thorough": 3000.}
    counts = ("call",)
    rule = ("a run takes 1-2 transforms through calls, failing calls, settings, copies (copy, deepcopy, pickle, joblib, torch.save, state dict, clone, layer configuration, "
            "saved Keras models), saves, crashes that lose everything but completed saves, and restores here and in a process that never imported kymatio, from 1-3 tasks, so that copies and saves "
            "also happen in the middle of other tasks' calls; originals and copies are called, inspected, reconfigured and overwritten; distinct by digest of history and switches")
    assumptions = ["pickle, joblib, torch.save and Keras saving work as documented", "a save is either complete or absent"]
    real = "all of kymatio, the libraries and their serialisers; restores run in a separate real process forked before kymatio was imported"
    stub = "thread scheduling, process loss (all objects dropped; only saved bytes are used afterwards), the failing library call or line"
    PER = {"quick": dict(numpy=4, sklearn=3, torch=4, tensorflow=2, keras=2, jax=1),
           "thorough": dict(numpy=30, sklearn=20, torch=30, tensorflow=10, keras=8, jax=4)}

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()

        def tweak(r, c):
            if c["fe"] == "torch" and r.random() < .3:
                c["double"] = True
        return self.pool.build(rng, self.PER[tier], variants=1, n_inputs=2, n_sets=2, attrs=True, full_sets=True, small=True, batches=[[1], [2], []], tweak=tweak)

    def after_pool(self, tier):
        self.pool.prune()

    def episode(self, rng, combo, e):
        fe, cfg = combo[1], e.cfg
        nt = rng.choice([1, 1, 2, 2, 3]) if fe not in ("keras",) else 1
        kinds = rng.choice([("lib",), ("lib", "bin", "line")])
        pre = [dict(op="build", obj="a", cfg=cfg)]
        if rng.random() < .6:
            pre.append(dict(op="call", obj="a", x=rng.choice(e.inputs)))
        if rng.random() < .4 and len(e.sets) > 1:
            pre.append(dict(op="set", obj="a", st=rng.choice(e.sets[1:])))
        n, tasks, names = [0], [], ["a"]
        keras_copy_ok = fe == "keras"

        def use(name, ops):
            u = rng.random()
            if u < .7 or not has_meta(cfg):
                x = rng.choice(e.inputs)
                op = dict(op="call", obj=name, x=x, how=rng.choice(["call", "scattering"]))
                if rng.random() < .15:
                    f = pool.gen_fault(rng, fe, world.k_call(cfg, {}, x), kinds)
                    if f:
                        op["fault"] = f
                ops.append(op)
            elif u < .85:
                ops.append(dict(op=rng.choice(["meta", "osize"]), obj=name))
            else:
                ops.append(dict(op="attrs", obj=name))

        for tk in range(nt):
            ops, mine, slots = [], [], []
            for q in range(rng.choice([3, 4, 5, 7]) if nt == 1 else rng.choice([1, 2, 3])):
                u = rng.random()
                some = mine + ["a"]
                if nt == 1:
                    setable = some
                else:
                    setable = mine             # settings of a shared object change in one task only
                if u < .28:
                    nm = "c%d_%d" % (tk, q)
                    src = rng.choice(some)
                    ops.append(dict(op="copy", obj=nm, src=src, kind=rng.choice(LOCAL[fe])))
                    if ops[-1]["kind"] != "copy" and rng.random() < .25:
                        # one of the two is overwritten at once, and the other has to go on
                        dead, alive = (src, nm) if nt == 1 and src != "a" and rng.random() < .5 else (nm, src)
                        ops.append(dict(op="smash", obj=dead))
                        ops.append(dict(op="call", obj=alive, x=rng.choice(e.inputs), how="call"))
                        if dead == nm:
                            continue
                        mine.remove(src)
                    mine.append(nm)
                    if rng.random() < .7:
                        use(nm, ops)
                elif u < .40:
                    nm = "slot%d_%d" % (tk, q)
                    ops.append(dict(op="save", obj=nm, src=rng.choice(some), kind=rng.choice(REMOTE[fe])))
                    slots.append(nm)
                elif u < .5 and (fe not in ("tensorflow", "jax", "keras") or rng.random() < .4):
                    src = rng.choice(some + slots)
                    ops.append(dict(op="remote", obj=src, kind=rng.choice(REMOTE[fe]), x=rng.choice(e.inputs), kcall=True, kattrs=True, kmeta=has_meta(cfg)))
                elif u < .58 and slots:
                    nm = "r%d_%d" % (tk, q)
                    if rng.random() < .5:
                        ops.append(dict(op="crash"))
                    ops.append(dict(op="restore", obj=nm, src=rng.choice(slots)))
                    mine.append(nm)
                    use(nm, ops)
                elif u < .70 and setable and len(e.sets) > 1:
                    ops.append(dict(op="set", obj=rng.choice(setable), st=rng.choice(e.sets[1:])))
                elif u < .76 and (mine or nt == 1):
                    nm = rng.choice(mine if nt > 1 else some)
                    ops.append(dict(op="smash", obj=nm))
                elif fe == "torch" and u < .92 and nt == 1:
                    remote = rng.random() < .3
                    ops.append(dict(op="twin", cfg=cfg, st=rng.choice(e.sets), x=rng.choice(e.inputs), seed=rng.randrange(1 << 20), how=rng.choice(["inplace", "replace"]),
                                    used=rng.random() < .7, remote=remote, kind=rng.choice(REMOTE[fe] if remote else LOCAL[fe])))
                elif u < .8:
                    ops.append(dict(op="bad", obj=rng.choice(some), bad=rng.choice(world.BAD)))
                elif u < .84:
                    nm = rng.choice(some)
                    ops.append(dict(op="drop", obj=nm))
                    ops.append(dict(op="gc", obj=nm))
                else:
                    use(rng.choice(some), ops)
            names += mine
            tasks.append(ops)
            n[0] += 3 * pool.cost(world.k_call(cfg, {}, e.inputs[0]))
        post = []
        for nm in names:
            use(nm, post)
        for p in post:
            p.pop("fault", None)
        if rng.random() < .5 and fe not in ("jax",):
            post.append(dict(op="remote", obj="a", kind=rng.choice(REMOTE[fe]), x=rng.choice(e.inputs), kcall=True, kattrs=True, kmeta=has_meta(cfg)))
        return dict(pre=pre, tasks=tasks, post=post, sched=sched.gen_policy(rng, n[0]) if nt > 1 else {"name": "none"})

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        return {"episodes": [self.episode(rng, combo, rng.choice(ents)) for _ in range(rng.randint(1, 2))]}


CHECK = C08()
