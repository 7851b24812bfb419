"""C16: a finished call keeps nothing of its input or result alive."""
import copy
import functools
import gc
import hashlib
import json
import sys
import types
import weakref

import numpy as np

from .. import cases, env, pool, runner, sched, world


# ------------------------------------------------------------------------------------------------ what is alive

def _root(a):
    while isinstance(a, np.ndarray) and a.base is not None:
        a = a.base
    return a


def watch(a):
    """A function telling whether the data of this array is still alive."""
    m = type(a).__module__.split(".")[0]
    if m == "torch":
        from torch.multiprocessing.reductions import StorageWeakRef
        s = StorageWeakRef(a.untyped_storage())
        return lambda: not s.expired()
    r = weakref.ref(_root(a))
    return lambda: r() is not None


def is_array(o):
    if isinstance(o, np.ndarray):
        return True
    m = type(o).__module__
    if m.startswith("torch") or m == "kymatio":
        import torch
        return isinstance(o, torch.Tensor)
    if m.startswith("tensorflow"):
        import tensorflow as tf
        return isinstance(o, tf.Tensor) and hasattr(o, "numpy")
    if m.startswith("jax"):
        import jax
        return isinstance(o, jax.Array)
    return False


def ident(o):
    """(identity of the memory, bytes)"""
    m = type(o).__module__
    if isinstance(o, np.ndarray):
        r = _root(o)
        if isinstance(r, np.ndarray):
            return ("np", r.__array_interface__["data"][0] if r.nbytes else id(r)), r.nbytes
        return ("np", o.__array_interface__["data"][0] if o.nbytes else id(o)), o.nbytes
    if m.startswith("torch"):
        s = o.untyped_storage()
        return ("np", s.data_ptr() if s.nbytes() else id(o)), s.nbytes()
    n = int(np.prod(o.shape)) * np.dtype(getattr(o.dtype, "as_numpy_dtype", o.dtype)).itemsize
    return ("o", id(o)), n


_ATOM = (str, bytes, int, float, complex, bool, type(None), np.dtype, np.generic, types.CodeType, types.FrameType, types.BuiltinFunctionType)


def _kids(o):
    if isinstance(o, types.ModuleType):
        n = o.__name__
        return list(vars(o).values()) if n == "kymatio" or n.startswith("kymatio.") else ()
    if isinstance(o, type):
        return [v for v in vars(o).values()] if getattr(o, "__module__", "").startswith("kymatio") else ()
    if isinstance(o, types.FunctionType):
        if not o.__code__.co_filename.startswith(env.KYM):
            return ()
        out = [o.__dict__, o.__defaults__, o.__kwdefaults__]
        for c in o.__closure__ or ():
            try:
                out.append(c.cell_contents)
            except ValueError:
                pass
        return out
    if isinstance(o, types.MethodType):
        return (o.__self__, o.__func__)
    if isinstance(o, (list, tuple, set, frozenset)):
        return o
    if isinstance(o, dict):
        return list(o.values()) + [k for k in o if not isinstance(k, (str, int, tuple))]
    m = type(o).__module__
    if m.startswith("kymatio") or m in ("builtins", "functools", "collections", "weakref", "itertools", "_thread", "_weakref") or isinstance(o, functools.partial):
        return [k for k in gc.get_referents(o) if k is not type(o)]
    d = getattr(o, "__dict__", None)
    return list(d.values()) if isinstance(d, dict) else ()


def reach(roots, stop=(), objs=None):
    """{memory: bytes} of all arrays reachable from the roots through kymatio objects, containers and closures."""
    seen, out, todo = set(map(id, stop)), {}, [(r, 0) for r in roots]
    keep = []
    while todo:
        o, d = todo.pop()
        if isinstance(o, _ATOM) or id(o) in seen or d > 60:
            continue
        seen.add(id(o))
        keep.append(o)
        if is_array(o):
            k, n = ident(o)
            out[k] = max(n, out.get(k, 0))
            if objs is not None:
                objs[k] = o
            g = getattr(o, "grad", None) if type(o).__module__.startswith("torch") and o.is_leaf else None
            if g is not None:
                todo.append((g, d + 1))
            if isinstance(o, np.ndarray) and o.dtype == object:
                todo.extend((k, d + 1) for k in o.ravel().tolist())
            continue
        for k in _kids(o):
            todo.append((k, d + 1))
    return out


def modules():
    return [sys.modules[n] for n in sorted(sys.modules) if (n == "kymatio" or n.startswith("kymatio.")) and sys.modules[n] is not None]


def load(cfg, S):
    if cfg["fe"] == "torch" and hasattr(S, "load_filters"):
        S.load_filters()


def arrays_in(S, objs=None):
    return reach([S], stop=modules(), objs=objs)


def contents(objs):
    """Digests of the memory of these arrays."""
    out = []
    for o in objs.values():
        try:
            if isinstance(o, np.ndarray):
                a = _root(o)
                a = a if isinstance(a, np.ndarray) else o
            elif type(o).__module__.startswith("torch"):
                import torch
                a = torch.empty(0, dtype=torch.uint8, device=o.device).set_(o.detach().untyped_storage()).cpu().numpy()
            else:
                a = np.asarray(o)
            out.append(hashlib.sha1(np.ascontiguousarray(a).tobytes() if a.dtype != object else repr(a).encode()).hexdigest()[:12])
        except Exception as e:
            out.append("unreadable:" + type(e).__name__)
    return sorted(out)


def eval_reach(cfg, S, x):
    """Bytes that a transform holds before any call (torch: with its filters registered); for Keras, once built."""
    if cfg["fe"] == "keras":
        S.build(tuple(x["shape"]))
    load(cfg, S)
    return [len(arrays_in(S)), sum(arrays_in(S).values())]


world.EVAL["reach"] = eval_reach


def k_reach(cfg, x):
    return cases.key_of("reach", cfg, x)


# ------------------------------------------------------------------------------------------------ the world

class W16(world.World):
    clear_tb = False

    def __init__(self, spec, ep):
        super().__init__(spec, ep)
        self.refs = {}
        self.had = {}
        self.mod0 = None

    def see(self, t, what, a):
        self.refs.setdefault(t.idx if t is not None else -1, []).append((what, watch(a)))

    def op_call(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        cfg, st = o.cfg, dict(o.st)
        a = cases.mk_np(op["x"])
        if cfg["fe"] in ("numpy", "sklearn"):
            self.see(t, "input", a)
        x = cases.to_fe(cfg["fe"], a, cfg)
        if cfg["fe"] == "torch" and op.get("grad"):
            x = x.clone().requires_grad_(True)
        if cfg["fe"] not in ("numpy", "sklearn"):
            self.see(t, "input", x)
        self.arm(t, op)
        r = cases.call(cfg, o.S, x, op.get("how", "call"))
        for v in cases.arrays_of(r):
            self.see(t, "result", v)
        self.disarm(t)          # torch's engine itself keeps the rest of the graph alive when a backward function raises
        if op.get("grad") == "bwd" and cfg["fe"] == "torch":
            sum(v.sum() for v in cases.arrays_of(r) if v.requires_grad).backward()
            self.see(t, "gradient", x.grad)
        res = cases.norm(r)
        self.judge(t, op, res, world.k_call(cfg, st, op["x"]))
        return ("res", res.digest())

    def op_bad(self, t, op):
        """A rejected call whose input is watched as well."""
        o = self.objs.get(op["obj"])
        if o is None or o.cfg["fe"] == "keras" and not o.S.built:
            return ("skip",)
        x = world.bad_input(o.cfg, op["bad"])
        if is_array(x):
            self.see(t, "rejected input", x)
        self.arm(t, op)
        try:
            cases.call(o.cfg, o.S, x, op.get("how", "call"))
        except Exception as e:
            return ("rejected", world.exc_name(e))
        finally:
            self.disarm(t)
        return ("accepted",)

    def op_look(self, t, op):
        """Uses of the transform other than calls."""
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        S, how, fe = o.S, op["how"], o.cfg["fe"]
        self.arm(t, op)
        if how in ("meta", "osize") and o.cfg["fam"] in ("1d", "jtfs") and fe != "keras":
            if how == "meta":
                S.meta()
            else:
                S.output_size()
                S.output_size(detail=True)
        elif how == "repr":
            repr(S)
        elif how == "params":
            if fe == "torch":
                S.state_dict()
                list(S.named_buffers())
            elif fe == "sklearn":
                S.get_params()
            elif fe == "keras":
                S.get_config()
        elif how == "attrs":
            for n in dir(type(S)):
                if isinstance(getattr(type(S), n, None), property):
                    try:
                        getattr(S, n)
                    except Exception:
                        pass
        elif how == "copy" and fe != "keras":
            C = copy.copy(S)
            r = weakref.ref(C)
            del C
            self.disarm(t)
            if r() is not None:
                gc.collect()
                if r() is not None:
                    self.violation("kept-alive", "a copy of %s is still alive" % op["obj"], op=op)
        elif how == "deepcopy" and fe not in ("tensorflow", "keras"):
            C = copy.deepcopy(S)
            self.see(t, "filters of a copy", self.live_arrays(C)[0])
            del C
        self.disarm(t)
        return ("look", how)

    def step(self, t, op):
        out = super().step(t, op)
        self.settle(t, op)
        return out

    def settle(self, t, op):
        mine = self.refs.pop(t.idx if t is not None else -1, None)
        if not mine:
            return
        alive = [w for w, f in mine if f()]
        if alive:
            gc.collect()
            alive = [w for w, f in mine if f()]
        self.bump("watched", len(mine))
        if alive:
            self.violation("kept-alive", "%s of %s: the %s is still alive after the caller dropped it (%d of %d arrays)" % (op["op"], op.get("obj"), alive[0], len(alive), len(mine)), op=op)

    def op_drop(self, t, op):
        """The caller drops the transform: it and its filters go away."""
        o = self.objs.pop(op["obj"], None)
        if o is None:
            return ("skip",)
        S = o.S
        fil = []
        if op.get("filters", True):
            own = arrays_in(S)
            shared = reach(modules())
            for a in self.live_arrays(S):
                if ident(a)[0] in own and ident(a)[0] not in shared:
                    try:
                        fil.append(watch(a))
                    except TypeError:
                        pass
                del a
        r = weakref.ref(S)
        o.S = None
        del S, o
        gc.collect()
        if r() is not None:
            self.violation("kept-alive", "transform %s is still alive after the caller dropped it" % op["obj"], op=op)
        n = sum(1 for f in fil if f())
        if n:
            self.violation("kept-alive", "%d of %d filter arrays of %s are still alive after it was dropped" % (n, len(fil), op["obj"]), op=op)
        self.bump("dropped_filters", len(fil))
        return ("dropped",)

    def live_arrays(self, S):
        seen, todo, out = set(map(id, modules())), [S], []
        while todo:
            q = todo.pop()
            if isinstance(q, _ATOM) or id(q) in seen:
                continue
            seen.add(id(q))
            if is_array(q):
                out.append(q)
            else:
                todo.extend(_kids(q))
        return out

    def op_reach(self, t, op):
        """What the transform holds is what it held before its first call."""
        o = self.objs.get(op["obj"])
        if o is None or o.cfg["fe"] == "keras" and not o.S.built:
            return ("skip",)
        load(o.cfg, o.S)
        objs = {}
        got = arrays_in(o.S, objs)
        e = world.EXP.get(k_reach(o.cfg, op["x"]))
        if e is None:
            raise KeyError("no expected reach")
        n, b = len(got), sum(got.values())
        if b > e[1] or n > e[0]:
            self.violation("kept-alive", "%s holds %d arrays of %d bytes after its calls, %d of %d before them" % (op["obj"], n, b, e[0], e[1]), op=op,
                           contents=contents(objs))
        return ("reach", n, b)

    def op_mods(self, t, op):
        """The package holds no more than at the start."""
        gc.collect()
        objs = {}
        got = reach(modules(), objs=objs)
        if self.mod0 is None:
            self.mod0 = (len(got), sum(got.values()))
        elif len(got) > self.mod0[0] or sum(got.values()) > self.mod0[1]:
            self.violation("kept-alive", "the package holds %d arrays of %d bytes, %d of %d at the start" % (len(got), sum(got.values()), self.mod0[0], self.mod0[1]), op=op,
                           contents=contents(objs))
        return ("mods", len(got))


def other_data(o):
    """The same operation with inputs of other values."""
    if isinstance(o, dict):
        if "seed" in o and "shape" in o:
            o["seed"] = (o["seed"] + 77777) % (1 << 30)
        for v in o.values():
            other_data(v)
    elif isinstance(o, list):
        for v in o:
            other_data(v)


def place(op):
    return {k: v for k, v in op.items() if k != "x"}


class C16(runner.Check):
    prop = "C16"
    world = W16
    runs = {"quick": 1500, "thorough": 80000}
    cap = {"quick": 56., "thorough": 3000.}
    counts = ("call",)
    rule = ("a run makes 3-20 calls (torch: also with gradients), rejected calls, constructions, setting changes and drops on 1-3 transforms from 1-3 tasks, some failing at a random library call, operator or line; after each the input, "
            "the result, the gradient and the exception are dropped, and their memory must be gone after collection; at the end the transforms and the package must reach no more array data than before the first call; "
            "distinct by digest of history and switches")
    assumptions = ["data a library keeps for itself outside any object reachable from kymatio is seen only through the weak references"]
    real = "all of kymatio's front ends and backends"
    stub = "thread scheduling, the failing library call or line"
    PER = {"quick": dict(numpy=3, sklearn=2, torch=4, tensorflow=2, keras=2, jax=1),
           "thorough": dict(numpy=20, sklearn=12, torch=24, tensorflow=8, keras=8, jax=3)}

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        keys = self.pool.build(rng, self.PER[tier], variants=1, n_inputs=3, n_sets=1, small=True, full_sets=True, batches=[[1], [2], [5]])
        for cl in self.pool.clusters.values():
            for ents in cl:
                for e in ents:
                    keys.append(k_reach(e.cfg, e.inputs[0]))
        return keys

    def after_pool(self, tier):
        self.pool.prune()

    def confirm(self, val):
        """Arrays that are held after a call but not before it are data of the call only if they differ when the same run is made with other inputs."""
        sus = [v for v in val["viol"] if "contents" in v]
        if not sus:
            return True
        spec = json.loads(json.dumps(val["spec"]))
        for ep in spec["episodes"]:
            for ops in [ep.get("pre", []), ep.get("post", [])] + ep.get("tasks", []):
                for op in ops:
                    if op["op"] != "reach":
                        other_data(op)
        for k in spec.get("keys", []):
            a = json.loads(k)
            if a[0] == "call":
                other_data(a[2])
                spec["keys"] = spec["keys"] + [json.dumps(a, sort_keys=True)]
        st, out = runner.run_one_forked(self.prop, spec)
        if st != "ok":
            raise RuntimeError("the second run failed: %s %s" % (st, out))
        again = {(v["ep"], repr(place(v["op"]))): v["contents"] for v in out["viol"] if "contents" in v}

        def data(v):
            b = again.get((v["ep"], repr(place(v["op"]))))
            return b is None or bool(set(v["contents"]) - set(b))
        val["viol"] = [v for v in val["viol"] if "contents" not in v or data(v)]
        return bool(val["viol"])

    def episode(self, rng, es):
        keys, pre, tasks, post = [], [dict(op="mods")], [], []
        objs = []
        for k in range(rng.choice([1, 1, 2, 3])):
            e = rng.choice(es)
            objs.append(("a%d" % k, e))
            pre.append(dict(op="build", obj="a%d" % k, cfg=e.cfg))
        for nm, e in objs:
            keys.append(k_reach(e.cfg, e.inputs[0]))
            for s in e.sets:
                for x in e.inputs:
                    keys.append(world.k_call(e.cfg, s, x))
        nt = rng.choice([1, 1, 2, 2, 3])
        n = 0
        gone = set()
        for tk in range(nt):
            ops = []
            for q in range(rng.choice([3, 6, 10, 16]) if nt == 1 else rng.choice([2, 4, 6])):
                nm, e = rng.choice(objs)
                u = rng.random()
                if u < .68:
                    op = dict(op="call", obj=nm, x=rng.choice(e.inputs), how=rng.choice(["call", "scattering"]))
                    if e.cfg["fe"] == "torch":
                        op["grad"] = rng.choice([None, None, "fwd", "bwd"])
                    if rng.random() < .4:
                        f = pool.gen_fault(rng, e.cfg["fe"], world.k_call(e.cfg, {}, op["x"]))
                        if f:
                            op["fault"] = f
                    ops.append(op)
                    n += pool.cost(world.k_call(e.cfg, {}, op["x"]))
                elif u < .76:
                    op = dict(op="look", obj=nm, how=rng.choice(["meta", "meta", "osize", "osize", "repr", "params", "attrs", "copy", "deepcopy"]))
                    if rng.random() < .2:
                        f = pool.gen_fault(rng, e.cfg["fe"], world.k_call(e.cfg, {}, e.inputs[0]), ("line", "bin"))
                        if f:
                            op["fault"] = dict(f, k=1 + f["k"] // 4)
                    ops.append(op)
                elif u < .82:
                    ops.append(dict(op="bad", obj=nm, bad=rng.choice(world.BAD)))
                elif u < .87 and nt == 1 and len(e.sets) > 1:
                    ops.append(dict(op="set", obj=nm, st=rng.choice(e.sets[1:])))
                elif u < .92:
                    x = "b%d_%d" % (tk, q)
                    ops.append(dict(op="build", obj=x, cfg=e.cfg))
                    ops.append(dict(op="call", obj=x, x=rng.choice(e.inputs)))
                    ops.append(dict(op="drop", obj=x))
                elif nt == 1:
                    ops.append(dict(op="drop", obj=nm))
                    ops.append(dict(op="build", obj=nm, cfg=e.cfg))
                else:
                    ops.append(dict(op="gc", obj=nm))
            tasks.append(ops)
        for nm, e in objs:
            if rng.random() < .5:
                post.append(dict(op="call", obj=nm, x=rng.choice(e.inputs)))
            post.append(dict(op="reach", obj=nm, x=e.inputs[0]))
        for nm, e in objs:
            post.append(dict(op="drop", obj=nm))
        post.append(dict(op="mods"))
        return dict(pre=pre, tasks=tasks, post=post, sched=sched.gen_policy(rng, n) if nt > 1 else {"name": "none"}), keys

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        ep, keys = self.episode(rng, ents)
        return {"episodes": [ep], "keys": sorted(set(keys))}


CHECK = C16()
