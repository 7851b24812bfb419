"""C12: work may be batched, split, ordered and handed to workers freely."""
import os
import pickle
import select
import shutil
import signal
import struct
import tempfile
import time
import warnings

import numpy as np

from .. import cases, env, pool, runner, sched, server, world

FORK = ("numpy", "sklearn", "torch")


def batch_of(cfg, xs, sigs, lead):
    """The signals sigs of the list xs, stacked and given the leading dimensions."""
    a = np.stack([cases.mk_np(xs[s])[0] for s in sigs])
    return cases.to_fe(cfg["fe"], np.ascontiguousarray(a.reshape(tuple(lead) + a.shape[1:])), cfg)


def pieces(res, lead):
    """One Res per signal."""
    n = int(np.prod(lead)) if lead else 1
    L = len(lead)
    arrs = []
    for a in res.arrs:
        if a.shape[:L] != tuple(lead):
            return "coefficient array of shape %s for a batch of shape %s" % (a.shape, tuple(lead))
        arrs.append(a.reshape((n,) + a.shape[L:]))
    return [cases.Res(res.kind, res.labels, [a[i] for a in arrs], res.ak) for i in range(n)]


def work(cfg, S, xs, sigs, lead):
    warnings.simplefilter("ignore")
    return cases.norm(cases.call(cfg, S, batch_of(cfg, xs, sigs, lead)))


def received(kind, blob, cfg, xs, sigs, lead):
    """A worker process that is sent the transform."""
    from . import c08
    warnings.simplefilter("ignore")
    return work(cfg, c08.load(kind, blob, cfg, {}), xs, sigs, lead)


def quiesce():
    """Wait until the threads of earlier tasks are gone from the kernel too: a thread that is still freeing its memory
    holds locks of the libraries (seen in MKL), and a fork at that moment leaves them locked in the child."""
    end = time.monotonic() + 5
    while len(os.listdir("/proc/self/task")) > 1 and time.monotonic() < end:
        time.sleep(.0005)


class W12(world.World):
    def judge_batch(self, op, cfg, res, sigs, lead, xs):
        ps = pieces(res, lead)
        if isinstance(ps, str):
            self.violation("wrong-shape", ps, op=op)
            return
        for n, s in enumerate(sigs):
            e = world.EXP.get(world.k_call(cfg, {}, xs[s]))
            if e is None:
                raise KeyError("no expected value")
            one = pieces(e, [1])[0]
            d = cases.diff(ps[n], one, x=xs[s])
            if d:
                self.violation("depends-on-batch", "signal %d (%s) of a batch of shape %s by %s: %s" % (n, xs[s]["kind"], lead, op["op"], d), op=op)
                return
        self.bump("signals", len(sigs))

    def op_pcall(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        x = batch_of(o.cfg, op["xs"], op["sigs"], op["lead"])
        self.arm(t, op)
        r = cases.call(o.cfg, o.S, x, op.get("how", "call"))
        self.disarm(t)
        res = cases.norm(r)
        self.judge_batch(op, o.cfg, res, op["sigs"], op["lead"], op["xs"])
        return ("res", res.digest())

    def op_fork(self, t, op):
        """A forked worker that inherits the transform; it may die at a chosen line of the call, and is then replaced."""
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        for attempt in range(len(op.get("die", [])) + 1):
            die = op["die"][attempt] if attempt < len(op.get("die", [])) else None
            quiesce()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    signal.alarm(60)
                    out = ("ok", work(o.cfg, o.S, op["xs"], op["sigs"], op["lead"])) if die is None else self.doomed(o, op, die)
                    b = pickle.dumps(out)
                    os.write(w, struct.pack("<Q", len(b)))
                    v = memoryview(b)
                    while v:
                        v = v[os.write(w, v):]
                    code = 0
                except Exception as e:
                    b = pickle.dumps(("err", type(e).__name__, str(e)[:200]))
                    os.write(w, struct.pack("<Q", len(b)) + b)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            buf = bytearray()
            while True:
                d = os.read(r, 1 << 20)
                if not d:
                    break
                buf += d
            os.close(r)
            _, stt = os.waitpid(pid, 0)
            if len(buf) < 8:
                if die is not None and os.WIFEXITED(stt) and os.WEXITSTATUS(stt) == 9:
                    self.bump("worker_deaths")
                    continue
                self.violation("worker-died", "a forked worker ended with status %d" % stt, op=op)
                return ("died", stt)
            out = pickle.loads(bytes(buf[8:]))
            if out[0] != "ok":
                self.violation("worker-failed", "in a forked worker: %s: %s" % out[1:], op=op)
                return ("failed", out[1])
            self.bump("forked_workers")
            self.judge_batch(op, o.cfg, out[1], op["sigs"], op["lead"], op["xs"])
            return ("res", out[1].digest(), attempt)
        return ("skip",)

    def doomed(self, o, op, k):
        """In the worker: the process dies at the k-th line of kymatio code (or finishes first)."""
        import sys
        mon = sys.monitoring
        tool = 4
        n = [0]

        def line(code, ln):
            if not code.co_filename.startswith(env.KYM):
                return mon.DISABLE
            n[0] += 1
            if n[0] == k:
                os._exit(9)
        mon.use_tool_id(tool, "worker")
        mon.register_callback(tool, mon.events.LINE, line)
        mon.set_events(tool, mon.events.LINE)
        return ("ok", work(o.cfg, o.S, op["xs"], op["sigs"], op["lead"]))

    def op_send(self, t, op):
        """A separate process that is sent the transform."""
        from . import c08
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        out = server.request("dst.checks.c12", "received", op["kind"], c08.save(op["kind"], o.S, o.cfg), o.cfg, op["xs"], op["sigs"], op["lead"])
        if out[0] != "ok":
            self.violation("worker-failed", "in a worker that was sent the transform: %s: %s" % (out[1], out[2]), op=op)
            return ("failed", out[1])
        self.bump("sent_workers")
        self.judge_batch(op, o.cfg, out[1], op["sigs"], op["lead"], op["xs"])
        return ("res", out[1].digest())

    def op_mmap(self, t, op):
        """What joblib gives its workers: the transform with its arrays as read-only memory maps."""
        import joblib
        o = self.objs.get(op["src"])
        if o is None:
            return ("skip",)
        d = tempfile.mkdtemp(prefix="dst-c12-")
        try:
            p = os.path.join(d, "t")
            joblib.dump(o.S, p)
            S = joblib.load(p, mmap_mode="r")
        finally:
            shutil.rmtree(d)
        self.objs[op["obj"]] = world.Obj(S, o.cfg, o.st)
        self.bump("memory_mapped")
        return ("mapped",)

    def op_shmem(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None or o.cfg["fe"] != "torch":
            return ("skip",)
        o.S.share_memory()
        return ("shared",)


class C12(runner.Check):
    prop = "C12"
    world = W12
    need_server = "bare"
    runs = {"quick": 900, "thorough": 60000}
    cap = {"quick": 62., "thorough": 3000.}
    counts = ("call",)
    rule = ("a run takes 2-5 signals of very different kinds (random, tiny, huge, zero, constant, NaN, infinite), partitions, repeats and reorders them into batches with 0-3 leading dimensions, and has the pieces "
            "computed by 1-3 threads under a seeded schedule, by forked workers (some of which die at a random line and are replaced), by processes that are sent the transform, and by memory-mapped copies; every "
            "signal's coefficients are compared with those it gets alone in a fresh process; distinct by digest of history and switches")
    assumptions = ["forking while another thread of the parent is inside the libraries is outside the property", "TensorFlow and JAX do not support forking after use, so their workers are separate processes"]
    real = "all of kymatio and the libraries, real forked and separate worker processes"
    stub = "thread scheduling, the moment a worker dies (a chosen line of kymatio code), the failing library call or line"
    PER = {"quick": dict(numpy=4, sklearn=3, torch=4, tensorflow=2, keras=2, jax=1),
           "thorough": dict(numpy=30, sklearn=20, torch=30, tensorflow=10, keras=8, jax=4)}
    KINDS = ("randn", "randn", "zero", "small", "large", "nan", "inf", "const", "sparse")

    def make_pool(self, rng, tier):
        self.pool = pool.Pool()
        self.pool.build(rng, self.PER[tier], variants=1, n_inputs=5, small=True, batches=[[1]], kinds=self.KINDS, meta=False)
        keys = []
        for k in sorted(self.pool.clusters):
            for ents in self.pool.clusters[k]:
                for e in ents:
                    dt = e.inputs[0]["dtype"]
                    e.inputs = [dict(x, dtype=dt, shape=[1] + x["shape"][-cases.NDIM[e.cfg["fam"]]:], nb=1) for x in e.inputs]
                    keys += self.pool.keys(e)
        return keys

    def after_pool(self, tier):
        for k in sorted(self.pool.clusters):
            for ents in self.pool.clusters[k]:
                for e in ents:
                    e.inputs = [x for x in e.inputs if isinstance(world.EXP.get(world.k_call(e.cfg, {}, x)), cases.Res)] or e.inputs
        self.pool.prune()

    def piece(self, rng, e, fe):
        m = len(e.inputs)
        if fe == "jax":
            lead = rng.choice([[], [2], [3], [2, 2]])
        else:
            lead = rng.choice([[], [1], [2], [3], [4], [5], [7], [2, 2], [1, 3], [3, 1], [2, 1, 2], [1, 1]])
        if fe == "keras":
            lead = rng.choice([[1], [2], [3], [5]])
        if fe != "jax" and e.cfg["fam"] == "1d" and max(e.cfg["sig"]) <= 64 and rng.random() < .12:
            lead = rng.choice([[9], [16], [17], [33], [64], [65], [2, 20], [100], [129], [257]])
        elif fe != "jax" and rng.random() < .05:
            lead = rng.choice([[8], [9], [11], [16], [17], [33]])
        n = int(np.prod(lead)) if lead else 1
        return dict(xs=e.inputs, sigs=[rng.randrange(m) for _ in range(n)], lead=lead)

    def episode(self, rng, combo, e):
        fe, cfg = combo[1], e.cfg
        pre = [dict(op="build", obj="a", cfg=cfg)]
        names = ["a"]
        if fe in ("numpy", "sklearn") and rng.random() < .2:
            pre.append(dict(op="mmap", obj="m", src="a"))
            names.append("m")
        if fe == "torch" and rng.random() < .2:
            pre.append(dict(op="shmem", obj="a"))
        kinds = rng.choice([("lib",), ("lib", "bin", "line")])
        key = world.k_call(cfg, {}, e.inputs[0])
        nt = rng.choice([1, 2, 2, 3])
        tasks, n = [], 0
        for tk in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5] if nt == 1 else [1, 2])):
                op = dict(op="pcall", obj=rng.choice(names), how=rng.choice(["call", "scattering"]), **self.piece(rng, e, fe))
                if rng.random() < .1:
                    f = pool.gen_fault(rng, fe, key, kinds)
                    if f:
                        ops.append(dict(op, fault=f))
                ops.append(op)
                n += pool.cost(key)
            tasks.append(ops)
        post = []
        if fe in FORK:
            for _ in range(rng.choice([0, 1, 1, 2])):
                op = dict(op="fork", obj=rng.choice(names), **self.piece(rng, e, fe))
                op["die"] = [1 + int(rng.random() * 1.1 * pool.cost(key)) for _ in range(rng.choice([0, 0, 1, 2]))]
                post.append(op)
        if rng.random() < (.3 if fe in FORK else .12):
            from . import c08
            post.append(dict(op="send", obj=rng.choice(names), kind=rng.choice(c08.REMOTE[fe]), **self.piece(rng, e, fe)))
        rng.shuffle(post)
        post.append(dict(op="pcall", obj="a", **self.piece(rng, e, fe)))
        keys = [world.k_call(cfg, {}, x) for x in e.inputs]
        return dict(pre=pre, tasks=tasks, post=post, sched=sched.gen_policy(rng, n) if nt > 1 else {"name": "none"}), keys

    def gen(self, rng, i, tier):
        combo, ents = self.pool.pick_cluster(rng)
        eps, keys = [], []
        for _ in range(rng.randint(1, 2)):
            ep, k = self.episode(rng, combo, rng.choice(ents))
            eps.append(ep)
            keys += k
        return {"episodes": eps, "keys": sorted(set(keys))}


CHECK = C12()
