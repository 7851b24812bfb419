"""Interpreter for run specs: objects, operations, faults, checks against the pristine oracle."""
import gc
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import time
import traceback
import warnings

from . import addr, cases, faults as F, sched

EXP = {}      # key -> Res | ('exc', type name) | meta string | int
EVAL = {}     # kind -> function(cfg, new transform, *rest of the key); registered by the checks that need more kinds
CNT = {}      # key -> {'line','lib','bin'}  event counts of the operation run alone


# ------------------------------------------------------------------------------------------------ keys

def merged(cfg, st):
    """cfg of the newly built transform that has the present settings."""
    kw = dict(cfg["kw"])
    for k, v in st.items():
        kw[k] = v
    dflt = dict(max_order=2, out_type="array", format="time", rotation_covariant=True)
    for k, v in dflt.items():
        if kw.get(k) == v:
            kw.pop(k)
    out = {"fam": cfg["fam"], "fe": cfg["fe"], "kw": kw, "sig": cfg["sig"]}
    if cfg.get("double"):
        out["double"] = True
    return out


def k_call(cfg, st, x):
    return cases.key_of("call", merged(cfg, st), x)


def k_meta(cfg, st):
    return cases.key_of("meta", merged(cfg, st))


def k_osize(cfg, st):
    return cases.key_of("osize", merged(cfg, st))


ATTRS = {"1d": ("J", "shape", "Q", "T", "stride", "max_order", "out_type", "pad_left", "pad_right", "average"),
         "jtfs": ("J", "J_fr", "shape", "Q", "T", "stride", "F", "Q_fr", "stride_fr", "out_type", "format", "pad_left", "pad_right", "average", "average_fr"),
         "2d": ("J", "L", "shape", "max_order", "pre_pad", "out_type"),
         "3d": ("J", "L", "shape", "sigma_0", "max_order", "rotation_covariant", "method", "points", "integral_powers")}
ATTRS_KERAS = {"1d": ("J", "out_type"), "2d": ("J", "L", "max_order", "pre_pad", "out_type")}


def attrs_of(cfg, S):
    out = []
    names = ATTRS_KERAS[cfg["fam"]] if cfg["fe"] == "keras" else ATTRS[cfg["fam"]]
    for n in names:
        try:
            v = getattr(S, n)
        except Exception as e:
            v = "raises " + exc_name(e)
        out.append((n, cases._lab(v)))
    return out


def k_attrs(cfg, st):
    return cases.key_of("attrs", merged(cfg, st))


def k_build(cfg):
    return cases.key_of("build", merged(cfg, {}))


def exc_name(e):
    return type(e).__name__


# ------------------------------------------------------------------------------------------------ pristine evaluation

def eval_key(key):
    """Evaluate one key in this (fresh) process, on a new object."""
    import json
    a = json.loads(key)
    kind, cfg = a[0], a[1]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            S = cases.build(cfg)
            if kind == "call":
                return cases.norm(cases.call(cfg, S, cases.mk_input(cfg, a[2])))
            if kind == "meta":
                return cases.norm_meta(S.meta())
            if kind == "osize":
                return repr((S.output_size(), S.output_size(detail=True)))
            if kind == "build":
                return "built"
            if kind == "attrs":
                return attrs_of(cfg, S)
            if kind in EVAL:
                return EVAL[kind](cfg, S, *a[2:])
    except Exception as e:
        return ("exc", exc_name(e), str(e)[:200])
    raise KeyError(kind)


def count_key(key):
    """Event counts of the operation, in this process."""
    import json
    a = json.loads(key)
    kind, cfg = a[0], a[1]
    box = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        S = cases.build(cfg) if kind != "build" else None
        x = cases.mk_input(cfg, a[2]) if kind == "call" else None

    def body(t):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t.fault = {"kind": "none", "k": 0}
            try:
                if kind == "build":
                    cases.build(cfg)
                else:
                    if kind == "call":
                        cases.call(cfg, S, x)
                    elif kind == "meta":
                        S.meta()
                    else:
                        S.output_size()
            except Exception:
                pass
            box.update(t.counts)
            t.fault = None
    rec = F.Recorder()
    sim = sched.Sim({"name": "none"}, faults=rec)
    sim.task(body)
    sim.run()
    box["at"] = {k: rec.indices(k) for k in rec.places}
    return box


# ------------------------------------------------------------------------------------------------ forking

class Forked:
    def __init__(self, pid, fd):
        self.pid, self.fd, self.buf, self.t0 = pid, fd, bytearray(), time.monotonic()


def fork_call(fn, *args):
    """Run fn(*args) in a forked child; returns a Forked to poll."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        os.set_blocking(r, False)
        return Forked(pid, r)
    os.close(r)
    code = 0
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        try:
            out = ("ok", fn(*args))
        except BaseException as e:
            out = ("err", "".join(traceback.format_exception(e)))
        data = pickle.dumps(out, protocol=4)
        with os.fdopen(w, "wb") as f:
            f.write(struct.pack("<Q", len(data)) + data)
    except BaseException:
        traceback.print_exc()
        code = 70
    finally:
        os._exit(code)


def finish(f):
    """Result of a forked child whose pipe reached EOF."""
    os.close(f.fd)
    _, st = os.waitpid(f.pid, 0)
    b = bytes(f.buf)
    if len(b) >= 8 and len(b) == 8 + struct.unpack("<Q", b[:8])[0]:
        return pickle.loads(b[8:])
    return ("died", "child ended with status %d after %d bytes" % (st, len(b)))


def drain(f):
    """Read what is available; True at EOF."""
    while True:
        try:
            d = os.read(f.fd, 1 << 20)
        except BlockingIOError:
            return False
        if not d:
            return True
        f.buf += d


def parallel(jobs, width, timeout=200.0, deadline=None):
    """jobs: iterable of (tag, fn, args).  Yields (tag, outcome)."""
    live = {}
    it = iter(jobs)
    exhausted = False
    while True:
        while not exhausted and len(live) < width:
            if deadline is not None and time.monotonic() > deadline:
                exhausted = True
                break
            try:
                tag, fn, args = next(it)
            except StopIteration:
                exhausted = True
                break
            f = fork_call(fn, *args)
            live[f.fd] = (tag, f)
        if not live:
            return
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            tag, f = live[fd]
            if drain(f):
                del live[fd]
                yield tag, finish(f)
        now = time.monotonic()
        for fd in list(live):
            tag, f = live[fd]
            if now - f.t0 > timeout:
                os.kill(f.pid, signal.SIGKILL)
                while not drain(f):
                    time.sleep(.01)
                del live[fd]
                finish(f)
                yield tag, ("timeout", "killed after %.0f s" % timeout)


COUNT_KINDS = ("call",)


def _eval_group(keys, counts):
    out = []
    for k in keys:
        out.append((k, eval_key(k), None))
    if counts:
        out2 = []
        for k, r, _ in out:
            out2.append((k, r, count_key(k) if k.startswith(tuple('["%s"' % c for c in counts)) and not (isinstance(r, tuple) and r[0] == "exc") else None))
        out = out2
    return out


def compute_expected(keys, width=8, counts=True, deadline=None, group=4):
    """Fill EXP (and CNT) for the keys, each group of keys of one cfg in its own forked pristine process."""
    import json
    todo, seen = {}, set()
    for k in keys:
        if k in EXP or k in seen:
            continue
        seen.add(k)
        c = json.dumps(json.loads(k)[1], sort_keys=True)
        todo.setdefault(c, []).append(k)
    jobs = []
    for c in todo:
        ks = todo[c]
        g = 1 if json.loads(c)["fe"] in ("numpy", "sklearn", "torch") else group
        for i in range(0, len(ks), g):
            jobs.append((None, _eval_group, (ks[i:i + g], counts)))
    # expensive front ends first
    jobs.sort(key=lambda j: (0 if '"jax"' in j[2][0][0] else 1 if ('"tensorflow"' in j[2][0][0] or '"keras"' in j[2][0][0]) else 2))
    errs = []
    for tag, (st, val) in parallel(jobs, width, deadline=deadline):
        if st != "ok":
            errs.append((st, val))
            continue
        for k, r, n in val:
            EXP[k] = r
            if n is not None:
                CNT[k] = n
    return errs


# ------------------------------------------------------------------------------------------------ the interpreter

class Obj:
    __slots__ = ("S", "cfg", "st", "extra")

    def __init__(self, S, cfg, st=None):
        self.S, self.cfg, self.st, self.extra = S, cfg, dict(st or {}), {}


class World:
    clear_tb = True

    def __init__(self, spec, ep):
        self.spec, self.ep = spec, ep
        self.objs = {}
        self.viol = []
        self.hist = []
        self.stats = {}
        self.sim = None
        self.keep = []
        self.faults = None
        self.inputs = {}
        self.handlers = {}

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violation(self, cls, msg, **kw):
        if len(self.viol) < 20:
            self.viol.append(dict(cls=cls, msg=msg, **kw))

    # ---- operations
    def op_build(self, t, op):
        S = cases.build(op["cfg"])
        self.objs[op["obj"]] = Obj(S, op["cfg"])
        return ("built",)

    def get_input(self, cfg, i):
        return cases.mk_input(cfg, i)

    def op_call(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        x = self.get_input(o.cfg, op["x"])
        cfg, st = o.cfg, dict(o.st)
        self.arm(t, op)
        r = cases.call(cfg, o.S, x, op.get("how", "call"))
        self.disarm(t)
        res = cases.norm(r)
        self.judge(t, op, res, k_call(cfg, st, op["x"]))
        return ("res", res.digest())

    def op_meta(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        self.arm(t, op)
        m = o.S.meta()
        self.disarm(t)
        m = cases.norm_meta(m)
        e = EXP.get(k_meta(o.cfg, o.st))
        if e is None:
            raise KeyError("no expected meta")
        if m != e:
            self.violation("wrong-meta", "meta() of %s differs from that of a new transform with the same settings" % op["obj"], op=op)
        return ("meta", hash_s(m))

    def op_osize(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        self.arm(t, op)
        m = (o.S.output_size(), o.S.output_size(detail=True))
        self.disarm(t)
        e = EXP.get(k_osize(o.cfg, o.st))
        if e is None:
            raise KeyError("no expected osize")
        if repr(m) != e:
            self.violation("wrong-meta", "output_size() of %s is %r, expected %s" % (op["obj"], m, e), op=op)
        return ("osize", m)

    def op_attrs(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        got = attrs_of(o.cfg, o.S)
        e = EXP.get(k_attrs(o.cfg, o.st))
        if e is None:
            raise KeyError("no expected attrs")
        bad = [(a, b) for a, b in zip(got, e) if a != b]
        if bad or len(got) != len(e):
            self.violation("wrong-setting", "attribute %s of %s is %s, expected %s" % (bad[0][0][0], op["obj"], bad[0][0][1], bad[0][1][1]), op=op)
        return ("attrs", hash_s(repr(got)))

    def op_set(self, t, op):
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        cases.apply_set(o.S, op["st"])
        o.st.update(op["st"])
        return ("set",)

    def op_drop(self, t, op):
        self.objs.pop(op["obj"], None)
        return ("dropped",)

    def op_gc(self, t, op):
        gc.collect()
        return ("gc",)

    def op_bad(self, t, op):
        """A call that the transform must reject; what it leaves behind is judged by later operations."""
        o = self.objs.get(op["obj"])
        if o is None:
            return ("skip",)
        if o.cfg["fe"] == "keras" and not o.S.built and op["bad"] not in ("none", "str"):
            return ("skip",)         # the first input defines the layer's signal shape
        x = bad_input(o.cfg, op["bad"])
        self.arm(t, op)
        try:
            cases.call(o.cfg, o.S, x, op.get("how", "call"))
        except Exception as e:
            return ("rejected", exc_name(e))
        finally:
            self.disarm(t)
        return ("accepted",)

    def op_badbuild(self, t, op):
        try:
            cases.build(op["cfg"])
        except Exception as e:
            return ("rejected", exc_name(e))
        return ("accepted",)

    # ---- faults
    def arm(self, t, op):
        if t is None:
            return
        t.stack = [0]
        t.counts = {"line": 0, "lib": 0, "bin": 0}
        t.fault = op.get("fault")

    def disarm(self, t):
        if t is not None:
            t.fault = None

    def judge(self, t, op, res, key):
        e = EXP.get(key)
        if e is None:
            raise KeyError("no expected value for %s" % key)
        d = cases.diff(res, e, x=op.get("x") if isinstance(op, dict) else None)
        if d:
            self.violation("wrong-result", "%s on %s: %s" % (op["op"], op.get("obj"), d), op=op)

    # ---- running
    def step(self, t, op):
        """One operation; every exception is part of the history."""
        h = self.handlers.get(op["op"]) or getattr(self, "op_" + op["op"])
        n0 = len(self.sim.faults.fired) if self.sim is not None and self.sim.faults is not None else 0
        inv = self.sim.steps if self.sim is not None else 0
        if op["op"] in ("build", "rebuild", "badbuild"):
            self.arm(t, op)
        try:
            out = h(t, op)
        except BaseException as e:
            if t is not None:
                t.fault = None
            fired = self.sim is not None and self.sim.faults is not None and any(
                f[0] == t.idx for f in self.sim.faults.fired[n0:])
            if isinstance(e, (SystemExit, GeneratorExit)):
                raise
            if isinstance(e, KeyError) and e.args and str(e.args[0]).startswith("no expected"):
                raise
            out = ("exc", exc_name(e), str(e)[:300])
            if fired:
                self.bump("faulted_raised")
                self.after_fault(t, op, e)
            elif isinstance(e, KeyboardInterrupt) and not fired:
                raise
            else:
                tb = traceback.extract_tb(e.__traceback__)
                where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ""
                self.violation("unexpected-exception", "%s on %s raised %s: %s (%s)" % (
                    op["op"], op.get("obj"), exc_name(e), str(e)[:200], where), op=op)
                if os.environ.get("DST_TB"):
                    traceback.print_exception(e)
            if self.clear_tb:
                e.__traceback__ = None
                e.__context__ = None
                e.__cause__ = None
            del e
        else:
            fired = self.sim is not None and self.sim.faults is not None and any(
                f[0] == t.idx for f in self.sim.faults.fired[n0:])
            if fired:
                self.bump("faulted_survived")
        if t is not None:
            t.fault = None
        self.hist.append((t.idx if t is not None else -1, op["op"], op.get("obj"), inv,
                          self.sim.steps if self.sim is not None else 0, out))
        self.bump("op_" + op["op"])
        return out

    def after_fault(self, t, op, e):
        pass

    def run_ops(self, t, ops):
        for op in ops:
            if self.sim is not None:
                self.sim.boundary(t)
            self.step(t, op)

    def run(self):
        ep = self.ep
        gc.disable()
        addr.ADDR.install()
        try:
            for op in ep.get("pre", []):
                self.step(None, op)
            fs = []
            for tk in ep.get("tasks", []):
                for op in tk:
                    f = op.get("fault")
                    while f:
                        fs.append(f)
                        f = f.get("more")
            if ep.get("tasks"):
                self.sim = sched.Sim(ep["sched"], invariant=self.invariant, inv_every=ep.get("inv_every", 0),
                                     faults=F.Faults.for_specs(fs) if fs else None, step_budget=ep.get("budget", 20_000_000),
                                     wall=ep.get("wall", 100.0))
                for ops in ep["tasks"]:
                    self.sim.task(lambda t, ops=ops: self.run_ops(t, ops))
                self.sim.run()
                sim, self.lastsim = self.sim, self.sim
                for t in sim.tasks:
                    if t.error:
                        raise RuntimeError("harness error in task %d:\n%s" % (t.idx, t.error))
                if sim.verdict:
                    self.violation(sim.verdict, {"deadlock": "all unfinished tasks wait for locks", "overrun": "no completion within %d steps" % sim.budget,
                                                 "wall": "no progress"}.get(sim.verdict, sim.verdict))
                    return
                if sim.faults is not None:
                    for f in sim.faults.fired:
                        self.bump("fault_%s_%s" % (f[1], f[3]))
                    self.bump("faults_armed", len(fs))
                self.sim = None
            for op in ep.get("post", []):
                self.step(None, op)
        finally:
            pass

    def invariant(self, t):
        pass


def hash_s(s):
    import hashlib
    return hashlib.sha1(s.encode()).hexdigest()[:12]


def bad_input(cfg, kind):
    import numpy as np
    fe, fam = cfg["fe"], cfg["fam"]
    nd = cases.NDIM[fam]
    if kind == "none":
        return None
    if kind == "scalar":
        return cases.to_fe(fe if fe != "sklearn" else "numpy", np.array(1.0, np.float32), cfg)
    if kind == "rank":
        return cases.to_fe(fe if fe != "sklearn" else "numpy", np.zeros((3,) * (nd - 1), np.float32), cfg)
    if kind == "shape":
        sh = [s + 1 for s in cfg["sig"]]
        return cases.to_fe(fe if fe != "sklearn" else "numpy", np.zeros(sh, np.float32), cfg)
    if kind == "list":
        return [1.0, 2.0, 3.0]
    if kind == "str":
        return "not an array"
    raise KeyError(kind)


BAD = ("none", "scalar", "rank", "shape", "list", "str")


# ------------------------------------------------------------------------------------------------ keys a spec needs

def keys_of_ops(ops, objs):
    ks = []
    for op in ops:
        o = op.get("obj")
        k = op["op"]
        if k in ("build", "rebuild", "select", "direct"):
            objs[o] = (op["cfg"], {})
        elif k in ("alias", "copy", "save", "restore"):
            if op.get("src", o) in objs:
                objs[o] = (objs[op.get("src", o)][0], dict(objs[op.get("src", o)][1]))
        elif o in objs:
            cfg, st = objs[o]
            if op.get("kmeta"):
                ks += [k_meta(cfg, st), k_osize(cfg, st)]
            if op.get("kattrs"):
                ks.append(k_attrs(cfg, st))
            if k == "call" or op.get("kcall"):
                ks.append(k_call(cfg, st, op["x"]))
            elif k in ("meta", "imeta"):
                ks.append(k_meta(cfg, st))
            elif k == "osize":
                ks.append(k_osize(cfg, st))
            elif k == "attrs":
                ks.append(k_attrs(cfg, st))
            elif k == "set":
                objs[o] = (cfg, dict(st, **op["st"]))
    return ks


def keys_of(spec):
    ks = list(spec.get("keys", []))
    for ep in spec["episodes"]:
        objs = {}
        ks += keys_of_ops(ep.get("pre", []), objs)
        for ops in ep.get("tasks", []):
            ks += keys_of_ops(ops, objs)
        ks += keys_of_ops(ep.get("post", []), objs)
    return ks
