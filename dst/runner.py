"""Runs a check: pool, seeded runs in forked children, minimisation, replay files, evidence."""
import copy
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

from . import env, pool, sched, server, world

OUT = os.environ.get("DST_OUT", os.path.join(env.VERIF, "evidence"))
LIBS_ALL = ("numpy", "scipy.fft", "scipy.signal", "scipy.special", "torch", "tensorflow", "jax", "jax.numpy", "sklearn.base")


def load_libs(names=LIBS_ALL):
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    logging.getLogger("jax").setLevel(logging.ERROR)
    logging.getLogger("tensorflow").setLevel(logging.ERROR)
    for n in names:
        importlib.import_module(n)
    logging.lastResort = logging.NullHandler()


def load_kymatio():
    import kymatio
    real = os.path.realpath(kymatio.__file__)
    if not real.startswith(env.KYM):
        raise RuntimeError("kymatio imported from %s, not from %s" % (real, env.KYM))
    for m in ("numpy", "sklearn", "torch", "tensorflow", "keras", "jax", "caching"):
        importlib.import_module("kymatio." + m)
    for fam in ("scattering1d", "scattering2d", "scattering3d"):
        for b in ("numpy", "torch", "tensorflow", "jax"):
            importlib.import_module("kymatio.%s.backend.%s_backend" % (fam, b))
    sched.prepare()
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()


def get_check(prop):
    return importlib.import_module("dst.checks." + prop.lower()).CHECK


def rng_for(*a):
    return random.Random(int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "big"))


# ------------------------------------------------------------------------------------------------ executing one spec

def run_spec(prop, spec):
    """Execute a spec in this process.  Returns a result dict (JSON-able)."""
    check = get_check(prop)
    t0 = time.monotonic()
    if os.environ.get("DST_HANG"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["DST_HANG"]))
    try:
        need = world.keys_of(spec)
    except Exception:
        need = []                    # a check with operations of its own lists its keys in the specification
    world.compute_expected(need, width=2, counts=False)
    out = check.execute(spec)
    out["wall"] = time.monotonic() - t0
    return out


def new_cluster(check, rng, tier):
    """Besides the pool that all runs share: configurations made for this run alone, with expected values from pristine processes of their own."""
    old = check.pool
    pool.Pool.one = rng
    try:
        keys = check.make_pool(rng, tier)
        new = check.pool
        errs = world.compute_expected(keys, width=2, counts=check.counts, deadline=time.monotonic() + 30)
        check.after_pool(tier)
        if errs or not new.clusters or any(k not in world.EXP for k in keys):
            return
        k = sorted(new.clusters)[0]
        old.clusters[k] = new.clusters[k]
        old.force = k
        check.own = True
    finally:
        pool.Pool.one = None
        check.pool = old


def gen_spec(prop, tier, seed, i):
    check = get_check(prop)
    r = rng_for(seed, prop, "new", i)
    if getattr(check, "pool", None) is not None and r.random() < check.fresh[tier]:
        new_cluster(check, r, tier)
    spec = check.gen(rng_for(seed, prop, "run", i), i, tier)
    return spec and dict(spec, i=i)


def spec_in_child(prop, tier, seed, i):
    for _, (st, spec) in world.parallel([(0, gen_spec, (prop, tier, seed, i))], 1, timeout=120):
        if st == "ok":
            return spec
    return {"episodes": [], "i": i}


def run_index(prop, tier, seed, i):
    spec = gen_spec(prop, tier, seed, i)
    if spec is None:
        return {"skipped": True}
    out = run_spec(prop, spec)
    if get_check(prop).own:
        out["stats"]["runs_with_own_configuration"] = 1
    if out.get("viol"):
        out["spec"] = spec
    elif i < 3:
        out["sample"] = spec
    return out


def run_spec_fresh(prop, spec):
    """Child entry for minimisation/replay: computes missing expectations, then runs."""
    return run_spec(prop, spec)


class Check:
    """Base of all checks.  Subclasses define prop, gen(), and usually a World subclass."""
    prop = None
    world = world.World
    runs = {"quick": 300, "thorough": 20000}
    cap = {"quick": 60.0, "thorough": 3000.0}      # stop launching runs after this many seconds
    pool_cap = {"quick": 120.0, "thorough": 600.0}
    fresh = {"quick": .3, "thorough": .6}          # share of the runs on configurations of their own
    own = False                      # whether this process has made one
    rule = ""
    libs = LIBS_ALL
    need_kymatio = True
    need_server = None             # 'bare': forked before kymatio is imported; 'loaded': after
    real = "all of kymatio, numpy, scipy, torch, TensorFlow, Keras, JAX and scikit-learn"
    stub = "thread scheduling (baton-passing scheduler), locks created in Python, the failing library call or line"
    assumptions = []
    counts = False

    def pool_keys(self):
        return []

    def make_pool(self, rng, tier):
        """Called once in the parent before any fork; returns the keys whose expected values are needed."""
        return []

    def after_pool(self, tier):
        pass

    def confirm(self, val):
        """False if a second look at the run shows that what it reports is no violation."""
        return True

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, spec):
        viol, stats, digest, hist_n = [], {}, hashlib.sha1(), 0
        steps = switches = 0
        sw = []
        distinct = None
        for n, ep in enumerate(spec["episodes"]):
            w = self.world(spec, ep)
            w.run()
            digest.update(repr(w.hist).encode())
            ls = getattr(w, "lastsim", None)
            if ls is not None:
                digest.update(b"%d" % ls.digest)
                steps += ls.steps
                switches += ls.nswitch
                if w.viol:
                    sw = [n, [list(s) for s in ls.switches]]
                for f in (ls.faults.fired if ls.faults else []):
                    stats["fired"] = stats.get("fired", 0) + 1
            for k, v in w.stats.items():
                stats[k] = stats.get(k, 0) + v
            hist_n += len(w.hist)
            if w.viol:
                viol = [dict(v, ep=n) for v in w.viol]
                break
        return {"viol": viol, "digest": digest.hexdigest()[:16], "stats": stats, "steps": steps, "switches": switches,
                "ops": hist_n, "sw": sw}

    # ---- minimisation: yields simpler specs
    def reductions(self, spec):
        """Candidate simplifications, each a new spec."""
        eps = spec["episodes"]
        if len(eps) > 1:
            for i in range(len(eps)):
                s = dict(spec, episodes=eps[i:i + 1])
                yield "only episode %d" % i, s
            for i in range(len(eps)):
                s = dict(spec, episodes=eps[:i] + eps[i + 1:])
                yield "drop episode %d" % i, s
        for e, ep in enumerate(eps):
            def with_ep(new):
                return dict(spec, episodes=eps[:e] + [new] + eps[e + 1:])
            tasks = ep.get("tasks", [])
            if len(tasks) > 1:
                for ti in range(len(tasks)):
                    sch = ep["sched"]
                    if sch["name"] == "replay":
                        sch = dict(sch, switches=[[a - (a > ti), n, w, to - (to > ti)] for a, n, w, to in sch["switches"] if a != ti and to != ti])
                    yield "drop task %d" % ti, with_ep(dict(ep, tasks=tasks[:ti] + tasks[ti + 1:], sched=sch))
            for ti, ops in enumerate(tasks):
                if len(ops) > 3:
                    h = len(ops) // 2
                    for part in (ops[:h], ops[h:]):
                        yield "halve task %d" % ti, with_ep(dict(ep, tasks=tasks[:ti] + [part] + tasks[ti + 1:]))
                for oi in range(len(ops)):
                    yield "drop op %d.%d" % (ti, oi), with_ep(dict(ep, tasks=tasks[:ti] + [ops[:oi] + ops[oi + 1:]] + tasks[ti + 1:]))
                    if ops[oi].get("fault"):
                        op = {k: v for k, v in ops[oi].items() if k != "fault"}
                        yield "drop fault %d.%d" % (ti, oi), with_ep(dict(ep, tasks=tasks[:ti] + [ops[:oi] + [op] + ops[oi + 1:]] + tasks[ti + 1:]))
            for part in ("post", "pre"):
                ops = ep.get(part, [])
                for oi in range(len(ops)):
                    yield "drop %s %d" % (part, oi), with_ep(dict(ep, **{part: ops[:oi] + ops[oi + 1:]}))
            sch = ep.get("sched")
            if sch and sch["name"] == "replay":
                sw = sch["switches"]
                n = len(sw)
                c = n
                while c >= 1:
                    c = (c + 1) // 2
                    for a in range(0, n, c):
                        if n <= 40 or c >= n // 16:
                            yield "drop %d switches" % c, with_ep(dict(ep, sched=dict(sch, switches=sw[:a] + sw[a + c:])))
                    if c == 1:
                        break

    def describe(self, spec):
        return spec


# ------------------------------------------------------------------------------------------------ minimisation

def with_recorded(spec, res):
    """The spec with the schedule that was actually taken in the failing episode, made explicit."""
    if not res.get("sw"):
        return spec
    n, sw = res["sw"]
    eps = list(spec["episodes"])
    if "sched" in eps[n]:
        eps[n] = dict(eps[n], sched={"name": "replay", "gran": eps[n]["sched"].get("gran", "line"), "switches": sw})
    return dict(spec, episodes=eps[:n + 1])


def run_one_forked(prop, spec, timeout=200.0):
    for tag, out in world.parallel([(0, run_spec, (prop, spec))], 1, timeout=timeout):
        return out


def reproduces(prop, val, cls, tries=3):
    """The spec under which the violation shows again: with the recorded schedule made explicit, else as generated."""
    rec = with_recorded(val["spec"], val)
    for spec in [rec] + [val["spec"]] * tries:
        st, again = run_one_forked(prop, spec)
        if st == "ok" and any(v["cls"] == cls for v in again.get("viol", [])):
            return spec
    return None


def minimise(check, spec, cls, budget_s, width=8):
    """Greedy first-success reduction; candidates are run in parallel, the first success in order is taken."""
    t_end = time.monotonic() + budget_s
    tried = 0
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        cands = check.reductions(spec)
        batch = []
        done = False
        while not done and time.monotonic() < t_end:
            batch = []
            for _ in range(width):
                try:
                    batch.append(next(cands))
                except StopIteration:
                    done = True
                    break
            if not batch:
                break
            need = []
            for _, s in batch:
                need += world.keys_of(s)
            world.compute_expected([k for k in need if k not in world.EXP], counts=False)
            res = {}
            left = min(100.0, max(10.0, t_end - time.monotonic()))
            for tag, out in world.parallel([(n, run_spec, (check.prop, s)) for n, (_, s) in enumerate(batch)], width, timeout=left):
                res[tag] = out
            tried += len(batch)
            for n in range(len(batch)):
                st, val = res.get(n, ("none", None))
                if st == "ok" and any(v["cls"] == cls for v in val.get("viol", [])):
                    new = batch[n][1]
                    if sum(len(e.get("sched", {}).get("switches", [])) for e in new["episodes"]) or val.get("sw"):
                        new = with_recorded(new, val)
                    spec = new
                    progress = True
                    break
            if progress:
                break
    return spec, tried


# ------------------------------------------------------------------------------------------------ main entry

def known_findings(prop):
    p = os.path.join(env.VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def match_finding(check, kf, spec, v):
    m = getattr(check, "matches_finding", None)
    return m is not None and m(kf, spec, v)


def run_check(prop, tier, seed, log=print):
    t0 = time.monotonic()
    width = max(1, min(8, os.cpu_count() or 1))
    check = get_check(prop)
    load_libs(check.libs)
    if check.need_server == "bare":
        server.start()
    if check.need_kymatio:
        load_kymatio()
    if check.need_server == "loaded":
        server.start(bare=False)
    check.tier = tier
    keys = check.make_pool(rng_for(seed, prop, "pool"), tier)
    errs = world.compute_expected(keys, width=width, counts=check.counts, deadline=time.monotonic() + check.pool_cap[tier])
    if errs:
        log("HARNESS-ERROR while computing expected values: %s" % (errs[0],))
        return 2
    check.after_pool(tier)
    t_pool = time.monotonic() - t0
    n_runs = int(os.environ.get("DST_RUNS", check.runs[tier]))
    deadline = time.monotonic() + float(os.environ.get("DST_CAP", check.cap[tier]))
    jobs = ((i, run_index, (prop, tier, seed, i)) for i in range(n_runs))
    t1 = time.monotonic()
    agg = dict(runs=0, steps=0, switches=0, ops=0, skipped=0)
    stats, digests, scheds, samples = {}, {}, set(), []
    failing, harness, unstable = [], [], []
    for i, (st, val) in world.parallel(jobs, width, deadline=deadline, timeout=check_timeout(check)):
        if st != "ok":
            harness.append((i, st, val))
            if len(harness) > 20:
                break
            continue
        if val.get("skipped"):
            agg["skipped"] += 1
            continue
        agg["runs"] += 1
        if os.environ.get("DST_SLOW") and val.get("wall", 0) > float(os.environ["DST_SLOW"]):
            log("run %d took %.1f s %s" % (i, val["wall"], json.dumps(val.get("stats"))))
        for k in ("steps", "switches", "ops"):
            agg[k] += val.get(k, 0)
        for k, v in val.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
        digests[i] = val["digest"]
        scheds.add(val["digest"])
        if val.get("sample") is not None:
            samples.append(val["sample"])
        if val.get("viol") and check.confirm(val):
            failing.append((i, val))
            if len(failing) >= 4 and tier == "quick" and not known_findings(prop):
                break
            if len(failing) >= 12:
                break
    wall_runs = time.monotonic() - t1

    # a run that could not be judged is tried again; a second identical failure is reported as what it is
    viols, kfs = [], []
    again = {}
    for i, out in world.parallel([(h[0], run_index, (prop, tier, seed, h[0])) for h in harness[:width // 2 or 1]], width // 2 or 1, timeout=1.5 * check_timeout(check)):
        again[i] = out
    for i, st, val in harness:
        if i not in again:
            unstable.append((i, st))
            continue
        out = again[i]
        if out[0] == "ok":
            unstable.append((i, st))
            if out[1].get("viol") and check.confirm(out[1]):
                failing.append((i, out[1]))
        elif out[0] in ("timeout", "died"):
            failing.append((i, {"viol": [dict(cls="hang" if out[0] == "timeout" else "process-death", msg=out[1], ep=0)],
                                "spec": spec_in_child(prop, tier, seed, i)}))
        elif st == "err" and foreign(out[1]):
            # twice the same: what the code under test did breaks the run itself (a directory or a library function that is gone, ...)
            failing.append((i, {"viol": [dict(cls="broken-run", msg=out[1].strip().splitlines()[-1], ep=0)], "spec": spec_in_child(prop, tier, seed, i)}))
        else:
            log("HARNESS-ERROR in run %d: %s" % (i, out[1]))
            return 2

    failing.sort(key=lambda f: f[0])
    seen_cls = {}
    for i, val in failing:
        spec = val["spec"]
        v = val["viol"][0]
        ks = [k for k in known_findings(prop) if all(match_finding(check, k, spec, vv) for vv in val["viol"][:1])]
        if ks:
            kfs.append((ks[0], i))
            continue
        seen_cls.setdefault(v["cls"], []).append((i, val))
    budget = 60.0 if tier == "quick" else 300.0
    unreproduced = []
    for cls, lst in seen_cls.items():
        i, val = lst[0]
        spec = val["spec"]
        tried = 0
        if cls not in ("hang", "process-death", "broken-run"):
            spec = None
            for i, val in lst[:3]:
                spec = reproduces(prop, val, cls)
                if spec is not None:
                    break
            if spec is None and len(lst) < 3:
                # not a function of the seed: something outside the simulation (memory, the machine's load)
                unreproduced += [(i, cls, v["viol"][0]["msg"]) for i, v in lst]
                continue
            try:
                if spec is not None:
                    spec, tried = minimise(check, spec, cls, budget / len(seen_cls), width)
            except Exception:
                traceback.print_exc()
            spec = spec or val["spec"]
        path = write_replay(check, tier, seed, i, cls, val, spec, tried)
        viols.append((cls, i, path, val["viol"][0]))

    # evidence
    for k, i in kfs:
        pass
    wall = time.monotonic() - t0
    cov = dict(
        evaluations=agg["runs"], distinct_nontrivial=len(scheds), rule=check.rule,
        samples=[json.loads(json.dumps(s))for s in samples[:2]] or ["none"],
        simulated_runs_per_hour=round(agg["runs"] / max(wall_runs, 1e-9) * 3600), seeds="run i is generated from (VERIF_SEED, property, i), i < %d" % n_runs,
        simulated_time="%d scheduling points (lines/instructions of kymatio code executed under the scheduler); kymatio has no clock" % agg["steps"],
        scheduling_points=agg["steps"], context_switches=agg["switches"], operations=agg["ops"],
        faults_injected={k: v for k, v in sorted(stats.items()) if k.startswith("fault")},
        probes={k: v for k, v in sorted(stats.items()) if not k.startswith("fault")},
        distinct_measure="number of distinct run digests (history of operations, results and every context switch)",
        pristine_expectations=len(world.EXP), real_code=check.real, stubbed=check.stub, runs_skipped=agg["skipped"],
        runs_requested=n_runs, unstable_runs=len(unstable), unreproduced=[u[1:] for u in unreproduced], workers=width, seconds_libraries_and_pool=round(t_pool, 1))
    cov.update(check.extra_coverage() if hasattr(check, "extra_coverage") else {})
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=list(check.assumptions),
              wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get("DST_DIGESTS"):
        with open(os.environ["DST_DIGESTS"], "w") as f:
            json.dump({str(k): digests[k] for k in sorted(digests)}, f)
    for k, i in {k["id"]: (k, i) for k, i in kfs}.values():
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    log("%s %s seed=%d: %d runs (%d distinct), %d points, %d switches, %d ops, %.1f s (%.1f s set-up) %s" % (
        prop, tier, seed, agg["runs"], len(scheds), agg["steps"], agg["switches"], agg["ops"], wall, t_pool,
        json.dumps({k: v for k, v in sorted(stats.items())})))
    if agg["runs"] == 0:
        log("HARNESS-ERROR: no run was completed")
        return 2
    for i, cls, msg in unreproduced:
        log("not reproduced: %s in run %d: %s" % (cls, i, msg))
    for cls, i, path, v in viols:
        log("%s in run %d: %s" % (cls, i, v["msg"]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if viols else 0


def check_timeout(check):
    return getattr(check, "run_timeout", 90.0)


def write_replay(check, tier, seed, i, cls, val, spec, tried):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-%d.json" % (check.prop, cls, seed, i))
    doc = dict(property=check.prop, tier=tier, verif_seed=seed, run=i, violation=val["viol"][0], cls=cls, minimisation_attempts=tried, spec=spec)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    try:
        r = subprocess.run([env.PY, "-m", "dst.main", "replay", path], cwd=env.VERIF, capture_output=True, text=True, timeout=240)
        doc["replayed_in_fresh_process"] = r.returncode == 1
        doc["replay_output"] = r.stdout[-1500:]
        if r.returncode != 1 and spec is not val["spec"]:
            doc["spec"], doc["unminimised"] = val["spec"], True
    except Exception as e:
        doc["replayed_in_fresh_process"] = "not tried: %s" % e
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    return path


def foreign(tb):
    """Not one of the machinery's own complaints, nor the machine's resources."""
    last = tb.strip().splitlines()[-1]
    return not any(q in last for q in ("no expected", "MemoryError", "Too many open files", "Cannot allocate", "No space left", "Resource temporarily"))


def replay(path, log=print):
    with open(path) as f:
        doc = json.load(f)
    check = get_check(doc["property"])
    load_libs(check.libs)
    if check.need_server == "bare":
        server.start()
    if check.need_kymatio:
        load_kymatio()
    if check.need_server == "loaded":
        server.start(bare=False)
    errs = world.compute_expected(world.keys_of(doc["spec"]), counts=False)
    if errs:
        log("HARNESS-ERROR %s" % (errs[0],))
        return 2
    st, val = run_one_forked(doc["property"], doc["spec"])
    if st != "ok":
        log("%s: %s" % (st, val))
        same = doc["cls"] in ("hang", "process-death") and st in ("timeout", "died") or doc["cls"] == "broken-run" and st == "err"
        if same:
            log("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1 if same else 2
    log("digest %s" % val["digest"])
    for v in val["viol"]:
        log("%s: %s" % (v["cls"], v["msg"]))
    if any(v["cls"] == doc["cls"] for v in val["viol"]):
        log("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    log("not reproduced")
    return 0
