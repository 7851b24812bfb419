"""Pools of transforms and inputs whose pristine results are computed before the runs start."""
import copy
import json

from . import cases, world

WEIGHT = {"numpy": 5., "sklearn": 2., "torch": 6., "tensorflow": 2.5, "keras": 1.2, "jax": .8}
FAMW = {"1d": 1.2, "jtfs": 1., "2d": 1., "3d": 1.}


def wchoice(rng, items, weights):
    t = sum(weights)
    u = rng.random() * t
    for i, w in zip(items, weights):
        u -= w
        if u < 0:
            return i
    return items[-1]


class Entry:
    __slots__ = ("cfg", "inputs", "sets", "same")

    def __init__(self, cfg, inputs, sets):
        self.cfg, self.inputs, self.sets = cfg, inputs, sets


# mostly ordinary signals; the others seldom, since they tell less about the filters that were applied
RARE = ("randn",) * 12 + ("nan", "inf", "zero", "large", "small", "sparse")


def large_batch(rng, c, dims=2):
    """Batches past the sizes at which an implementation may start to work in pieces."""
    if c["fe"] == "jax":
        return [3]
    b = rng.choice([[8], [9], [17], [33]])
    if c["fam"] == "1d" and max(c["sig"]) <= 128:
        b = rng.choice([[9], [17], [33], [65], [4, 10], [129]])
    b = b[-dims:]
    if c["fe"] != "keras" and rng.random() < .3 and len(b) < dims:
        b = [1] + b
    return b


class Pool:
    """clusters[(fam, fe)] = list of clusters; a cluster is a list of Entries whose configurations differ a little."""

    def __init__(self):
        self.clusters = {}

    one = None                       # set while a pool of a single new cluster is built
    force = None                     # the cluster of this run

    def build(self, rng, per_combo, variants=1, n_inputs=3, n_sets=0, fes=cases.FES, fams=cases.FAMS, small=False, kinds=("randn",),
              batches=None, scale=None, tweak=None, meta=True, attrs=False, full_sets=False):
        keys = []
        self.meta, self.attrs = meta, attrs
        seen = {}
        combos = cases.combos(fes, fams)
        if Pool.one is not None:
            combos = [k for k in combos if k[1] != "jax"] or combos
            combos = [wchoice(Pool.one, combos, [WEIGHT[k[1]] * FAMW[k[0]] for k in combos])]
        for fam, fe in combos:
            n = per_combo[fe] if isinstance(per_combo, dict) else per_combo
            if Pool.one is not None:
                n = min(n, 1)
            cl = []
            cands = []
            for _ in range(10 * n):
                base = cases.gen_cfg(rng, fam, fe, small or fe in ("jax", "tensorflow", "keras"))
                if tweak:
                    tweak(rng, base)
                cands.append(base)
            for base in spread(cands, n, seen):
                cfgs = [base]
                for _ in range(variants - 1):
                    cfgs.append(vary(rng, base))
                ents = []
                for c in cfgs:
                    ins = []
                    b0 = None
                    for q in range(n_inputs):
                        # most inputs of an entry share their shape, so that calls collide on anything keyed by shape
                        b = b0 if b0 is not None and rng.random() < .55 else (rng.choice(batches) if batches else None)
                        if batches and len(batches) > 1 and not q and rng.random() < .1:
                            b = large_batch(rng, c, max(map(len, batches)))
                        x = cases.gen_input(rng, c, batch=b, kinds=kinds)
                        o = rng.choice(ins) if ins and rng.random() < .35 else None
                        if o is not None and o["shape"] == x["shape"]:
                            x = dict(o, rel=rng.choice(cases.RELS))
                        b0 = x["shape"][:x["nb"]]
                        ins.append(x)
                    sets = [{}] + [cases.gen_set(rng, c) for _ in range(n_sets)]
                    if full_sets and fe != "keras":
                        # every assignment names every attribute, so that it alone determines the state
                        sets = [{}] + [cases.effective(c, s) for s in [{}] + sets[1:]]
                        sets = [{}] + [s for s in sets[1:] if not (fe == "sklearn" and s.pop("out_type", 0) is None)]
                    ents.append(Entry(c, ins, sets))
                cl.append(ents)
            self.clusters[(fam, fe)] = cl
        for cl in self.clusters.values():
            for ents in cl:
                for e in ents:
                    keys += self.keys(e)
        return keys

    def keys(self, e):
        ks = [world.k_build(e.cfg)]
        for st in e.sets:
            for x in e.inputs:
                ks.append(world.k_call(e.cfg, st, x))
            if self.meta and e.cfg["fam"] in ("1d", "jtfs") and e.cfg["fe"] != "keras":
                ks.append(world.k_meta(e.cfg, st))
                ks.append(world.k_osize(e.cfg, st))
            if self.attrs:
                ks.append(world.k_attrs(e.cfg, st))
        return ks

    def prune(self):
        """Drop what the pristine process rejects (not valid use) or what was not computed in time."""
        bad = 0
        for k in list(self.clusters):
            cl = []
            for ents in self.clusters[k]:
                keep = []
                for e in ents:
                    if any(isinstance(world.EXP.get(q, ("exc",)), tuple) for q in [world.k_build(e.cfg)]):
                        bad += 1
                        continue
                    e.sets = [s for s in e.sets if all(isinstance(world.EXP.get(world.k_call(e.cfg, s, x)), cases.Res) for x in e.inputs)]
                    if e.sets and e.sets[0] == {}:
                        keep.append(e)
                    else:
                        bad += 1
                if keep:
                    cl.append(keep)
            if cl:
                self.clusters[k] = cl
            else:
                del self.clusters[k]
        self.bad = bad

    def pick_combo(self, rng, fes=None, fams=None):
        ks = [k for k in sorted(self.clusters) if (fes is None or k[1] in fes) and (fams is None or k[0] in fams)]
        if self.force in ks and rng.random() < .8:
            return self.force
        return wchoice(rng, ks, [WEIGHT[k[1]] * FAMW[k[0]] for k in ks])

    def pick_cluster(self, rng, fes=None, fams=None):
        c = self.pick_combo(rng, fes, fams)
        return c, rng.choice(self.clusters[c])


_EST = {("call", "1d"): 2300, ("call", "jtfs"): 4600, ("call", "2d"): 1500, ("call", "3d"): 700, ("build", "1d"): 900,
        ("build", "jtfs"): 1100, ("build", "2d"): 40000, ("build", "3d"): 400, ("meta", "1d"): 800, ("meta", "jtfs"): 3000,
        ("osize", "1d"): 800, ("osize", "jtfs"): 3000}


def cost(key, kind="line"):
    n = world.CNT.get(key, {}).get(kind)
    if n is None:
        a = json.loads(key)
        n = _EST.get((a[0], a[1]["fam"]), 1000)
        n = n if kind == "line" else n // 8
    return n


def tokens(c):
    """What is special about a configuration: every argument's value (or kind of value), and pairs of the discrete ones."""
    kw = c["kw"]
    out = []
    for k in ("max_order", "out_type", "pre_pad", "format", "rotation_covariant", "integral_powers", "T", "F", "stride", "Q", "Q_fr", "J", "L", "J_fr", "sigma_0", "oversampling", "stride_fr"):
        v = kw.get(k, "-")
        if k in ("T", "F") and not isinstance(v, str):
            v = 0 if v == 0 else "short" if v < 2 ** kw.get("J" if k == "T" else "J_fr", 0) else "long"
        elif k in ("stride", "sigma_0", "stride_fr"):
            v = v == "-"
        elif k == "Q":
            v = "tuple" if isinstance(v, list) else v
        elif k == "integral_powers" and v != "-":
            v = len(v)
        out.append("%s=%s" % (k, v))
    sig = c["sig"]
    if c["fam"] == "2d":
        out.append("pad=%s" % [2 ** kw["J"] == q for q in sig])
    out.append("sig=%s%s%s" % (any(q & (q - 1) for q in sig), any(q % 2 for q in sig), len(set(sig))))
    d = [o for o in out if o.split("=")[0] in ("max_order", "out_type", "pre_pad", "format", "rotation_covariant", "T", "F")]
    return out + [a + "," + b for i, a in enumerate(d) for b in d[i + 1:]]


def spread(cands, n, seen):
    """n of the candidates, each the one that adds most to what the others of its family (with any front end) show."""
    out = []
    cands = list(cands)
    while cands and len(out) < n:
        def gain(c):
            g = 0.
            for w in tokens(c):
                here, all_ = seen.get((c["fam"], c["fe"], w), 0), seen.get((c["fam"], w), 0)
                g += (.25 if "," in w else 3. if w.startswith("pad=") and "True" in w else 1.) * (1. / (1 + 3 * here) + .7 / (1 + 2 * all_))
            return g
        # the first third is left to chance, so that what is common stays common
        b = cands[0] if len(out) % 3 == 0 else max(cands, key=gain)
        cands.remove(b)
        out.append(b)
        for w in tokens(b):
            for k in ((b["fam"], b["fe"], w), (b["fam"], w)):
                seen[k] = seen.get(k, 0) + 1
    return out


def vary(rng, base):
    """A configuration that differs from base in one argument, to expose state keyed on too little."""
    if rng.random() < .4:
        c = near(rng, base)
        if c is not None:
            return c
    for _ in range(20):
        c = copy.deepcopy(base)
        kw, fam, fe = c["kw"], c["fam"], c["fe"]
        other = cases.gen_cfg(rng, fam, fe, small=True)["kw"]
        ks = {"1d": ["J", "Q", "T", "max_order", "stride", "out_type"], "jtfs": ["J_fr", "Q", "F", "Q_fr", "format", "out_type", "T"],
              "2d": ["L", "J", "max_order", "out_type", "pre_pad"], "3d": ["L", "J", "sigma_0", "max_order", "rotation_covariant", "integral_powers"]}[fam]
        k = rng.choice(ks)
        if k in other:
            kw[k] = other[k]
        else:
            kw.pop(k, None)
        # keep the combination valid
        if fam in ("1d", "jtfs"):
            N = c["sig"][0]
            if kw.get("T") in ("global", 0):
                kw.pop("stride", None)
                kw.pop("oversampling", None)
            if "stride" in kw or kw.get("T") in ("global", 0) or (kw.get("T") or 2 ** kw["J"]) < 2 ** kw.get("oversampling", 0):
                kw.pop("oversampling", None)
            if kw.get("F") in ("global", 0) or (kw.get("F") or 2 ** kw.get("J_fr", 9)) < kw.get("stride_fr", 1):
                kw.pop("stride_fr", None)
            if kw.get("T") == 0 and kw.get("out_type", "array") == "array":
                if fe in ("sklearn", "keras"):
                    kw.pop("T")
                else:
                    kw["out_type"] = "list"
            if 2 ** kw["J"] > N:
                kw["J"] = 2
            if isinstance(kw.get("T"), int) and kw["T"] > N:
                kw.pop("T")
            if "stride" in kw and kw["stride"] > (kw.get("T") or 2 ** kw["J"]):
                kw.pop("stride")
            if fam == "jtfs":
                if isinstance(kw.get("F"), int) and kw["F"] > n_fr(kw):
                    kw.pop("F")
                if kw.get("format") == "joint" and not cases.joint_ok(kw):
                    kw["format"] = "time"
        if fam == "2d":
            if 2 ** kw["J"] > min(c["sig"]):
                kw["J"] = 1
        if json.dumps(kw, sort_keys=True) != json.dumps(base["kw"], sort_keys=True):
            return c
    return copy.deepcopy(base)


def n_fr(kw):
    """The number of first-order frequencies of a JTFS, which bounds F."""
    q = kw["Q"][0] if isinstance(kw["Q"], (list, tuple)) else kw["Q"]
    return (kw["J"] + 1) * q


def near(rng, base):
    """A configuration that base is easily taken for: almost equal values, permuted shapes."""
    c = copy.deepcopy(base)
    kw, sig = c["kw"], c["sig"]
    if c["fam"] in ("1d", "jtfs"):
        N, J = sig[0], kw["J"]
        if c["fam"] == "jtfs" and rng.random() < .4:
            if kw.get("F") in ("global", 0):
                return None
            F, m = kw.get("F") or 2 ** kw["J_fr"], n_fr(kw)
            kw["F"] = F - 1 if F >= m else F + 1
            return c if kw["F"] > 1 else None
        if rng.random() < .6:
            T = kw.get("T", 2 ** J)
            if T in ("global", 0) or "stride" in kw or T is None:
                return None
            kw["T"] = T - 1 if T >= N else T + 1
        elif "shape" in kw:
            kw["shape"] = sig[0] = N + rng.choice([-1, 1, 1])
        else:
            sig[0] = N + 1
        return c
    if c["fam"] == "2d":
        M, N = sig
        new = [N, M] if M != N and rng.random() < .6 else rng.choice([[M, N + 1], [M + 1, N], [2 * M, N // 2] if M == 16 and N == 32 else [M, N + 2]])
        c["sig"] = new
        if "shape" in kw:
            kw["shape"] = list(new)
        return c
    u = rng.random()
    if u < .4:
        kw["sigma_0"] = kw.get("sigma_0", 1) + rng.choice([1e-3, 1e-2, -1e-2])
    elif u < .7:
        p = list(kw.get("integral_powers", [.5, 1., 2.]))
        p[rng.randrange(len(p))] += rng.choice([.01, 1, .5])
        kw["integral_powers"] = p
    else:
        new = list(sig)
        rng.shuffle(new)
        if new == list(sig):
            new[rng.randrange(3)] += 1
        c["sig"], kw["shape"] = new, list(new)
    return c


def gen_fault(rng, fe, key, kinds=("lib", "lib", "lib", "bin", "line")):
    """A fault at a random point of the operation whose counts are recorded under key; None if it has no such points."""
    kind = rng.choice(kinds)
    n = cost(key, kind)
    if n < 1:
        return None
    at = world.CNT.get(key, {}).get("at", {}).get(kind)
    u = rng.random()
    if u < .4 and at:
        # the first or last time some place of the code is reached: places reached once are as likely as loops
        k = rng.choice(at)
    elif u < .7:
        k = 1 + rng.randrange(n)
    elif u < .85:
        k = 1 + min(n - 1, int(rng.expovariate(1 / 4.)))
    else:
        k = max(1, n - int(rng.expovariate(1 / 4.)))
    if kind == "line":
        exc = rng.choice(["KeyboardInterrupt", "MemoryError"])
    else:
        exc = "MemoryError"
        if kind == "lib" and rng.random() < .4:
            exc = {"torch": "RuntimeError", "tensorflow": "TFResource", "keras": "TFResource", "jax": "RuntimeError"}.get(fe, "MemoryError")
    return {"kind": kind, "k": k, "exc": exc}
