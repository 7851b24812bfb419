"""C13: the cache directory is always usable, whoever creates it and whenever they die."""
import importlib.util
import os
import shutil
import sys
import tempfile

from .. import env, fs, runner, sched, world

NAMES = ["", "a", "a/b", "a/b/c", "b", "a//d", "./e", "a/./f", "a/../g", "h h/ü", "i/", "a/b/c/d/e/f", "a/x"]
BASES = [("arg", "base"), ("arg", "base"), ("arg", "base/sub"), ("rel", "base"), ("rel", "base/./sub"), ("env", "base"), ("env", "new/base"), ("home", "home"), ("path", "base"), ("arg", "link/base")]
OWN = [("env", "base2"), ("env", "other/base"), ("home", "home2"), ("env", "base/a"), ("home", "home")]
ERRS = ["EACCES", "ENOSPC", "EIO", "EROFS", "EDQUOT", "EMLINK", "ENOMEM", "EINTR", "EPERM"]


def load_caching(proc):
    """The module as another process would have it: its own copy of all module-level state."""
    spec = importlib.util.spec_from_file_location("kymatio.caching", os.path.join(env.KYM, "caching.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class W13(world.World):
    def __init__(self, spec, ep):
        super().__init__(spec, ep)
        self.procs = {}
        self.fs = None

    def proc(self, p):
        if p not in self.procs:
            self.procs[p] = load_caching(p)
        return self.procs[p]

    def die(self, t, when, name):
        self.bump("process_deaths")
        self.bump("fault_kill_%s_%s" % (when, name))
        self.hist.append((t.idx, "died", when, name))
        self.sim.kill(t, [r for r in self.sim.tasks if self.procof(r) == self.procof(t)])

    def procof(self, t):
        return self.ep["procs"][t.idx]

    def run(self):
        self.root = tempfile.mkdtemp(prefix="dst-c13-")
        keep = {k: os.environ.get(k) for k in ("HOME", "KYMATIO_CACHE")}
        cwd = os.getcwd()
        try:
            os.environ["HOME"] = os.path.join(self.root, "home")
            os.environ.pop("KYMATIO_CACHE", None)
            if self.ep["base"][0] == "env":
                os.environ["KYMATIO_CACHE"] = os.path.join(self.root, self.ep["base"][1])
            os.chdir(self.root)
            os.umask(0o022)
            for kind, p in self.ep["setup"]:
                try:
                    self.put(kind, p)
                except OSError:
                    pass
            self.put("file", ".keep")        # what removes empty directories upwards ends here
            self.first = fs.snapshot(self.root)
            self.seen = dict(self.first)
            self.fs = fs.FS(self, self.root)
            self.fs.install()
            try:
                super().run()
                if not self.viol:
                    self.finale()
            finally:
                self.fs.remove()
            if os.getcwd() != self.root:
                self.violation("setting", "the working directory was changed")
            self.check_tree("end")
        finally:
            os.chdir(cwd)
            for k, v in keep.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v
            shutil.rmtree(self.root, ignore_errors=True)

    def put(self, kind, p):
        q = os.path.join(self.root, p)
        if kind == "dir":
            os.makedirs(q, exist_ok=True)
        elif kind == "file":
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if not fs.lexists(q):
                with open(q, "w") as f:
                    f.write("precious " + p)
        elif kind == "link":
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if not fs.lexists(q):
                os.symlink(os.path.join(self.root, "target"), q)

    # ---- what the request means
    def base(self, b=None):
        k, b = b or self.ep["base"]
        if k == "home":
            return os.path.join(self.root, b, "kymatio_cache")
        return os.path.join(self.root, b)

    def target(self, name, b=None):
        return os.path.join(self.base(b), name)

    def base_arg(self, b=None):
        k, b = b or self.ep["base"]
        if k in ("env", "home"):
            return None
        if k == "rel":
            return b
        if k == "path":
            import pathlib
            return pathlib.Path(os.path.join(self.root, b))
        return os.path.join(self.root, b)

    def environ(self, b):
        """The environment says where the base is, at the time of the request."""
        k, b = b or self.ep["base"]
        if k == "home":
            os.environ["HOME"] = os.path.join(self.root, b)
            os.environ.pop("KYMATIO_CACHE", None)
        elif k == "env":
            os.environ["KYMATIO_CACHE"] = os.path.join(self.root, b)

    def blocked(self, p):
        """Some existing component of the path is not a directory."""
        for way in (p, os.path.normpath(p)):
            cur = self.root
            for q in way[len(self.root):].split(os.sep):
                if q in ("", "."):
                    continue
                cur = cur + os.sep + q
                if fs.lexists(cur) and not fs.isdir(cur):
                    return cur
        return None

    def check_tree(self, when):
        now = fs.snapshot(self.root)
        for p, v in self.seen.items():
            w = now.get(p)
            if w is None:
                self.violation("removed", "%s: %s is gone" % (when, p))
            elif w != v:
                self.violation("changed", "%s: %s was changed from %s to %s" % (when, p, v[:3], w[:3]))
        for p, v in now.items():
            if v[0] != 0o040000 and p not in self.seen:
                self.violation("litter", "%s: %s was left behind" % (when, p)) if not self.killed() else None
        return now

    def killed(self):
        return self.stats.get("process_deaths", 0) or any(k.startswith("fault") for k in self.stats)

    # ---- operations
    def op_get(self, t, op):
        mod = self.proc(op["proc"])
        name, create = op["name"], op["create"]
        bs = op.get("base")
        tgt = self.target(name, bs)
        if t is None or len(self.ep["tasks"]) == 1:
            self.environ(bs)
        kw = {}
        if not create or op.get("explicit"):
            kw["create"] = create
        b = self.base_arg(bs)
        if b is not None:
            kw["cache_base_dir"] = b
        was, wasblocked = fs.isdir(tgt), self.blocked(tgt)
        st = {"n": 0, "fault": op.get("fs"), "made": set(), "create": create, "denied": False, "fired": False}
        exc = out = None
        if t is not None:
            t.fs = st
            self.arm(t, op)
        elif self.ep.get("solo_points"):
            pass
        try:
            out = mod.get_cache_dir(name, **kw) if name or op.get("explicit") else mod.get_cache_dir(**kw)
        except KeyboardInterrupt:
            raise
        except Exception as e:
            exc = world.exc_name(e)
        finally:
            if t is not None:
                t.fs = None
                self.disarm(t)
        if st["fired"]:
            self.bump("requests_with_fs_fault")
        if exc is None:
            if not fs.isdir(out):
                self.violation("not-a-directory", "get_cache_dir(%r, create=%s) returned %r, which is not a directory" % (name, create, str(out)), op=op)
            elif os.path.realpath(out) != os.path.realpath(tgt):
                self.violation("wrong-path", "get_cache_dir(%r) returned %r, expected %r" % (name, str(out), tgt), op=op)
            elif (fs.raw["stat"](out).st_mode & 0o700) != 0o700:
                self.violation("not-usable", "%r has mode %o" % (str(out), fs.raw["stat"](out).st_mode), op=op)
            if not create and not was and not self.others_active():
                self.violation("created", "get_cache_dir(%r, create=False) created the directory" % name, op=op)
            return ("path", name)
        cause = st["fired"] or st["denied"] or wasblocked or self.blocked(tgt) or (not create and not was)
        if not cause:
            self.violation("raised", "get_cache_dir(%r, create=%s) raised %s without a cause" % (name, create, exc), op=op)
        return ("raised", exc)

    def others_active(self):
        return self.sim is not None and len(self.sim.tasks) > 1

    def op_put(self, t, op):
        try:
            self.put(op["kind"], op["path"])
        except OSError:
            return ("skip",)                 # something else stands there
        self.seen = fs.snapshot(self.root)
        return ("put",)

    def op_rm(self, t, op):
        """Somebody else removes a directory or the obstacle."""
        p = os.path.join(self.root, op["path"])
        if fs.lexists(p):
            if fs.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        self.seen = fs.snapshot(self.root)
        return ("rm",)

    def op_deny(self, t, op):
        self.fs.deny.append((os.path.join(self.root, op["path"]), op["err"]))
        return ("deny",)

    def op_allow(self, t, op):
        self.fs.deny.clear()
        return ("allow",)

    def op_check(self, t, op):
        now = self.check_tree("after an operation")
        self.seen = now
        return ("tree", len(now))

    def finale(self):
        """All obstacles are gone: every request that was made succeeds now, in old and in new processes."""
        self.fs.deny.clear()
        self.check_tree("after the requests")
        for o in self.requests():
            while self.blocked(self.target(o["name"], o.get("base"))):
                os.unlink(self.blocked(self.target(o["name"], o.get("base"))))
        self.seen = fs.snapshot(self.root)
        done = set()
        for o in self.requests():
            more = {"base": o["base"]} if o.get("base") else {}
            for pr in sorted({o["proc"], 99}):
                key = (o["name"], pr, tuple(o.get("base") or ()))
                if key not in done and pr not in self.dead():
                    done.add(key)
                    self.step(None, dict(op="get", name=o["name"], create=True, proc=pr, **more))
        for n, b in sorted({(o["name"], tuple(o.get("base") or ())) for o in self.requests()}):
            self.step(None, dict(op="get", name=n, create=False, proc=98, **({"base": list(b)} if b else {})))
            if not fs.isdir(self.target(n, b)):
                self.violation("not-a-directory", "%r is not there at the end" % n)

    def dead(self):
        return set()

    def requests(self):
        out = []
        for part in [self.ep.get("pre", [])] + self.ep.get("tasks", []) + [self.ep.get("post", [])]:
            out += [o for o in part if o["op"] == "get"]
        return out


class C13(runner.Check):
    prop = "C13"
    world = W13
    libs = ()
    need_kymatio = False
    runs = {"quick": 12000, "thorough": 400000}
    cap = {"quick": 40., "thorough": 2000.}
    rule = ("a run makes 1-12 requests for the same or overlapping paths from 1-4 processes of 1-3 threads under a seeded schedule that also switches before and after every file-system call; calls fail with a random error "
            "before or after their effect, processes die there, files, links and denied directories stand in the way and go away, directories are removed by others; afterwards every request is repeated without faults "
            "and must succeed; the whole tree is compared before and after; distinct by digest of history and switches")
    assumptions = ["a file-system call is atomic", "what mkdir reported as done is visible to everybody at once", "nobody removes directories during a request"]
    real = "kymatio.caching, os.makedirs and os.path, a real file system in a scratch directory"
    stub = "os functions (wrapped: scheduling point, failure or process death before or after the real call), time.sleep, processes (tasks with their own copy of the module)"

    def make_pool(self, rng, tier):
        import kymatio.caching                       # noqa: F401
        sched.prepare()
        return []

    def fsfault(self, rng):
        k = 1 + int(rng.expovariate(1 / 3.))
        if rng.random() < .45:
            return {"k": k, "kill": rng.choice(["before", "after"])}
        return {"k": k, "err": rng.choice(ERRS), "late": rng.random() < .25, "times": rng.choice([1, 1, 1, 2, 50])}

    def episode(self, rng):
        base = rng.choice(BASES)
        setup = []
        b = os.path.join("home", "kymatio_cache") if base[0] == "home" else base[1]
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            u = rng.random()
            if u < .5:
                setup.append(["dir", os.path.join(b, rng.choice(NAMES))])
            elif u < .7:
                setup.append(["file", os.path.join(b, rng.choice(["keep.txt", "a/keep.bin", "z"]))])
            elif u < .85:
                setup.append(["dir", "target/b"])
                setup.append(["link", os.path.join("base", "ln")] if base[1] == "base" and rng.random() < .5 else ["link", "link"])
                if setup[-1][1] != "link":
                    setup.insert(len(setup) - 1, ["dir", "base"])
            else:
                setup.append(["dir", "base"])
        names = [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .1:
            names.append("ln/q")
        nt = rng.choice([1, 2, 2, 3, 4])
        faulty = rng.random() < .65
        # requests under several bases: by argument anywhere, by environment where one thread is the only one
        bases = []
        if rng.random() < .4:
            bases = [rng.choice(BASES) for _ in range(2)] if nt > 1 else [rng.choice(BASES + OWN) for _ in range(3)]
            bases = [q for q in bases if nt == 1 or q[0] not in ("env", "home")]
        tasks, procs = [], []
        np_ = rng.randint(1, nt)
        for tk in range(nt):
            pr = tk if tk < np_ else rng.randrange(np_)
            procs.append(pr)
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                op = dict(op="get", proc=pr, name=rng.choice(names), create=rng.random() < .8, explicit=rng.random() < .5)
                if bases and rng.random() < .6:
                    op["base"] = list(rng.choice(bases))
                if faulty and rng.random() < .5:
                    op["fs"] = self.fsfault(rng)
                elif faulty and rng.random() < .15:
                    op["fault"] = {"kind": "line", "k": 1 + rng.randrange(14), "exc": "KeyboardInterrupt"}
                ops.append(op)
                if nt == 1:
                    ops.append(dict(op="check"))
                    u = rng.random()
                    if u < .2:
                        nm = rng.choice(names)
                        p = os.path.normpath(os.path.join(b, nm)) if rng.random() < .6 else b.split("/")[0]
                        if p not in ("home",):
                            ops.append(dict(op="rm", path=p))
                            if rng.random() < .4:
                                ops.append(dict(op="put", kind=rng.choice(["file", "link", "dir"]), path=p))
                    elif u < .3:
                        ops.append(dict(op="deny", path=rng.choice(["base", os.path.join(b, "a"), b]), err=rng.choice(["EACCES", "EROFS", "ENOSPC"])))
                    elif u < .4:
                        ops.append(dict(op="allow"))
            tasks.append(ops)
        return dict(base=list(base), setup=setup, pre=[], tasks=tasks, procs=procs, post=[], sched=sched.gen_policy(rng, 14 * sum(len(t) for t in tasks)))

    def gen(self, rng, i, tier):
        return {"episodes": [self.episode(rng) for _ in range(6)]}

    def reductions(self, spec):
        for what, s in super().reductions(spec):
            if what.startswith("drop task"):
                # keep the table of processes in step
                k = int(what.split()[-1])
                eps = []
                for a, b in zip(spec["episodes"], s["episodes"]):
                    if len(a["tasks"]) != len(b["tasks"]):
                        b = dict(b, procs=a["procs"][:k] + a["procs"][k + 1:])
                    eps.append(b)
                s = dict(s, episodes=eps)
            yield what, s
        for e, ep in enumerate(spec["episodes"]):
            for n in range(len(ep["setup"])):
                yield "drop setup", dict(spec, episodes=spec["episodes"][:e] + [dict(ep, setup=ep["setup"][:n] + ep["setup"][n + 1:])] + spec["episodes"][e + 1:])
            for ti, ops in enumerate(ep["tasks"]):
                for oi, op in enumerate(ops):
                    if op.get("fs"):
                        o = {k: v for k, v in op.items() if k != "fs"}
                        yield "drop fault", dict(spec, episodes=spec["episodes"][:e] + [dict(ep, tasks=ep["tasks"][:ti] + [ops[:oi] + [o] + ops[oi + 1:]] + ep["tasks"][ti + 1:])] + spec["episodes"][e + 1:])


CHECK = C13()
