"""Faults raised inside operations.

kinds: 'lib'  the k-th call from a kymatio frame into a numerical library fails (allocation failure / library error)
       'bin'  the k-th binary operator evaluated in a kymatio frame fails (allocation failure)
       'line' the k-th line of kymatio code is interrupted (KeyboardInterrupt)
"""

LIBS = ("numpy", "scipy", "torch", "tensorflow", "keras", "jax", "jaxlib", "sklearn")
# context management and settings: not allocations, and their failure is not survivable by any code
EXCLUDE = {
    "seterr", "geterr", "errstate", "seterrcall", "setbufsize", "set_grad_enabled", "no_grad", "enable_grad", "inference_mode",
    "is_grad_enabled", "set_default_dtype", "get_default_dtype", "set_num_threads", "manual_seed", "get_rng_state",
    "set_rng_state", "get_state", "set_state", "seed", "set_seed", "name_scope", "with_name_scope", "warn", "simplefilter",
    "catch_warnings", "set_printoptions", "__enter__", "__exit__", "close", "init_scope", "device", "control_dependencies",
    "is_tensor", "is_complex", "is_floating_point", "is_contiguous", "iscomplexobj", "isrealobj", "issubdtype", "dim", "size",
    "_extobj_contextvar", "executing_eagerly", "clear_session", "set_floatx", "set_image_data_format",
}


class SimMemoryError(MemoryError):
    pass


class SimRuntimeError(RuntimeError):
    """What torch raises when its allocator fails."""


class SimInterrupt(KeyboardInterrupt):
    pass


def _tf_error():
    import tensorflow as tf
    return tf.errors.ResourceExhaustedError(None, None, "simulated: out of memory")


def make_exc(name):
    if name == "MemoryError":
        return SimMemoryError("simulated allocation failure")
    if name == "RuntimeError":
        return SimRuntimeError("[enforce fail] simulated: DefaultCPUAllocator: can't allocate memory")
    if name == "KeyboardInterrupt":
        return SimInterrupt()
    if name == "TFResource":
        return _tf_error()
    raise KeyError(name)


def lib_of(fn, arg0):
    """(root module, name) of the callable, or None."""
    name = getattr(fn, "__name__", None) or ""
    mod = getattr(fn, "__module__", None)
    if not isinstance(mod, str):
        oc = getattr(fn, "__objclass__", None)
        if oc is None:
            s = getattr(fn, "__self__", None)
            oc = type(s) if s is not None and not isinstance(s, type) else s
        if oc is None:
            oc = type(fn)
        mod = getattr(oc, "__module__", None) or ""
    elif mod == "builtins" or mod == "":
        s = getattr(fn, "__self__", None)
        mod = type(s).__module__ if s is not None else mod
    root = mod.split(".", 1)[0]
    return root, name


class Faults:
    def __init__(self, need_lib=False, need_line=False, need_bin=False):
        self.need_lib, self.need_line, self.need_bin = need_lib, need_line, need_bin
        self.fired = []        # (task, kind, k, exc)

    def site(self, kind, code, where, n):
        """Overridden to record where the events are."""

    @staticmethod
    def for_specs(fs):
        kinds = {f["kind"] for f in fs}
        return Faults("lib" in kinds, "line" in kinds, "bin" in kinds)

    def _hit(self, t, kind, code, where):
        n = t.counts[kind] = t.counts[kind] + 1
        self.site(kind, code, where, n)
        f = t.fault
        if f["kind"] == kind and f["k"] == n:
            if f.get("more"):
                t.fault = dict(f["more"])
            else:
                t.fault = {"kind": "none", "k": 0}
            e = make_exc(f["exc"])
            self.fired.append((t.idx, kind, n, f["exc"]))
            raise e

    def at_line(self, t, code, line):
        if self.need_line:
            self._hit(t, "line", code, line)

    def at_bin(self, t, code, off):
        self._hit(t, "bin", code, off)

    def at_call(self, t, code, off, fn, arg0):
        r = lib_of(fn, arg0)
        if r[0] in LIBS and r[1] not in EXCLUDE:
            self._hit(t, "lib", code, off)


class Recorder(Faults):
    """Counts the events of an operation, and for each place in the code its first and last event."""

    def __init__(self):
        super().__init__(True, True, True)
        self.places = {"line": {}, "lib": {}, "bin": {}}

    def site(self, kind, code, where, n):
        self.places[kind].setdefault((code, where), [n, n])[1] = n

    def indices(self, kind):
        return sorted({n for p in self.places[kind].values() for n in p})
