"""Process-wide and thread-local settings: snapshots of them, and seeded ambient values a program may have chosen."""
import builtins
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import warnings


def h(b):
    return hashlib.sha1(b if isinstance(b, bytes) else repr(b).encode()).hexdigest()[:12]


def thread_local():
    import numpy as np
    import torch
    s = {"numpy.geterr": np.geterr(), "numpy.geterrcall": repr(np.geterrcall()), "numpy.getbufsize": np.getbufsize(),
         "torch.is_grad_enabled": torch.is_grad_enabled(), "torch.is_inference_mode_enabled": torch.is_inference_mode_enabled(),
         "torch.is_autocast_enabled": torch.is_autocast_enabled(), "decimal": repr(decimal.getcontext())}
    try:
        s["torch.default_device"] = str(torch.get_default_device())
    except Exception:
        pass
    s["torch modes"] = (torch.is_autocast_cache_enabled(), str(torch.get_autocast_dtype("cpu")), torch.is_autocast_enabled("cpu"),
                        torch._C._len_torch_function_stack(), torch._C._len_torch_dispatch_stack(), torch._C._autograd._saved_tensors_hooks_is_enabled())
    m = sys.modules.get("sklearn")
    if m is not None:
        s["sklearn config"] = sorted((k, repr(v)) for k, v in m.get_config().items())
    m = sys.modules.get("scipy.fft")
    if m is not None:
        s["scipy.fft backend"] = _scipy_backends()
    m = sys.modules.get("tensorflow")
    if m is not None:
        s["tf.executing_eagerly"] = m.executing_eagerly()
    return s


def _scipy_backends():
    """The backends scipy.fft would ask, by type."""
    try:
        from scipy._lib.uarray import get_state
        return repr(get_state()._pickle())
    except Exception:
        return ""


PATCHABLE = ("numpy", "numpy.fft", "numpy.linalg", "math", "builtins", "warnings", "logging", "os", "scipy.fft", "scipy.signal", "torch", "torch.fft",
             "torch.nn.functional", "torch.autograd", "torch.nn", "tensorflow", "tensorflow.signal", "tensorflow.math", "jax", "jax.numpy", "jax.numpy.fft",
             "keras.layers", "sklearn.base")
_NAMES = {}


def patched():
    """Which function each public name of the libraries stands for, as a fingerprint per module over the names bound at the first look."""
    out = {}
    for m in PATCHABLE:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        d = vars(mod)
        names = _NAMES.get(m)
        if names is None:
            names = _NAMES[m] = [k for k in list(d) if not k.startswith("_") and callable(d[k])]
        out[m] = hash(tuple([id(d.get(k)) for k in names]))
    return out


def _filters():
    return [tuple(map(repr, f)) for f in warnings.filters]


def _loggers():
    out = []
    root = logging.getLogger()
    out.append(("root", root.level, root.disabled, root.propagate, [(type(x).__name__, x.level) for x in root.handlers], len(root.filters)))
    for n in sorted(logging.Logger.manager.loggerDict):
        lg = logging.Logger.manager.loggerDict[n]
        if isinstance(lg, logging.Logger) and (lg.level or lg.handlers or lg.disabled):
            out.append((n, lg.level, lg.disabled, [(type(x).__name__, x.level) for x in lg.handlers]))
    return out


def process_wide():
    import numpy as np
    import torch
    s = {
        "warnings.filters": _filters(), "warnings.showwarning": id(warnings.showwarning), "warnings.formatwarning": id(warnings.formatwarning),
        "random": h(random.getstate()), "numpy.random": h(repr(np.random.get_state()[1:]).encode() + np.random.get_state()[1].tobytes()),
        "torch rng": h(torch.get_rng_state().numpy().tobytes()), "torch.default_dtype": str(torch.get_default_dtype()),
        "torch.num_threads": torch.get_num_threads(), "torch.deterministic": torch.are_deterministic_algorithms_enabled(),
        "torch.anomaly": torch.is_anomaly_enabled(), "torch.matmul_precision": torch.get_float32_matmul_precision(),
        "torch.flush_denormal": float(torch.tensor(1e-40, dtype=torch.float32) * 1.0) != 0.,
        "numpy.printoptions": repr(sorted(np.get_printoptions().items(), key=str)), "logging.loggers": _loggers(),
        "logging.disable": logging.root.manager.disable, "logging.raiseExceptions": logging.raiseExceptions, "logging.lastResort": id(logging.lastResort),
        "environ": sorted(os.environ.items()), "cwd": os.getcwd(), "sys.path": list(sys.path), "recursionlimit": sys.getrecursionlimit(),
        "switchinterval": sys.getswitchinterval(), "stdout": id(sys.stdout), "stderr": id(sys.stderr), "excepthook": id(sys.excepthook),
        "locale": locale.setlocale(locale.LC_ALL), "gc": (gc.isenabled(), gc.get_threshold()), "SIGINT": repr(signal.getsignal(signal.SIGINT)),
        "threads": threading.active_count(), "int_max_str_digits": sys.get_int_max_str_digits(), "meta_path": [repr(type(x)) for x in sys.meta_path],
    }
    for n in ("SIGTERM", "SIGALRM", "SIGPIPE", "SIGCHLD", "SIGUSR1", "SIGHUP", "SIGFPE", "SIGSEGV"):
        s[n] = repr(signal.getsignal(getattr(signal, n)))
    s["torch.backends"] = [bool(torch.backends.cudnn.enabled), torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic,
                           torch.backends.mkldnn.enabled, torch.get_deterministic_debug_mode(), torch.get_num_interop_threads()]
    s["hooks"] = [id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook), repr(sys.getprofile()), id(builtins.__import__),
                  id(builtins.print), id(builtins.open), threading.stack_size(), socket.getdefaulttimeout()]
    s["warnings.defaultaction"] = (warnings.defaultaction, id(warnings.warn), id(warnings._showwarnmsg_impl))
    import atexit
    import copyreg
    import faulthandler
    import tracemalloc
    s["process"] = (faulthandler.is_enabled(), tracemalloc.is_tracing(), len(copyreg.dispatch_table), len(gc.callbacks), gc.get_debug(),
                    logging._warn_preinit_stderr if hasattr(logging, "_warn_preinit_stderr") else None, id(logging.getLoggerClass()), id(logging.getLogRecordFactory()),
                    sys.gettrace() is None, repr(sys.get_asyncgen_hooks()))
    s["patched functions"] = patched()
    s["path hooks"] = (len(sys.path_hooks), sys.dont_write_bytecode)
    s["limits"] = [resource.getrlimit(getattr(resource, n)) for n in ("RLIMIT_AS", "RLIMIT_NOFILE", "RLIMIT_STACK", "RLIMIT_CPU")]
    u = os.umask(0o22)
    os.umask(u)
    s["umask"] = u
    m = sys.modules.get("scipy.fft")
    if m is not None:
        s["scipy.fft.workers"] = m.get_workers()
    if "tensorflow" in sys.modules:
        from tensorflow.python.eager import context
        c = context.context()
        s["tf seed"] = c._seed
        s["tf rng"] = h(c._rng.getstate()) if getattr(c, "_rng", None) is not None else None
        cf = sys.modules["tensorflow"].config
        s["tf config"] = (cf.get_soft_device_placement(), bool(cf.optimizer.get_jit()), sorted(cf.optimizer.get_experimental_options().items()),
                          c._thread_local_data.is_eager if hasattr(c._thread_local_data, "is_eager") else None)
        s["tf run_functions_eagerly"] = sys.modules["tensorflow"].config.functions_run_eagerly()
    m = sys.modules.get("keras")
    if m is not None:
        s["keras floatx"] = (m.backend.floatx(), m.backend.image_data_format(), m.backend.epsilon(),
                            getattr(m.config.dtype_policy() if hasattr(m, "config") and hasattr(m.config, "dtype_policy") else None, "name", None))
    m = sys.modules.get("jax")
    if m is not None:
        s["jax config"] = sorted((k, repr(v)) for k, v in m.config.values.items())
    return s


def compare(a, b):
    return [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


AMBIENT = ("seterr", "filters", "seed", "tdtype", "print", "loglevel", "environ", "grad", "threads", "tfseed", "reclimit", "gc", "umask", "decimal", "sklearn", "torchbk",
           "hooks", "keras")


def gen_ambient(rng):
    out = []
    for n in AMBIENT:
        if rng.random() < .35:
            out.append([n, rng.randrange(1 << 20)])
    return out


THREAD_AMBIENT = ("seterr", "grad", "decimal", "sklearn")


def apply_ambient(amb, thread=False):
    import numpy as np
    import torch
    for n, v in amb:
        if thread and n not in THREAD_AMBIENT:
            continue
        r = random.Random(v)
        if n == "seterr":
            np.seterr(**{k: r.choice(["ignore", "warn", "warn", "raise", "call", "print"][:4]) for k in ("divide", "over", "under", "invalid")})
        elif n == "filters":
            for _ in range(r.randint(1, 3)):
                warnings.simplefilter(r.choice(["ignore", "default", "error", "always", "once", "module"]),
                                      r.choice([UserWarning, RuntimeWarning, DeprecationWarning, Warning, FutureWarning]))
        elif n == "seed":
            random.seed(v)
            np.random.seed(v)
            torch.manual_seed(v)
        elif n == "tdtype":
            torch.set_default_dtype(r.choice([torch.float64, torch.float32]))
        elif n == "print":
            np.set_printoptions(precision=r.randint(2, 12), suppress=r.random() < .5)
        elif n == "loglevel":
            logging.getLogger().setLevel(r.choice([logging.DEBUG, logging.INFO, logging.ERROR]))
            if r.random() < .5:
                logging.getLogger().addHandler(logging.NullHandler())
        elif n == "environ":
            os.environ["KYMATIO_SIM_%d" % r.randrange(3)] = str(v)
        elif n == "grad":
            torch.set_grad_enabled(r.random() < .5)
        elif n == "threads":
            torch.set_num_threads(r.choice([1, 2]))
        elif n == "reclimit":
            sys.setrecursionlimit(r.choice([900, 1500, 3000]))
            sys.setswitchinterval(r.choice([.005, .01]))
        elif n == "gc":
            gc.set_threshold(r.choice([500, 900, 2000]), r.choice([5, 10, 20]), 10)
        elif n == "umask":
            os.umask(r.choice([0o22, 0o77, 0o27]))
        elif n == "decimal":
            decimal.getcontext().prec = r.choice([10, 28, 50])
        elif n == "sklearn":
            if "sklearn" in sys.modules:
                sys.modules["sklearn"].set_config(print_changed_only=r.random() < .5, assume_finite=r.random() < .5)
        elif n == "torchbk":
            torch.backends.cudnn.benchmark = r.random() < .5
            torch.backends.cudnn.deterministic = r.random() < .5
            torch.set_float32_matmul_precision(r.choice(["high", "highest", "medium"]))
        elif n == "hooks":
            f, g = warnings.showwarning, sys.excepthook
            warnings.showwarning = lambda *a, **k: f(*a, **k)
            sys.excepthook = lambda *a: g(*a)
        elif n == "keras":
            if "keras" in sys.modules:
                k = sys.modules["keras"].backend
                k.set_image_data_format(r.choice(["channels_last", "channels_first"]))
                k.set_epsilon(r.choice([1e-7, 1e-6]))
        elif n == "tfseed":
            if "tensorflow" in sys.modules and r.random() < .3:
                sys.modules["tensorflow"].random.set_seed(v)
