"""Writes /verif/properties.jsonl (kept as code so that the list is easy to review)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, **anchors):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **anchors))
    assert len(title) <= 80, (id, len(title))
    P.append(d)


F1 = "kymatio/scattering1d/frontend/base_frontend.py"
F2 = "kymatio/scattering2d/frontend/base_frontend.py"
F3 = "kymatio/scattering3d/frontend/base_frontend.py"
FT1 = "kymatio/scattering1d/frontend/torch_frontend.py"
FT2 = "kymatio/scattering2d/frontend/torch_frontend.py"
FT3 = "kymatio/scattering3d/frontend/torch_frontend.py"
BK = ["kymatio/backend/numpy_backend.py", "kymatio/backend/torch_backend.py",
      "kymatio/backend/tensorflow_backend.py", "kymatio/backend/jax_backend.py"]

p("C01", "Overlapping calls on one transform each return their own coefficients",
  "Any number of threads may call the same transform object at the same time, from its very first call on and with inputs of different batch sizes, shapes and values. "
  "Each call completes and returns exactly the scattering coefficients (and the output format) that the same call returns when it is made alone in a fresh process. "
  "meta() and output_size() may run at the same time as calls, and give the same answer as when run alone.",
  ["schedules", "inputs", "configurations"],
  "for every interleaving of any number of calls on one object, for every family (1D, JTFS, 2D, 3D) and front end, every accepted input and setting",
  "The tests make every call alone, on one thread; no test overlaps two calls, so state that a call leaves on the object, the class or the backend for its own later use is never seen by another call.",
  [F1, F2, F3, FT1, FT2, FT3, "kymatio/scattering1d/core/scattering1d.py", "kymatio/scattering1d/core/timefrequency_scattering.py",
   "kymatio/scattering2d/core/scattering2d.py", "kymatio/scattering3d/core/scattering3d.py"] + BK,
  [("intermediate results live in local variables of the call", "scattering1d(), joint_timefrequency_scattering(), scattering2d(), scattering3d()"),
   ("filters are read-only during a call", "create_filters(); load_filters() in the torch front ends rebinds the same buffers"),
   ("stateless backends shared by all objects", "kymatio/*/backend/*_backend.py class methods")],
  state=[dict(name="filter bank", meaning="built once, shared by all calls", where="phi_f/psi1_f/psi2_f/filters_fr, phi/psi, filters"),
         dict(name="3D averaging function", meaning="set by the call on the object", where="HarmonicScattering*3D.scattering: self.averaging")],
  observe_at=["return value of scattering()/__call__/forward/transform/call"], hook_needed=None)

p("C02", "Transforms are isolated from one another",
  "Creating, calling, reconfiguring, failing or discarding one transform never changes the filters, the results, the metadata or the settings of any other transform in the process. "
  "This holds for transforms of the same or of different families, parameters and front ends, whether the operations are interleaved on one thread or overlap on many threads.",
  ["schedules", "histories", "configurations"],
  "for every set of transforms and every interleaving of their construction, use, reconfiguration, failure and disposal",
  "Each test builds one object and looks only at that object; the same few parameter sets are used, so process-wide state keyed on too little (a cache, a class attribute, a shared buffer or a default argument) goes unnoticed.",
  [F1, F2, F3, "kymatio/scattering1d/filter_bank.py", "kymatio/scattering2d/filter_bank.py", "kymatio/scattering3d/filter_bank.py",
   "kymatio/frontend/base_frontend.py", "kymatio/frontend/entry.py"] + BK,
  [("each object builds and owns its filter bank", "scattering_filter_factory(), filter_bank(), solid_harmonic_filter_bank()"),
   ("backends keep no per-call or per-object state", "kymatio/*/backend/*_backend.py"),
   ("front-end selection rebinds only the instance's class", "ScatteringEntry.__init__")],
  observe_at=["results, meta(), output_size() and public attributes of every other live transform"], hook_needed=None)

p("C03", "A call that fails part-way raises, and leaves the transform fully usable",
  "If an allocation or a library operation fails inside a call, or the call is interrupted, the call either raises to its caller or returns the correct coefficients; it never returns wrong or partial ones. "
  "After any such failure, at whatever point it struck, every later call on the same transform, and every call on that transform that was in progress on another thread, behaves as if the failed call had never been made, including its settings, meta() and output_size().",
  ["fault_sequences", "crash_points", "schedules"],
  "for every point of every call at which an allocation failure, a library exception or an interrupt can strike, any number of times, alone or with other calls in flight",
  "The only failures in the tests are rejected arguments, before any work starts; no test fails a call half-way and then uses the object again.",
  [F1, F2, F3, FT1, FT2, FT3, "kymatio/scattering1d/core/scattering1d.py", "kymatio/scattering2d/core/scattering2d.py",
   "kymatio/scattering3d/core/scattering3d.py", "kymatio/scattering3d/utils.py"] + BK,
  [("call state is local, so unwinding discards it", "scattering() and the core generators"),
   ("filter loading is idempotent", "load_filters() in the torch front ends"),
   ("no blanket exception handlers on the call path", "kymatio/*/core, kymatio/*/backend")],
  observe_at=["exception or result of the faulted call", "results of all later calls"], hook_needed=None)

p("C04", "A failed construction leaves nothing behind and can be retried",
  "If building a transform fails at any point (allocation failure, library exception, interrupt, rejected argument), the error reaches the caller. "
  "Building it again with valid arguments then gives a transform with the same filters and coefficients as in a fresh process, and transforms built before the failure, in progress on other threads, or built afterwards with other arguments are unaffected.",
  ["fault_sequences", "crash_points", "schedules"],
  "for every point of the construction of every family and front end at which a failure can strike, and every sequence of failed and successful constructions",
  "No test makes a construction fail after it has started to do work, and none looks at what is built after one.",
  [F1, F2, F3, FT1, FT2, FT3, "kymatio/scattering1d/filter_bank.py", "kymatio/scattering1d/utils.py", "kymatio/scattering2d/filter_bank.py",
   "kymatio/scattering3d/filter_bank.py", "kymatio/frontend/entry.py", "kymatio/frontend/base_frontend.py"],
  [("filter banks are pure functions of the arguments", "kymatio/*/filter_bank.py"),
   ("errors while selecting a front end are re-raised", "ScatteringEntry.__init__")],
  observe_at=["exception of the faulted constructor", "results of transforms built later"], hook_needed=None)

p("C05", "No operation leaves a process-wide setting changed",
  "Building, calling, copying or inspecting a transform, whether it succeeds or raises, and whether it runs alone or next to others, leaves every process-wide setting as it found it. "
  "That covers NumPy's floating-point error handling, the warning filters, the Python, NumPy, torch and TensorFlow random streams, torch's gradient mode, default dtype and thread count, the logging configuration, the environment and the working directory.",
  ["fault_sequences", "histories", "schedules"],
  "for every operation of every family and front end, every input (including non-finite and degenerate ones) and every failure point inside it",
  "Tests look at return values only. A setting that stays changed only when an operation raises, or only after two operations overlap, shows in no single successful call.",
  ["kymatio/scattering3d/utils.py", "kymatio/frontend/entry.py", "kymatio/scattering1d/filter_bank.py", "kymatio/backend/torch_backend.py", F1, F2, F3],
  [("the error state is restored after the guarded square root", "kymatio/scattering3d/utils.py: sqrt"),
   ("no seeding, no global configuration on import or use", "whole package")],
  observe_at=["numpy.geterr, warnings.filters, random/np.random/torch/tf generator states, torch global modes, logging.root, os.environ, cwd"], hook_needed=None)

p("C06", "Inputs are never written to and results never change afterwards",
  "A call never modifies the array it is given, not even temporarily while it runs or when it fails, and accepts read-only arrays. "
  "Once returned, a result (coefficients or metadata) is the caller's own: later calls never change it, writing into it never changes any later result or metadata, and writing into the input after the call never changes it.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "for every sequence of calls and caller writes, at every moment of every call including failing ones, for every family, front end and memory layout of the input",
  "Tests pass a fresh array and read the result once. An aliased buffer shows only after the caller writes to it or a later call reuses it; a temporary change of the input shows only to somebody who looks during the call.",
  [F1, F2, F3] + BK + ["kymatio/scattering2d/backend/numpy_backend.py", "kymatio/scattering1d/backend/numpy_backend.py", "kymatio/scattering3d/backend/numpy_backend.py",
   "kymatio/frontend/sklearn_frontend.py"],
  [("padding copies the input", "backend.pad / Pad"),
   ("results are freshly allocated", "backend.stack, backend.concatenate, reshape_output")],
  observe_at=["bytes of the caller's arrays at every scheduling point", "bytes of all earlier results after every operation"], hook_needed=None)

p("C07", "Results depend only on current settings and input, not on history",
  "What a transform returns is determined by its construction arguments, the present value of its documented run-time attributes (max_order, out_type, the JTFS format and the 3D integral powers, method and rotation covariance) and the input. "
  "Whatever calls, inspections, failures, collections or attribute changes came before, in whatever order, it equals what a newly built transform with the present settings returns, and meta() and output_size() describe that result.",
  ["histories", "configurations", "inputs"],
  "for every history of calls (of any shape, batch and dtype), attribute changes, meta()/output_size() queries and failures",
  "Tests build an object, call it once or twice and drop it. State carried from one call to the next needs a particular earlier call to matter.",
  [F1, F2, F3, FT1, FT2, FT3, "kymatio/scattering3d/frontend/numpy_frontend.py", "kymatio/scattering3d/frontend/tensorflow_frontend.py"],
  [("settings are read at call time", "scattering() and _check_runtime_args() in the base front ends"),
   ("meta() runs the same generator as the call, on a dry backend", "ScatteringBase1D.meta, TimeFrequencyScatteringBase.meta")],
  observe_at=["result, meta(), output_size() at every step of the history"], hook_needed=None)

p("C08", "Copies and restored transforms equal the original, at any point of its life",
  "A transform that is copied, pickled and loaded in another process, cloned through its estimator parameters, rebuilt from its layer configuration or restored from a state dict gives the same coefficients, metadata and settings as the original has at that moment. "
  "This holds however the original was used before, and the two are independent afterwards. "
  "Losing the process at any moment loses nothing that an earlier completed save holds: the restored transform works in the new process.",
  ["histories", "crash_points", "configurations"],
  "for every family, front end, setting and history of use before the save, and every crash between or during saves",
  "No test pickles, copies or clones a transform, or loads one in a new process; whether it works depends on what was called before the save.",
  ["kymatio/numpy.py", "kymatio/torch.py", "kymatio/tensorflow.py", "kymatio/jax.py", "kymatio/sklearn.py", "kymatio/keras.py",
   "kymatio/scattering2d/backend/numpy_backend.py", FT1, FT2, FT3, "kymatio/scattering1d/frontend/keras_frontend.py",
   "kymatio/scattering2d/frontend/keras_frontend.py", "kymatio/scattering3d/frontend/keras_frontend.py",
   "kymatio/scattering3d/frontend/numpy_frontend.py", "kymatio/scattering3d/frontend/tensorflow_frontend.py"],
  [("front-end classes are importable under their public names", "kymatio/numpy.py, kymatio/torch.py, ..."),
   ("filters are registered buffers", "register_filters() in the torch front ends"),
   ("constructor arguments can be read back", "sklearn get_params, keras get_config")],
  observe_at=["results of the restored object in a new process"], hook_needed=None)

p("C09", "Replicas made for data-parallel use compute with their own filters",
  "When a torch transform is replicated for data-parallel execution, every replica computes with the filter buffers that belong to it. "
  "Running any number of replicas and the original at the same time, in any interleaving, gives each the result it gives when run alone, and never mixes the buffers of two replicas or changes those of the original.",
  ["schedules", "configurations"],
  "for every number of replicas, every interleaving of their calls and of calls on the original, for all torch families",
  "There is no multi-device machine in the tests, and no test calls two replicas; the structures that hold the filters are shared between replicas, so a mix-up needs a particular interleaving.",
  [FT1, FT2, FT3, "kymatio/frontend/torch_frontend.py"],
  [("filters are looked up in the module's own buffers at each call", "load_filters() / load_single_filter() in the torch front ends")],
  state=[dict(name="filter structures", meaning="lists and dictionaries that a replica shares with the module it was made from", where="phi_f, psi1_f, psi2_f, filters_fr, phi, psi, filters")],
  observe_at=["results of replicas whose buffers were given distinguishable values"], hook_needed=None)

p("C10", "Gradients belong to their own forward pass, whatever overlaps",
  "With the torch front end, the gradient that backward() delivers for a call is the gradient of that call's coefficients at that call's input. "
  "It does not depend on other forward and backward passes on the same or other transforms made between the forward and its backward, on their order, on overlapping threads, on a pass that failed, or on changes of the settings in between. "
  "The same holds for the torch backend's modulus used on its own, and a backward pass never writes into the gradients it is given.",
  ["schedules", "histories", "fault_sequences"],
  "for every order and interleaving of forward and backward passes, failures and reconfigurations, for all torch families",
  "Gradient tests run one forward directly followed by its backward. A custom derivative that keeps state outside its own context, or a saved tensor that is later changed in place, needs a second pass in between.",
  ["kymatio/backend/torch_backend.py", "kymatio/scattering1d/backend/torch_backend.py", "kymatio/scattering2d/backend/torch_backend.py",
   "kymatio/scattering3d/backend/torch_backend.py", FT1, FT2, FT3],
  [("the modulus keeps what backward needs in its own context", "ModulusStable.forward/backward with save_for_backward"),
   ("no in-place operation on saved tensors", "torch backends")],
  observe_at=["x.grad / torch.autograd.grad results"], hook_needed=None)

p("C11", "Torch transforms always compute with their current buffers",
  "After any sequence of moves and casts (to, double, float), buffer replacements, loads of a state dict and calls in between, including ones that failed, the next call of a torch transform uses exactly the buffer values, dtype and device that its state dict shows. "
  "Its result is the one of a fresh transform holding the same state, and earlier results keep their values.",
  ["histories", "fault_sequences"],
  "for every order of casts, loads, buffer writes, calls and failures",
  "Tests cast or move an object at most once and before its first call; stale filters need a cast or a load after one.",
  [FT1, FT2, FT3, "kymatio/frontend/torch_frontend.py"],
  [("filters are re-read from the buffers at each call", "load_filters() / load_single_filter()")],
  observe_at=["results after each cast/load; state_dict()"], hook_needed=None)

p("C12", "Work may be batched, split, ordered and handed to workers freely",
  "The coefficients of one signal do not depend on the batch it is computed in: splitting, merging, reordering or duplicating the signals of a batch, adding leading batch dimensions, and spreading the pieces over threads, forked or restarted worker processes that share or received the transform give the same coefficients for each signal. "
  "Retrying a piece after a worker died changes nothing.",
  ["inputs", "schedules", "crash_points"],
  "for every partition and order of every batch, every assignment of pieces to workers and every worker death and retry",
  "Tests use one or two batch shapes and no workers; dependence on batch size, position or the process that does the work is not visible there.",
  [F1, F2, F3, "kymatio/backend/numpy_backend.py", "kymatio/scattering2d/core/scattering2d.py", "kymatio/frontend/sklearn_frontend.py"] + BK[1:],
  [("batch axes are flattened on entry and restored on exit", "reshape_input / reshape_output"),
   ("every operation acts on the last axes only", "backends and core")],
  observe_at=["coefficients per signal"], hook_needed=None)

p("C13", "The cache directory is always usable, whoever creates it and whenever they die",
  "get_cache_dir() returns a path that is an existing directory under the configured base, with all missing levels created, no matter how many threads or processes ask for the same or overlapping paths at once and no matter where an earlier attempt was killed or failed. "
  "If it cannot, or creation was not allowed, it raises and the same request succeeds once the obstacle is gone. "
  "It never removes or changes anything that is already there, and creates nothing when creation is not allowed.",
  ["schedules", "fault_sequences", "crash_points"],
  "for every interleaving of requests, every failure of a file-system call and every crash point",
  "The test asks once, alone, for a directory that is certain to be new or certain to be there.",
  ["kymatio/caching.py"],
  [("existence check, then creation of all levels", "get_cache_dir"), ("base directory from argument, environment or home", "find_cache_base_dir")],
  observe_at=["returned path and the directory tree"], hook_needed=None)

p("C14", "The selected front end does not depend on imports, order or failures",
  "The generic entry points give the transform of the requested front end (NumPy by default) with all its arguments passed on, equal to the one built from that front end's own module. "
  "This holds whichever front ends were imported or selected before, on whatever threads, and after an import or a construction that failed; a failed selection raises, changes nothing for others, and succeeds when repeated once the cause is gone.",
  ["histories", "schedules", "fault_sequences"],
  "for every order and interleaving of selections, imports, import failures and constructor failures",
  "Tests select each front end once, in a process where everything is already imported, and never after a failed attempt.",
  ["kymatio/frontend/entry.py", "kymatio/__init__.py", "kymatio/scattering1d/frontend/entry.py", "kymatio/scattering2d/frontend/entry.py",
   "kymatio/scattering3d/frontend/entry.py", "kymatio/frontend/base_frontend.py"],
  [("the instance takes the class of the selected front end", "ScatteringEntry.__init__"), ("backends are resolved by name", "ScatteringBase._instantiate_backend")],
  observe_at=["class, settings and results of the object obtained"], hook_needed=None)

p("C15", "Compiled and traced transforms compute what the plain call computes",
  "A transform wrapped in tf.function, used in a Keras model, or passed through jax.jit, jax.grad or jax.vmap returns what the plain call returns, for the first trace and for every replay with other inputs, batch sizes and settings. "
  "Traces, plain calls, failed traces and traces on other threads may come in any order on the same object, and none of them leaves anything on it that makes a later call fail or return something else.",
  ["histories", "schedules", "fault_sequences"],
  "for every order and interleaving of traces, retraces, replays, plain calls and traces that fail",
  "Tests trace an object at most once and do not use it afterwards; a value kept from a trace only hurts in a later one or in a plain call.",
  ["kymatio/scattering1d/frontend/tensorflow_frontend.py", "kymatio/scattering2d/frontend/tensorflow_frontend.py",
   "kymatio/scattering3d/frontend/tensorflow_frontend.py", "kymatio/scattering1d/frontend/jax_frontend.py", "kymatio/scattering2d/frontend/jax_frontend.py",
   "kymatio/scattering3d/frontend/jax_frontend.py", "kymatio/frontend/keras_frontend.py", "kymatio/backend/tensorflow_backend.py", "kymatio/backend/jax_backend.py"],
  [("nothing computed from the input is stored on the object", "scattering() in all front ends"),
   ("filters stay host arrays and enter a trace as constants", "create_filters()")],
  observe_at=["results of traced and plain calls"], hook_needed=None)

p("C16", "A finished call keeps nothing of its input or result alive",
  "Once a call has returned or raised and the caller has dropped its input, the result and the exception, neither the transform nor the package keeps any of the data of that call alive, however many calls were made, on whatever threads, and wherever one failed. "
  "Dropping a transform frees its filters.",
  ["histories", "fault_sequences", "schedules"],
  "for every history of successful, failing and overlapping calls and of constructed and dropped transforms",
  "Tests never look at what stays alive; growth by one reference per call is invisible in a short test.",
  [F1, F2, F3, FT1, FT2, FT3, "kymatio/scattering3d/frontend/numpy_frontend.py"] + BK,
  [("inputs and intermediates are only held by local variables", "scattering() and the core generators"),
   ("no caches keyed on inputs", "whole package")],
  observe_at=["weak references to inputs, results and transforms after collection"], hook_needed=None)

# ---- pure-function properties: not simulation targets -------------------------------------------------
p("C17", "Scattering is stable to translation",
  "Translating the input by an amount small against the averaging scale changes the averaged coefficients only slightly, and translating by a multiple of the stride, away from the borders, translates the coefficients.",
  ["inputs", "configurations"], "for every signal, shift and parameter set",
  "Tests try a few shifts of a few signals.", [F1, F2, F3, "kymatio/scattering1d/core/scattering1d.py"],
  [("low-pass averaging at scale T", "cdgmm with phi in the core generators")])
p("C18", "The transform is non-expansive",
  "The distance between the coefficients of two signals never exceeds the distance between the (padded) signals, and the energy of the coefficients never exceeds that of the signal.",
  ["inputs", "configurations"], "for every pair of signals and every parameter set",
  "Tests compare a few fixed vectors.", ["kymatio/scattering1d/filter_bank.py", "kymatio/scattering2d/filter_bank.py"],
  [("Littlewood-Paley normalisation of the filter bank", "filter_bank.py")])
p("C19", "Rotation-covariant 3D coefficients are invariant to rotation",
  "Rotating the volume by a quarter turn around an axis leaves the rotation-covariant solid harmonic coefficients unchanged up to rounding.",
  ["inputs", "configurations"], "for every volume and rotation of the grid",
  "Tests rotate one random volume.", [F3, "kymatio/scattering3d/core/scattering3d.py"],
  [("modulus over the azimuthal index m", "backend.modulus_rotation")])
p("C20", "All front ends agree numerically with the definition",
  "For the same arguments and input, every front end returns the coefficients of the mathematical definition up to rounding at the precision of the input.",
  ["inputs", "configurations"], "for every parameter set and input", "Tests compare a few stored vectors at a few parameter sets.",
  BK + ["kymatio/scattering1d/core/scattering1d.py", "kymatio/scattering2d/core/scattering2d.py", "kymatio/scattering3d/core/scattering3d.py"],
  [("one core algorithm over exchangeable backends", "kymatio/*/core")])
p("C21", "Filter banks are admissible for every accepted parameter set",
  "For every accepted J, Q, T and shape the wavelets have zero mean, cover the frequency axis with bounded Littlewood-Paley sum and are sampled without aliasing at every resolution used.",
  ["configurations"], "for every accepted parameter set", "Tests check a few parameter sets.",
  ["kymatio/scattering1d/filter_bank.py", "kymatio/scattering2d/filter_bank.py", "kymatio/scattering3d/filter_bank.py"],
  [("construction and periodisation of the filters", "filter_bank.py"), ("aliasing assertions", "ScatteringBase._check_filterbanks")])
p("C22", "Invalid arguments and inputs are rejected with a clear error",
  "Arguments outside the documented ranges and inputs of the wrong kind, rank or size are rejected with the documented exception before any coefficient is computed.",
  ["inputs", "configurations"], "for every invalid argument and input", "Tests try one example per rule.", [F1, F2, F3] + BK[:2],
  [("argument and input checks", "build(), _check_runtime_args(), _check_input(), input_checks()")])
p("C23", "Output shape, ordering and metadata follow from the parameters",
  "For every accepted parameter set, the number, order, size and resolution of the coefficients returned are the ones the documentation and meta() state.",
  ["configurations"], "for every accepted parameter set", "Tests check a few parameter sets.", [F1, F2, F3],
  [("meta() and output_size()", "base front ends")])
p("C24", "Gradients are the derivative of the coefficients",
  "For every differentiable front end, the gradient of a single isolated call equals the derivative of its coefficients wherever that exists, and is finite and zero where the modulus vanishes.",
  ["inputs"], "for every input", "Tests run gradcheck on a few random inputs.", ["kymatio/backend/torch_backend.py", "kymatio/backend/tensorflow_backend.py", "kymatio/backend/jax_backend.py"],
  [("stable modulus with zero subgradient at zero", "ModulusStable")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
