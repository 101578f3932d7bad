"""What each check runs and reports (no import of the code under test)."""

DROPPABLE = ("threads", "faults", "body", "switches", "ops_list", "h", "shared", "calls", "steps",
             "pre", "attrs", "fields", "decls", "script", "snips", "classes", "items", "agents_list", "replies_list", "oops")

_CORE_REAL = ["effectful.ops.types", "effectful.ops.semantics", "effectful.ops.syntax",
              "effectful.internals.runtime", "effectful.internals.product_n", "effectful.internals.unification"]
_SIM_STUBS = ["thread scheduler (real OS threads released one at a time by a seeded scheduler)",
              "threading locks, time, sleep (simulated)"]
_ASSUME = ["seeded sampling of schedules and faults, not enumeration",
           "thread switches happen at line or bytecode boundaries of effectful code, of functools, and at locks and sleeps",
           "asynchronous exceptions are injected at effect boundaries, not between arbitrary bytecodes of the interpreter's own context-manager protocol"]


def _p(runs_q, runs_t, rule, scenarios, real=_CORE_REAL, stubs=_SIM_STUBS, assumptions=_ASSUME, **kw):
    d = dict(runs=dict(quick=runs_q, thorough=runs_t), rule=rule, scenarios=scenarios, real=list(real),
             stubs=list(stubs), assumptions=list(assumptions))
    d.update(kw)
    return d


_DISPATCH_RULE = ("random handler programs (operations, nested/composed handlers, forwarding, catch-all handlers, "
                  "evaluation of terms, exceptions) under a random schedule and fault plan; non-trivial: at least "
                  "two handler or default invocations, and counted once per distinct (event log, interleaving)")

_CONVO_RULE = ("random conversations (scripted replies, tool calls, nested calls, retries, latency, failures) under a random "
               "schedule and fault plan; non-trivial: at least one request was made, counted once per distinct (event log, interleaving)")
_LLM = dict(real=_CORE_REAL + ["effectful.handlers.llm.completions", "effectful.handlers.llm.encoding", "effectful.handlers.llm.template", "pydantic", "tenacity", "litellm response types"],
            stubs=_SIM_STUBS + ["the language model and its network (litellm.completion): scripted replies, latency and errors", "uuid.uuid1/uuid4 (deterministic, on the simulated clock)"])
_REPL_RULE = ("random snippet sequences run by the simulated model in nested, repeated and concurrent calls; non-trivial: at least "
              "one snippet ran, counted once per distinct (event log, interleaving)")
_LLM_EVAL = dict(real=_LLM["real"] + ["effectful.handlers.llm.evaluation", "RestrictedPython"],
                 stubs=_LLM["stubs"] + ["the external type checker (subprocess.run): a process whose verdict, output and failures are scripted"])

_SCOPE_RULE = ("random modules of tools, templates, agents, functions and variables, changed between and during calls in which the "
               "simulated model picks tools from what it is offered, with failures; non-trivial: at least one call ended, counted once "
               "per distinct (event log, interleaving)")
_GATE_RULE = ("random functions and snippets (good, ill-typed, malformed) generated by the simulated model in calls with retries, "
              "with failures of the checker process and of the disk under the temporary directory; non-trivial: at least one type "
              "check completed or function was returned, counted once per distinct (event log, interleaving)")
_LLM_GATE = dict(real=_LLM_EVAL["real"] + ["subprocess.run, tempfile, shutil, linecache, inspect"],
                 stubs=_LLM["stubs"] + ["the external type checker (subprocess.Popen): a process that reads the file it is given and reports marked lines, with scripted failures",
                                        "open and mkdir under the scratch temporary directory fail on demand"])

PROPS = {
    "C01": _p(4000, 120000, _DISPATCH_RULE, {"dispatch": 1}),
    "C02": _p(7200, 120000, _DISPATCH_RULE, {"dispatch": 8, "terms": 1}),
    "C03": _p(8000, 150000, _DISPATCH_RULE, {"dispatch": 1}),
    "C04": _p(8000, 150000, "2-4 threads race attribute accesses, calls and handler installations over random class hierarchies and shared, copied objects; non-trivial: at least one shared attribute accessed", {"objects": 3, "convo": 1}),
    "C05": _p(1400, 30000, "2-4 threads are the first in the process to use random dataclasses, torch functions, named indexes and distributions; non-trivial: at least one shared registration", {"firstuse": 1},
              real=_CORE_REAL + ["effectful.handlers.torch", "effectful.handlers.indexed", "effectful.handlers.pyro", "torch", "pyro", "functools.singledispatch"]),
    "C06": _p(8000, 150000, "1-3 threads define and use random handler-class hierarchies, with definitions that fail midway or nest; non-trivial: at least two classes exist", {"classes": 1}),
    "C07": _p(1800, 30000, "1-3 threads build random terms with binders and evaluate, substitute, type, compare and print shared and own terms, with failed attempts in between; non-trivial: more than one analysis ran, counted once per distinct (event log, interleaving)", {"terms": 1}),
    "C08": _p(8000, 150000, "1-3 threads run random computations under random sets of 1-4 analyses, with failures at random invocations of their rules; non-trivial: at least one result was read, counted once per distinct (event log, interleaving)", {"product": 1}),
    "T01": _p(520, 20000, "1-3 threads run random computations on arrays with named dimensions and call shared transformed functions with changing names and structures, with failures inside them; non-trivial: at least one result was compared, counted once per distinct (event log, interleaving)", {"arrays": 5, "arrayexpr": 4, "arrays_jax": 1, "arrayexpr_jax": 1},
              real=_CORE_REAL + ["effectful.handlers.torch", "effectful.handlers.jax", "torch", "jax"]),
    "T02": _p(280, 15000, "1-3 threads use shared and own distributions whose parameters have named dimensions, with failures inside; non-trivial: at least one result was compared, counted once per distinct (event log, interleaving)", {"dists": 5, "dists_jax": 2},
              real=_CORE_REAL + ["effectful.handlers.torch", "effectful.handlers.jax", "effectful.handlers.pyro", "effectful.handlers.numpyro", "torch", "jax", "pyro", "numpyro"]),
    "T03": _p(300, 2600, "histories of runs of a random Pyro model under shims, with handlers of pyro_sample and exceptions inside it; non-trivial: at least one run was compared, counted once per distinct event log", {"pyromodel": 1},
              real=_CORE_REAL + ["effectful.handlers.torch", "effectful.handlers.pyro", "torch", "pyro"]),
    "L01": _p(3000, 60000, _CONVO_RULE, {"convo": 1}, **_LLM),
    "L02": _p(3000, 60000, _CONVO_RULE, {"convo": 1}, **_LLM),
    "L03": _p(3000, 60000, _CONVO_RULE, {"convo": 1}, **_LLM),
    "L04": _p(3000, 60000, _CONVO_RULE, {"convo": 1}, **_LLM),
    "L05": _p(3000, 60000, _CONVO_RULE, {"convo": 1}, **_LLM),
    "L06": _p(3000, 60000, _CONVO_RULE, {"convo": 1}, **_LLM),
    "L07": _p(2400, 60000, _CONVO_RULE, {"convo": 3, "repl": 1}, **_LLM),
    "L08": _p(2400, 60000, _REPL_RULE, {"repl": 1}, **_LLM_EVAL),
    "L09": _p(2000, 60000, _GATE_RULE, {"gate": 1}, **_LLM_GATE),
    "L10": _p(1800, 60000, _GATE_RULE, {"gate": 1}, **_LLM_GATE),
    "L11": _p(2000, 60000, _SCOPE_RULE, {"scope": 1}, **_LLM_EVAL),
}

_PURE = ("a property of pure functions: it depends on no schedule, clock, I/O, failure or other party, so "
         "simulation has nothing to control; random input generation would be a different technique")
NOT_APPLICABLE = {p: _PURE for p in ("P01", "P02", "P03", "P04", "P05")}

NOTES = {
    "C01": "Sampled interleavings at line/bytecode granularity of real effectful code, each thread compared event by event with a per-thread reference dispatcher. Trusts the reference dispatcher and CPython's own thread-local storage.",
    "C02": "Exceptions of 13 kinds (ordinary and BaseException) injected at sampled entries/exits of handlers, defaults and blocks; all later dispatch and the escaping exception compared with the reference. Exceptions between arbitrary bytecodes are not injected.",
    "C03": "Random handler programs with forwarding, catch-all handlers, composition and re-entrance compared event by event (which handler ran, with which arguments, result) with the reference dispatcher.",
    "C04": "Random class hierarchies with operations and templates; racing first accesses, copies, handler installations; identity and applicability of handlers judged through public calls only.",
    "C05": "Threads race the first use of dataclasses, torch functions, named indexes and wrapped distributions; operations, term classes and results compared with those a single thread gets. First use inside jax is raced at entry points only.",
    "C06": "Random hierarchies of handler classes (diamonds, mixins, nested and failing bodies, concurrent definitions) compared with plain Python attribute lookup along the MRO.",
    "C07": "Random terms with six kinds of binders over shared variables; results of building, substitution, evaluation, free variables, types, comparison and printing compared (up to bound names) with a reference lambda calculus, alone, repeated after injected failures, and concurrently.",
    "C08": "Random sets of analyses (rules, catch-all rules, defaults, requests for each other's results and arguments) over direct and term computations; every result compared with an evaluation of that analysis alone, every rule invocation checked for being asked for and for not repeating a result. Rules do not forward, and use only operations of the analyses or their defaults (outer handlers are out of scope of productN, see its TODO).",
    "T01": "Random expressions (arithmetic, reductions over and substitution of names) and transformed functions, called repeatedly with other names, layouts and structures, with exceptions inside them; well-shaped random expressions over about 30 array functions and methods and every kind of index, built directly or substituted later; values, names and sizes compared with plain torch (and numpy, for jax) slice by slice. Forward-mode transforms run in one thread only (torch keeps their level in a global); threads are not preempted inside a jax trace.",
    "T02": "About forty distributions of Pyro and NumPyro with random placements of names and batch dimensions over their parameters (shared by threads, deferred, failing on the way); shapes, names, log probabilities and moments compared slice by slice with the plain distribution, samples checked for shape, names, support (concentrated parameters) and independence. Distributions and samplers that torch.vmap cannot run are left out.",
    "T03": "Random models of one to four dependent sites (normal, gamma, Bernoulli, categorical, Dirichlet, to_event) with plates, masks, scales, observations and conditioning, names anywhere, in histories of runs under shims with handlers of pyro_sample and exceptions; values, trace and log probabilities compared slice by slice with plain Pyro. One thread: Pyro keeps its handlers in one list per process. Enumeration, guides, subsampling, plates outside of the shim and inner replay are not generated.",
    "L01": "Scripted conversations with failures and interrupts at every stage of a call (request, decoding, tools, retry waits); memory of every agent compared with the reference after every call. Two threads calling the same agent at once are outside the property as checked. The model is simulated.",
    "L02": "Every request the library sends is checked on its own (one system message, distinct ids, every tool call answered before the next assistant message) and against the reference conversation, with repeated ids, standing and jumping clocks, malformed replies next to good ones.",
    "L03": "Random retry limits, waits and stop rules on the simulated clock; malformed, truncated and badly typed replies; number of attempts, feedback, waits and what remains in the conversation compared with the reference.",
    "L04": "Random tool calls (several per reply, repeated ids, undecodable ones, failing, interrupted, unencodable, nested); runs, order, arguments, answers and escaping errors compared with the reference.",
    "L05": "Returned values and every message of every request compared with the reference for text, integer, record and list return types, with malformed and empty replies.",
    "L06": "Two or three threads through shared or separate providers, retry handlers, tools and templates at sampled line-level interleavings; each thread compared with its own reference run.",
    "L07": "Calls nested in tools and in the model's Python snippets, up to three deep, failing, retried, swallowed; both exchanges, memories and sessions compared with the reference.",
    "L08": "Random snippet sequences under both evaluation providers, in nested, repeated and concurrent calls, compared with CPython's own exec in one dictionary per call; output of the surrounding program and of other threads checked for leaks. The type checker process is a stub that approves.",
    "L09": "Good, ill-typed and malformed functions and snippets under 34 kinds of checker and disk failure (start, signal, status, output, interrupt, mkdir/open/write/close); judged by which code ran, what each call returned or raised, and what is left in the temporary directory. The checker is a stub process that reads the very file it is given.",
    "L11": "Random programs (nested functions, shadowing, aliases, inherited and overridden tools, recursion markers), rebinding between and during calls, session snippets, readers of variables; every request's tools compared with Python's scoping rules, every pick with what ran. Names a function binds after defining a template may or may not be offered (it depends on the Python version). Tools are identified by their descriptions.",
    "L10": "Random histories of generated functions and snippets (rejected, discarded, collected, concurrent); the source shown by inspect, linecache, tracebacks, re-encoding and later checks compared with the text each was compiled from.",
}
