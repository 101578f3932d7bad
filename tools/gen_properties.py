"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

OPS = "effectful/ops/"
LLM = "effectful/handlers/llm/"

prop("C01", "Handlers installed by one thread never affect another thread",
 "Whatever handlers a thread installs, calls, forwards through or removes, every other thread's operations behave exactly as if that thread did not exist, at every interleaving, including the very first use of the library in the process and threads started inside a handler block. A thread's handlers stay in force for that thread until it leaves the block, no matter what other threads do meanwhile.",
 ["schedules", "programs"], "all interleavings (at instruction granularity) of any number of threads, each running any program of handler installation, operation calls, forwarding, term evaluation and block exits",
 "The test-suite is single-threaded: no test starts a second thread, so nothing observes the per-thread state, let alone a particular interleaving of the first use.",
 ["effectful/internals/runtime.py", OPS+"types.py", OPS+"semantics.py"],
 [("thread-local current interpretation", "effectful/internals/runtime.py: Runtime, get_runtime, interpreter"), ("dispatch reads the current interpretation", OPS+"types.py: Operation.__call__")],
 [("current interpretation", "mapping from operations to handlers of the running thread", "effectful/internals/runtime.py")],
 ["results and exceptions of operation calls in every thread"])

prop("C02", "Leaving a handler block, by any route, restores the previous handlers",
 "When a block (or decorated call, or explicit evaluation under an interpretation) that installs handlers ends, by falling through, by any exception including interrupts, raised anywhere by the code running inside it, every operation dispatches exactly as it did immediately before the block, and the exception that escapes is the one that was raised. The same holds for the library's own internal use of handlers while building, evaluating, typing or printing terms.",
 ["crash_points", "fault_sequences", "programs"], "any nesting of handler blocks and any point at which an exception (ordinary, BaseException such as an interrupt) is raised in user code, handlers, default rules or term construction",
 "The tests check a handful of ordinary exits and no BaseException, at no systematically chosen point.",
 ["effectful/internals/runtime.py", OPS+"semantics.py", OPS+"syntax.py", "effectful/internals/product_n.py"],
 [("save/restore in a finally block", "effectful/internals/runtime.py: interpreter"), ("handler = coproduct + interpreter", OPS+"semantics.py: handler")],
 [("current interpretation", "restored on exit", "effectful/internals/runtime.py")],
 ["operation calls after the block", "type and identity of the escaping exception"])

prop("C03", "Calls reach the innermost handler; forwarding walks outward to the default",
 "A call runs the innermost handler installed for that operation, forwarding runs the next enclosing one (with the current handler's arguments unless others are given) and finally the operation's own default behaviour, each exactly as often as it is asked for; operations with no handler go to the installed catch-all handler if there is one, else to their default. This holds for any composition of handlers, however deep the re-entrance, and regardless of exceptions raised and caught inside handlers or of other threads dispatching the same operations at the same time.",
 ["programs", "fault_sequences", "schedules"], "any stack of composed handlers, any pattern of nested calls, forwards, handler installation inside handlers, exceptions thrown and caught, thread interleavings",
 "Tests use a few fixed stacks of two or three handlers with no failing handler and no re-entrance through other operations.",
 [OPS+"types.py", OPS+"semantics.py", "effectful/internals/runtime.py"],
 [("dispatch", OPS+"types.py: Operation.__call__"), ("composition and fwd", OPS+"semantics.py: coproduct, fwd"), ("argument and prompt passing", "effectful/internals/runtime.py: _set_prompt, _save_args, _restore_args")],
 [], ["sequence of handler invocations, their arguments and results"])

prop("C04", "Operations accessed through an object or class keep one identity",
 "Accessing an operation (or prompt template) as an attribute of an instance, or a class-level one of a class, always gives the same operation object for that instance or class and a different one for any other, so that a handler installed for it applies to exactly that instance or class; this includes accesses racing from several threads, where every thread must get the same, completely initialised operation.",
 ["schedules", "programs"], "all interleavings of first and later accesses and calls from several threads on several instances and classes",
 "Tests access attributes from one thread, where the check-then-create window cannot be hit.",
 [OPS+"types.py", LLM+"template.py"],
 [("bound-operation cache", OPS+"types.py: Operation.__get__, _ClassMethodOpDescriptor.__get__"), ("bound templates and agent state", LLM+"template.py: Template.__get__, Agent.__init_subclass__")],
 [("bound operation cache", "operation per (instance, attribute)", OPS+"types.py")],
 ["identity of the accessed operation", "which calls an instance-specific handler sees"])

prop("C05", "Concurrent first use of a type or function agrees with sequential use",
 "When several threads are the first to use a dataclass in symbolic terms, an array function of the wrapped numerical libraries, or a named index, they all succeed, all see the one operation or term type that a single thread would have created, and later uses agree with it. A handler or binding for that operation applies to the terms built by every thread.",
 ["schedules"], "all interleavings of first use by several threads, followed by any later use",
 "Each registry entry is created once per process by a single thread in the tests.",
 [OPS+"syntax.py", "effectful/handlers/torch.py", "effectful/handlers/jax/_handlers.py", "effectful/handlers/indexed.py", "effectful/handlers/pyro.py"],
 [("on-demand term class for dataclasses", OPS+"syntax.py: _construct_dataclass_term"), ("cached wrapper per array function", "effectful/handlers/torch.py: _register_torch_op; effectful/handlers/jax/_handlers.py: _register_jax_op"), ("cached symbol per name", "effectful/handlers/indexed.py: name_to_sym")],
 [], ["identity of operations in the terms, results of evaluating them"])

prop("C06", "Handler classes implement exactly what they declare and inherit",
 "A class of handlers implements the operations its own body declares plus those of its bases, with its own declarations and nearer bases taking precedence, and nothing else: class definitions that fail midway, are nested, or run at the same time in other threads neither add to it nor take from it. Every instance dispatches to its own state.",
 ["schedules", "crash_points", "programs"], "any set of class definitions with any inheritance, failing at any point, nested or interleaved across threads in any way",
 "Tests define a few classes sequentially and successfully.",
 [OPS+"syntax.py"],
 [("collection of implementations at class creation", OPS+"syntax.py: ObjectInterpretation.__init_subclass__, _ImplementedOperation.__set_name__")],
 [("pending implementations", "declarations seen before the class exists", OPS+"syntax.py: _temporary_implementations")],
 ["keys of the instance viewed as a mapping", "which method handles an operation"])

prop("C07", "Building and evaluating terms is repeatable and thread-independent",
 "Building, renaming, evaluating, typing, comparing or printing a symbolic term gives the same result (up to the choice of bound names) whether done alone, repeatedly, after an attempt that failed part-way, or at the same time in other threads, and never changes the term it was given. Variables bound inside a term stay distinct from every other variable, so substitution never captures. Arguments keep their kind and contents (numbers and the operators on them, lists, tuples, named tuples, dicts, counters, sets, ranges, dataclasses, nested in each other), with the variables inside them substituted, and evaluating a term whose operations are all handled gives what the same program gives when run directly.",
 ["schedules", "fault_sequences", "programs"], "any term, any interpretation that may fail at any of its operations, any interleaving with other threads evaluating the same terms",
 "Tests evaluate each term once, in one thread, with interpretations that do not fail.",
 [OPS+"syntax.py", OPS+"semantics.py", "effectful/internals/product_n.py", "effectful/internals/unification.py"],
 [("term construction with renaming and typing", OPS+"syntax.py: defdata"), ("evaluation", OPS+"semantics.py: evaluate, fvsof, typeof")],
 [], ["result of evaluation", "structure of the input term afterwards", "free variables"])

prop("C08", "Combined analyses give what each gives alone, each step computed at most once",
 "Running several named analyses together over a computation gives each of them the result it would compute running alone (rules written in terms of the analyses' own operations, the operations' defaults, and each other's results and arguments), computes each analysis of each step at most once however often its result is requested, and only when it is requested, that is, read or passed to a later step. An analysis that fails reports its own exception and neither corrupts the others nor, once the cause is gone, its own later results. Computations in several threads may share the combined analyses.",
 ["programs", "fault_sequences", "schedules"], "any set of analyses and any computation, with any analysis failing at any step, from several threads",
 "Tests run two fixed analyses that never fail.",
 ["effectful/internals/product_n.py"],
 [("isolated renamed interpretations and call-by-need results", "effectful/internals/product_n.py: productN, CallByNeed")],
 [], ["result per analysis", "number of times each rule ran"])

prop("T01", "Named-dimension array computations agree with the plain library on every slice",
 "A computation on arrays with named dimensions (indexing by names next to integers, slices, lists, arrays, None or an ellipsis; array functions and methods; binding and unbinding dimensions; substituting for a name or for a free array variable), including functions transformed by grad, jacfwd, jacrev, hessian, jvp, vjp, vmap (torch) or jit (jax, on arguments without names), gives, at every assignment of the names, what the plain library gives on that slice, with exactly the names of its arguments and of the arrays it uses. This holds on every call of a transformed function whatever it was called with before (other names, shapes or structures), after calls that failed inside the function, whatever the order of the named dimensions of the arguments, when transformed functions are nested, and when several threads use the same transformed function.",
 ["histories", "schedules", "fault_sequences", "programs"], "any history of calls of any transformed functions, failing at any point inside, from several threads",
 "Tests call each transformed function once, with one argument, in one thread.",
 ["effectful/handlers/torch.py", "effectful/handlers/jax/_handlers.py"],
 [("names of a result carried around the transform", "effectful/handlers/torch.py: _indexed_func_wrapper, vjp; effectful/handlers/jax/_handlers.py: _indexed_func_wrapper, jit"), ("vectorised evaluation over the named dimensions", "effectful/handlers/torch.py: _partial_eval, bind_dims, sizesof; effectful/handlers/jax/_handlers.py: the same")],
 [("names of the last result", "what deindexed stripped and reindex restores", "effectful/handlers/torch.py: _indexed_func_wrapper")], ["values and names of the results"])

prop("T02", "Named distributions behave as the plain distribution on every slice",
 "A distribution of Pyro or NumPyro whose parameters have named dimensions is, at every assignment of the names, the plain distribution with the parameters of that slice: log probabilities of values (with or without names, with sample dimensions, of lower rank), means and variances agree with it on every slice; its batch and event shapes are those of the slice; samples have the names of the parameters and the shape of the slice, are possible outcomes of the slice's distribution, and are drawn independently where the sampler draws per slice. Binding names makes them leading batch dimensions in the order given, unbinding (also of a plain distribution) makes leading dimensions names, and substituting for a name selects the slice or renames; none of them changes parameters or their kinds, also through wrappers such as Independent, masked and folded distributions. This holds for distributions used before, in other threads, and after an exception in the middle of evaluating one.",
 ["histories", "schedules", "fault_sequences", "programs"], "any distribution supported by the handlers, any placement of names, batch dimensions and values, any history of uses from several threads",
 "Tests use fixed distributions with names on every parameter and compare bound results once; the NumPyro tests partly fail on the pinned versions.",
 ["effectful/handlers/pyro.py", "effectful/handlers/numpyro.py", "effectful/handlers/torch.py", "effectful/handlers/jax/_handlers.py"],
 [("distributions as terms", "effectful/handlers/pyro.py: _DistributionTerm, evaluate registrations, _bind_dims_distribution, _unbind_dims_distribution; effectful/handlers/numpyro.py: the same")],
 [], ["log probabilities, moments, shapes and samples of distributions"])

prop("T03", "Pyro models with named dimensions agree with the plain model on every slice",
 "A Pyro model run under the PyroShim performs the pyro_sample effect exactly once per sample statement, in order, with handlers that may change, replace, observe or fail it; when its distributions, observations, conditioned or replayed values, or masks have named dimensions, every site is the plain site at every assignment of the names: the value the model sees and the one recorded have exactly the names of its distribution and observation and the shape of the slice (observed values and replayed ones unchanged, fresh ones independent per slice), the recorded log probability at each assignment is the plain log probability under the plates, scales and masks around the statement, and each name of the distribution is recorded as an independent dimension of its size. What the model sees goes on to later sites with its names. This holds for any history of runs, with shims used again or nested, as context manager, decorator or module, and after runs that failed at any point; outside of a shim Pyro behaves as without the library.",
 ["histories", "fault_sequences", "programs"], "any model of sample statements, any placement of names, batch dimensions, plates, masks, scales and observations, any history of runs and failures",
 "Tests run a few fixed models once and look at shapes and the names of single sites.",
 ["effectful/handlers/pyro.py"],
 [("one effect per sample statement, once per site", "effectful/handlers/pyro.py: PyroShim._pyro_sample, pyro_sample"), ("names as dimensions inside Pyro, names again outside", "effectful/handlers/pyro.py: Naming, PyroShim._pyro_sample, _pyro_post_sample")],
 [("names of the site being processed", "per message; must not leak to other sites or runs", "effectful/handlers/pyro.py: PyroShim")], ["returned values", "trace nodes", "effects performed"])

prop("L01", "A model call either adds its whole exchange to the agent's memory or nothing",
 "When an agent's outermost call to the model returns, the agent's memory is the memory before the call followed by that call's complete exchange (a call made from inside another call's tool is part of that tool's answer and is not remembered separately); when the call fails or is interrupted at any point (request, decoding, tool, retry wait), its memory is exactly what it was before. Memories of different agents never mix, and earlier messages are never changed, dropped or reordered.",
 ["crash_points", "fault_sequences", "histories"], "any history of calls on any number of agents, with any provider error, undecodable reply, tool failure or interrupt at any point of any call",
 "Tests inject at most one scripted failure in a fixed dialogue and never interrupt a call.",
 [LLM+"completions.py", LLM+"template.py"],
 [("working copy and commit at the end of the outermost call", LLM+"completions.py: LiteLLMProvider._call"), ("per-agent message store", LLM+"template.py: Agent")],
 [("agent message history", "ordered messages of finished calls", LLM+"template.py: Agent.__history__")],
 ["the agent's history after every call", "messages of the next request"])

prop("L02", "Every request sent to the model is a well-formed conversation",
 "Every request starts with exactly one system message, contains every message of the conversation so far exactly once and in order, has pairwise distinct message identities even if the clock stands still or contents repeat, and answers every tool call made by an assistant message exactly once before the next assistant message is requested. This holds after retries, tool failures and earlier failed calls as well.",
 ["histories", "fault_sequences"], "any dialogue history with any mix of malformed replies, several tool calls per reply, tool failures, retries and clock behaviour",
 "Tests assert on a few messages of fixed dialogues; none has a partly undecodable reply with several tool calls or a stuck clock.",
 [LLM+"completions.py"],
 [("history threading and message identities", LLM+"completions.py: append_message, _make_message, call_assistant, call_tool, call_user, call_system"), ("retry feedback", LLM+"completions.py: RetryLLMHandler")],
 [], ["messages argument of each provider request"])

prop("L03", "Undecodable replies are retried within the limit, with feedback, without a trace",
 "A reply that cannot be decoded is retried at most as often as configured, each retry shows the model the rejected reply together with the error (and the traceback if asked for), nothing but decoding failures is retried, and after success no rejected reply or feedback remains in the conversation. If the limit is reached the last decoding error is raised; waits between attempts follow the configured policy, so once replies become decodable the call finishes within that bound.",
 ["fault_sequences", "histories", "configurations"], "any sequence of decodable and undecodable replies, provider errors and interrupts, and any retry limit and wait policy",
 "Tests script one or two malformed replies with the default policy.",
 [LLM+"completions.py"],
 [("retry loop", LLM+"completions.py: RetryLLMHandler._call_assistant, _before_sleep"), ("feedback messages", LLM+"completions.py: ToolCallDecodingError, ResultDecodingError")],
 [], ["number of requests, messages of each request, exception, simulated waiting time"])

prop("L04", "Each decoded tool call runs exactly once, in order, and is answered",
 "Tool calls of an accepted reply run exactly once each, in the order given, with the decoded arguments, and their encoded results or errors are given back under the right call identity; no tool of a rejected reply runs. A tool failure of a kind configured to be caught is reported to the model and the conversation continues; any other failure ends the call with that failure, and no later tool of the reply runs.",
 ["histories", "fault_sequences", "configurations"], "any batch of tool calls with any of them undecodable or failing with any exception type, under any catch configuration and retry history",
 "Tests run at most one or two tool calls per reply and one failing tool.",
 [LLM+"completions.py", LLM+"encoding.py"],
 [("tool loop", LLM+"completions.py: LiteLLMProvider._call, call_tool, RetryLLMHandler._call_tool"), ("tool call decoding", LLM+"encoding.py: _validate_tool_call")],
 [], ["executions of user tools with arguments", "tool messages in later requests"])

prop("L05", "A call returns exactly what the accepted final reply says, or raises",
 "The value a prompt template returns is the decoding of the last reply of its own exchange at its declared return type, and the messages the model saw are exactly the prompt, the replies and the tool answers of that exchange on top of the agent's memory. A reply that is empty, or that is not a complete, valid encoding of the declared return type, is never turned into a value.",
 ["fault_sequences", "inputs", "histories"], "any sequence of replies including truncated, malformed, wrongly typed, empty or missing contents, for any declared return type",
 "Tests decode a few fixed well-formed replies and a couple of malformed ones.",
 [LLM+"completions.py", LLM+"encoding.py"],
 [("decode against the declared type", LLM+"completions.py: call_assistant"), ("type-directed encodings", LLM+"encoding.py")],
 [], ["returned value", "exception", "content of the messages in each request"])

prop("L06", "Model calls in different threads do not affect each other",
 "Threads calling prompt templates at the same time through shared providers, retry handlers, tools and template definitions, each with its own agents, get the results, requests, retries and agent memories they would get running one after the other, at every interleaving.",
 ["schedules", "fault_sequences"], "all interleavings of several threads' calls, with replies delayed, malformed or failing in any of them",
 "No test calls templates from more than one thread.",
 [LLM+"completions.py", LLM+"template.py", "effectful/internals/runtime.py"],
 [("per-call state held in handlers", LLM+"completions.py: LiteLLMProvider._call, RetryLLMHandler, PythonRepl"), ("thread-local interpretation", "effectful/internals/runtime.py")],
 [], ["per-thread request sequences, results and histories"])

prop("L07", "A call made from inside a tool is isolated from the call that caused it",
 "When a tool run for one model call itself calls the model, the inner call sees only its own agent's remembered messages and its own prompt, the outer exchange contains the inner call only as that tool's answer, and code sessions of the two are separate. A failing or retried inner call leaves the outer exchange and the memories of both agents as if it had simply been a failing tool.",
 ["programs", "fault_sequences", "histories"], "any nesting of templates called as tools or from tools, with failures at any depth",
 "One test nests templates one level deep, successfully.",
 [LLM+"completions.py"],
 [("fresh message history per call; only the outermost call commits", LLM+"completions.py: LiteLLMProvider._call"), ("session per template call", LLM+"completions.py: PythonRepl")],
 [], ["messages of inner and outer requests", "histories after the outermost call"])

prop("L08", "The model's Python session behaves like one persistent interpreter per call",
 "Within one model call, code the model runs sees every binding, rebinding and deletion made by earlier snippets, including those made before a snippet failed, under either evaluation provider; each run returns exactly the output and errors that snippet produced. Nothing a session binds or prints leaks into the surrounding program, into another call's session, or into another thread.",
 ["histories", "fault_sequences", "schedules"], "any sequence of snippets, failing at any point with any exception, under each evaluation provider, nested and concurrent",
 "Tests run a few successful snippets, one raising snippet, and no concurrent sessions.",
 [LLM+"evaluation.py", LLM+"completions.py"],
 [("persistent session", LLM+"evaluation.py: ReplSession"), ("execution providers", LLM+"evaluation.py: UnsafeEvalProvider.exec, RestrictedEvalProvider.exec"), ("session lifetime", LLM+"completions.py: PythonRepl")],
 [("session namespace", "bindings accumulated by snippets", LLM+"evaluation.py: ReplSession.locals")],
 ["tool answers of code runs", "surrounding namespace and output streams"])

prop("L09", "Generated code is accepted only after the type checker really approved it",
 "Code the model writes as the result of a call, or as a snippet for the session of a call, is compiled and run only if the external type checker ran to completion on it and reported no error in it; if the checker cannot be started, crashes, is killed, cannot use the disk, or prints something unusable, the code is rejected with an error and not run. Errors that the checker reports elsewhere (the surrounding module, other files, earlier snippets) do not reject good code. Temporary files of a check are removed however the check ends. (Functions passed as arguments to tools, and templates whose source is not available, are not checked by design.)",
 ["fault_sequences", "crash_points"], "any failure of the checker process (exit status, signal, output), of the temporary directory or of the file being written, at any of the steps",
 "Tests run the real checker on good and bad code and never make the checker or the disk fail.",
 [LLM+"evaluation.py", LLM+"encoding.py"],
 [("region check around a subprocess", LLM+"evaluation.py: _mypy_check_region"), ("gate before compile and exec", LLM+"encoding.py: _pydantic_callable, code decoding")],
 [], ["whether generated code ran", "exception", "files left in the temporary directory"])

prop("L10", "Each generated function keeps its own source text",
 "For every function or snippet the model ever produced in the process, the source shown for it (for inspection, error reports, re-encoding it for the model, or checking later code against it) is the source it was compiled from, no matter how many others were generated, rejected or discarded before or after, or concurrently.",
 ["histories", "schedules"], "any history of generated functions, including ones discarded and garbage-collected, in any interleaving",
 "Tests generate a few functions that all stay alive, so recycled identities never occur.",
 [LLM+"encoding.py", LLM+"evaluation.py"],
 [("one synthetic file name per generated module", LLM+"encoding.py: _pydantic_callable, code decoding"), ("source registered for inspection", LLM+"evaluation.py: parse")],
 [], ["inspected source of earlier functions", "re-encoded functions in requests"])

prop("L11", "Every request offers exactly the tools in scope, and a pick runs that tool",
 "Every request of a call offers the model exactly the tools and templates visible at that time in the scope of the template being called (its arguments, enclosing functions, module; inner names hide outer ones) and on the agents visible there, each exactly once, without the template itself unless it is marked recursive; with readers of variables installed, also each readable variable visible there, once. When the model calls an offered name, that very tool runs, on that agent, or that variable's value at the request is returned. This holds whatever was defined, rebound or deleted before, between or during calls, in the model's own session, after failed calls, and with calls in other threads; listing a template's tools changes nothing.",
 ["histories", "programs", "fault_sequences", "schedules"], "any program of definitions, nested functions, classes, aliases and shadowing, any history of rebinding and calls that succeed or fail, any picks of the model, any interleaving of threads",
 "Tests list the tools of a few fixed templates once; none rebinds a name between or during calls, aliases a tool while variables are readable, or compares what the requests themselves offer.",
 [LLM+"completions.py", LLM+"template.py", LLM+"evaluation.py"],
 [("tools collected for each request", LLM+"completions.py: collect_tools, LexicalReaders, PythonRepl, call_assistant"), ("lexical context captured at definition", LLM+"template.py: Template.define, Template.tools")],
 [("template context", "the layers of names visible to a template", LLM+"template.py: Template.__context__")],
 ["tools of every request", "which tool ran, on which object", "tool answers", "Template.tools"])

prop("P01", "Inferred types are sound for every signature and argument",
 "The type computed for an expression is a supertype of the type of every value it can evaluate to, and inference gives the same answer for any consistent renaming of type variables.",
 ["inputs"], "all signatures and argument types", "Only sampled signatures are tested.",
 ["effectful/internals/unification.py"], [("unification", "effectful/internals/unification.py: unify, substitute, nested_type")])
prop("P02", "Structural equality of terms is an equivalence and respects bound names",
 "Structural comparison of terms is reflexive, symmetric and transitive, and identifies exactly the terms that differ only in structure-preserving ways.",
 ["inputs"], "all terms", "Only sampled terms are compared.",
 [OPS+"syntax.py"], [("comparison", OPS+"syntax.py: syntactic_eq")])
prop("P03", "Encoding a value for the model and decoding it back returns the value",
 "For every supported type, decoding the encoding of a value gives an equal value, and encodings conform to the published schema.",
 ["inputs"], "all supported types and values", "Only sampled values are round-tripped.",
 [LLM+"encoding.py"], [("type-directed encodings", LLM+"encoding.py")])
prop("P04", "Named-dimension arrays compute what positional arrays compute",
 "Every array operation on arrays with named dimensions equals the corresponding positional computation after binding the names to dimensions.",
 ["inputs"], "all array operations, shapes and names", "Only sampled shapes are tested.",
 ["effectful/handlers/torch.py", "effectful/handlers/jax/_handlers.py", "effectful/handlers/indexed.py"], [("partial evaluation over named dimensions", "effectful/handlers/torch.py: _partial_eval")])
prop("P05", "Wrapped distributions keep their meaning when dimensions are named or bound",
 "Naming and binding dimensions of a distribution commutes with computing its log-density, moments and shapes.",
 ["inputs"], "all distributions, parameters and names", "Only sampled distributions are tested.",
 ["effectful/handlers/pyro.py", "effectful/handlers/numpyro.py"], [("bind/unbind of distributions", "effectful/handlers/pyro.py: _bind_dims_distribution")])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
