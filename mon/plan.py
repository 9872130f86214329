"""Worlds, coverage rules and floors of each property."""
DEFAULT_CONFIG = {
    "on": "yes", "raise-errors": "yes", "print-passes": "no",
    "check-non-asta-types": "no", "check-all-sequence-elements": "yes",
}
NP = {"name": "numpy"}
TF = {"name": "tf", "frameworks": "tf"}
TORCH = {"name": "torch", "frameworks": "torch"}


def w(base, shards=1, **config):
    """A world: a base, a number of worker processes and configuration overrides."""
    d = dict(base)
    d["shards"] = shards
    if config:
        d["config"] = {k.replace("_", "-"): v for k, v in config.items()}
        d["name"] += "," + ",".join(f"{k}={v}" for k, v in sorted(d["config"].items()))
    return d


PLAN = {}


def prop(pid, worlds, rule, floor=None, **kw):
    PLAN[pid] = dict(worlds=worlds, rule=rule, floor=floor or {}, **kw)


prop("C01", [w(NP, 5), w(TF, 2)],
     "Random shape patterns (ints, -1, ...) derived from a shape and mutated, and mutated shapes; "
     "the verdict of isinstance is compared with an independent dynamic-programming matcher. "
     "Distinct non-trivial: distinct (framework, pattern, shape) with a non-empty pattern.",
     {"match": 500, "mismatch": 500, "ellipsis-pattern": 300, "zero-size": 100, "tf-checks": 200})

prop("C02", [w(NP, 3), w(TF, 2)],
     "The full matrix of dtype annotations x value dtypes in random spellings, each with a random "
     "shape pattern and value shape; verdicts compared with numpy/tf dtype equality or kind and "
     "the reference shape matcher. Distinct: (framework, dtype annotation, value dtype, pattern, shape).",
     {"match": 100, "mismatch": 1000, "no-dtype": 50})
prop("C03", [w(NP, 5), w(TF, 2)],
     "Random shapes mixing literals, -1, at most one ellipsis (12%: two) and polynomial expressions over 1-4 "
     "symbols, built from a hidden assignment and then perturbed; verdicts compared with an exact "
     "linear solver plus bounded search for positive-integer solutions. Cases neither provably "
     "solvable nor provably contradictory are counted as left-open. Distinct: (pattern, shape).",
     {"solvable": 300, "contradiction": 300, "with-ellipsis": 60, "known-finding-probes": 1})
prop("C04", [w(NP, 5), w(TF, 2)],
     "Random (dtype, shape, attributes) triples, each spelled as four or more random chains of "
     "subscripts (with parts overwritten on the way); all pairs compared by ==, hash, repr and "
     "isinstance on values near the shape, and against the reference shape model. Distinct: (triple, spellings).",
     {"match": 300, "mismatch": 300, "alias-extended": 200, "tensorshape": 5})
prop("C05", [w(NP, 5), w(TF, 2)],
     "Well-formed subscripts with one malformed element inserted at a random position, in either "
     "spelling, on bare and subscripted annotations, and the well-formed ones as controls. "
     "Distinct: (framework, kind, subscript).",
     {"accepted": 200, "refused-dots": 200, "refused-scalar": 200, "refused-bad": 500, "instantiations": 20})
prop("C06", [w(NP, 5), w(TF, 2)],
     "Pools of 15 annotations with many near-duplicates, used in between (hash, repr, isinstance, "
     "subscripts, typing generics); all pairs compared with the canonical (dtype, shape, "
     "attributes) key, plus dict, set and typing behaviour. Distinct: pools.",
     {"equal": 500, "different": 5000, "typing": 500, "across-frameworks": 20})
prop("C07", [w(NP, 6), w(TF, 2)],
     "Random functions (positional-only, ordinary, *args, keyword-only, **kwargs, defaults, return "
     "annotations; array annotations and shallow containers of them) called with values that match "
     "or were mutated in one place and with argument lists that may not fit; an undecorated twin "
     "gives Python's own binding, the reference model the verdict, the recorder the body's runs. "
     "Distinct: (function, verdict, argument values).",
     {"want-ok": 300, "want-args": 300, "want-ret": 100, "want-sig": 100, "kind-P": 50, "kind-V": 50,
      "kind-W": 50, "kind-K": 50, "unannotated": 20, "method-self": 20, "agree-True": 50, "agree-False": 50})
prop("C08", [w(NP, 5), w(TF, 1), w(NP, 1, print_passes="yes")],
     "Random functions called with matching arguments while a recorder in the body notes the call "
     "count, every argument's identity and the order of keywords; results and exceptions (including "
     "BaseExceptions and TypeErrors of the body) are compared by identity, metadata and signature "
     "with the original. Special bodies: generators, recursion, closures, mutation, nested raises. "
     "Distinct: (function, outcome kind, argument values).",
     {"returned": 300, "metadata": 300, "raised-TypeError": 10, "raised-KeyboardInterrupt": 5,
      "special-recursion": 2, "special-generator": 2})
prop("C09", [w(NP, 6), w(TF, 2)],
     "Random functions over 1-3 shared symbols, in leaves, containers, attributes and results; "
     "values built from a hidden assignment, then perturbed in one size; the reference solves the "
     "joint system of the whole call (linear exactly, nonlinear by bounded search; undecided "
     "systems are left open). Repeated, recursive and nested calls with other sizes. "
     "Distinct: (function, verdict, values).",
     {"consistent": 200, "cross-args": 100, "cross-ret": 30, "nested": 20})
prop("C10", [w(NP, 5), w(TF, 2)],
     "Random functions whose shapes are polynomial expressions (and quotients) over 1-3 dims "
     "placeholders and symbols; placeholders are set, reset through six routes (attribute, "
     "sys.modules, other modules, threads) or left unset between calls; the reference writes the "
     "current values into the pattern. Also storing and reading dims attributes. "
     "Distinct: (function, verdict, values in effect, arguments).",
     {"want-ok": 200, "want-args": 200, "want-ret": 50, "with-unset": 50, "set-by-thread": 50,
      "refused-values": 20, "plain": 20})
prop("C11", [w(NP, 5), w(TF, 2)],
     "Random functions whose shapes contain 1-3 shapes placeholders alone, unpacked, beside other "
     "dimensions and in sums (any association) with tuples of dimensions; placeholders set, reset "
     "through six routes or left unset between calls; the reference writes the stored tuples into "
     "the pattern. Also forms mixed with dims, and storing and reading shapes attributes. "
     "Distinct: (function, verdict, values in effect, arguments).",
     {"want-ok": 200, "want-args": 200, "want-ret": 50, "with-unset": 50, "item-cat": 100,
      "item-unp": 100, "item-ph": 100, "refused-values": 20, "mixed-left": 5})
prop("C12", [w(NP, 5), w(TF, 1), w(NP, 2, check_all_sequence_elements="no")],
     "Random container annotations (depth 1-3, typing and builtin spellings, class-syntax "
     "NamedTuples and TypedDicts with inheritance) and values that match or were changed in one "
     "place (element, length, key, container kind), as arguments and as results; one bad element "
     "in long containers. Also in a world with check-all-sequence-elements=no. "
     "Distinct: (annotation, value, verdict).",
     {"accept": 1000, "refuse": 1000, "kind-TupleNode": 50, "kind-DictNode": 50, "kind-NTNode": 30,
      "kind-TDNode": 30, "kind-SetNode": 30, "long-refuse": 50, "class-td-sub": 5})
prop("C13", [w(NP, 5), w(TF, 1), w(NP, 1, check_non_asta_types="yes")],
     "Unions and Optionals of 1-4 near-duplicate array annotations and containers, nested in "
     "containers and unions, with values that match, nearly match or are None; all orders of the "
     "alternatives; symbols shared with other parameters (reference: joint system per choice of "
     "alternatives; calls where the choices disagree are left open unless the sizes are known "
     "before the union). Distinct: (annotation, value, verdict).",
     {"accept": 500, "refuse": 300, "order": 300, "sizes-ok": 50, "sizes-args": 50,
      "some-alternatives-contradict": 20})
prop("C14", [w(NP, 3), w(NP, 3, check_non_asta_types="yes"), w(TF, 1, check_non_asta_types="yes")],
     "Random annotations of builtins, user, abstract, protocol and generic classes, Type, Callable, "
     "Literal, Any, TypeVar and containers and unions of them, against a pool of about 70 values "
     "and mutated matching values, with the option off (nothing refused but container kinds) and "
     "on (reference predicates from isinstance, issubclass, signature binding and equality). "
     "Distinct: (annotation, value, verdict).",
     {"accept": 1000, "refuse": 1000, "would-refuse-if-asked": 300, "refused-as-asked": 300, "mixed": 300})
prop("C15", [w(NP, 8)],
     "Random directory layouts (astarc, .astarc, pyproject.toml and setup.cfg with and without an "
     "asta section, parent packages, ASTARC, home files; section case, noise sections, comments, "
     "BOM), each used by a fresh forked process which imports asta, reports its options and what "
     "decorated functions do under them; compared with a model of the documented order. "
     "Distinct: (file in effect, its options).",
     {"file-None": 3, "file-astarc": 10, "file-.astarc": 10, "file-pyproject.toml": 10,
      "file-setup.cfg": 5, "file-ASTARC": 2})
prop("C16", [w(NP, 8)],
     "Fresh forked processes with on=yes/no/unset and any ASTA_TYPECHECK value at import run random "
     "histories of environment changes, decorations (functions, classmethod and staticmethod objects, "
     "classes with nested classes) and calls with matching and mismatching values; identity, "
     "attributes and calls of every object are checked against the state at its decoration. "
     "Distinct: (option, value at import, history statistics).",
     {"on": 200, "off": 300, "uses": 2000, "class-on": 20, "class-off": 20, "classmethod-off": 10})
prop("C17", [w(NP, 3, raise_errors="no"), w(NP, 2, raise_errors="no", print_passes="yes"),
             w(NP, 2, raise_errors="no", check_non_asta_types="yes"), w(TF, 1, raise_errors="no")],
     "Random functions with raise-errors=no (with and without print-passes and non-asta checks) "
     "called with matching, mismatching and hostile values, some with raising bodies and some "
     "depending on unset placeholders; the recorder decides the transparency, the reference which "
     "parameters the printed FAILED lines must name. Also values of the wrong container kind which "
     "notice being looked into, and methods. Distinct: (function, arguments, number of lines).",
     {"failing": 300, "passing": 150, "contradicting": 30, "unset-reported": 20,
      "container-wrong": 50, "method-calls": 100})
def e(base, **env):
    """A world with environment variables."""
    d = dict(base)
    d["env"] = env
    d["name"] += "," + ",".join(f"{k}={v}" for k, v in sorted(env.items()))
    return d


prop("C18", [w(NP, 2), w(NP, 2, print_passes="yes"), w(NP, 1, raise_errors="no"),
             w(NP, 1, raise_errors="no", print_passes="yes"), w(TF, 1, print_passes="yes"),
             w(NP, 1, on="no", print_passes="yes"), e(w(NP, 1, print_passes="yes"), ASTA_TYPECHECK="0"),
             w(NP, 1, on="no")],
     "Random functions called under every combination of print-passes, raise-errors and the "
     "switches, with all output captured; each line must be a header of the function, a FAILED line "
     "or a PASSED line matched one to one with the satisfied array annotations of the call (label "
     "with index or field path, annotation in effect, actual dtype and shape). Decorating, "
     "subscripting and isinstance must print nothing; nested calls. Distinct: (function, options, "
     "verdict, arguments).",
     {"satisfied": 500, "failing": 300, "passed-lines": 800, "off-calls": 500, "failing-passes": 30,
      "nested": 100, "quiet": 100})
prop("C19", [w(NP, 6), w(TF, 2)],
     "Random classes (instance, class, static, special, abstract and private methods with random "
     "signatures, nested classes, bases, and attributes of many other kinds), decorated once or "
     "twice; each method is called on instances, the class and subclasses and judged as in C07 with "
     "the recorder noting self or cls; every other attribute is compared by identity, the kinds, "
     "order, metadata and signatures with those before. Also classes written out by hand (super, "
     "__new__, metaclasses, dataclasses, slots, properties). Distinct: (kind, function, verdict, "
     "arguments).",
     {"method-instance": 300, "method-class": 100, "method-static": 100, "method-dunder": 100,
      "nested-methods": 150, "inherited-calls": 50, "special": 500, "attributes": 2000, "want-args": 200,
      "want-ok": 300})
prop("C20", [w(NP, 5), w(NP, 1, raise_errors="no"), w(TF, 1), w(NP, 1, check_non_asta_types="yes")],
     "Questions (isinstance checks, decorated calls, containers and unions, arrays reshaped in "
     "place, with symbols and placeholders) are answered first thing in a fresh process each, and "
     "repeatedly in random histories of other checks, calls (passing, failing, raising, nested in "
     "each other's bodies), decorations, subscripts, garbage collections and placeholder changes; "
     "all answers must agree. Distinct: questions.",
     {"asked": 5000, "partners": 500, "nested": 200, "noise": 1000, "answers-inside-calls": 200, "isinstance-True": 50,
      "isinstance-False": 50, "call-ok": 50, "call-TypeError": 50})
prop("C21", [w(NP, 5), w(NP, 1, raise_errors="no"), w(NP, 1, check_non_asta_types="yes"), w(TF, 1)],
     "2-8 threads ask random jobs (decorated calls with their own sizes, several per function, and "
     "isinstance checks on shared and fresh annotations) at the same time, with a switch interval of "
     "1-50 microseconds, yields injected at random lines of asta, bodies that sleep or ask other "
     "jobs; each answer (verdict, identity of the result, runs of the body, identity of the "
     "arguments seen) must be the one given alone, which the reference judges too. "
     "Distinct: interleavings of starts and ends of calls.",
     {"asked": 2000, "calls-started-while-others-ran": 1000, "thread-switches": 1000,
      "injected-yields": 1000, "nested": 50, "answer-True": 10, "answer-False": 10,
      "answer-result": 100, "answer-TypeError": 100})
prop("C22", [w(NP, 5), w(TF, 2), w(TORCH, 1)],
     "Random dictionaries of 0-4 required attributes (own, builtin, class, computed and missing "
     "ones; plain values of many types, falsy and equal-but-different ones, expressions over shared "
     "symbols) with random dtypes and shapes in any spelling; values with these attributes equal, "
     "changed or missing; isinstance and decorated calls (leaves, containers, Optionals, results) "
     "against the reference. Distinct: (annotation or function, values, verdict).",
     {"isinstance-True": 500, "isinstance-False": 500, "refused-for-attributes": 300, "want-ok": 300,
      "want-args": 300, "symbolic": 500, "attributes-4": 50})
prop("C23", [w(NP, 3), w(TORCH, 2), w(TF, 2), w({"name": "tf+torch", "frameworks": "tf+torch"}, 1)],
     "One world per set of installed frameworks (PyTorch as a stand-in module), absence made in two "
     "ways; fresh processes (in-process with TensorFlow) import asta in random ways and use missing "
     "annotations (subscripts, isinstance, printing, calls) and present ones (isinstance, calls, "
     "Scalar, printing; judged by the reference) in random order. Distinct: sessions.",
     {"missing-subscript": 200, "missing-isinstance": 200, "missing-repr": 100, "missing-call": 100,
      "present-isinstance-True": 200, "present-isinstance-False": 200, "present-call-ok": 200,
      "present-call-args": 100})
prop("C24", [w(NP, 4), w(TF, 2), w(TORCH, 1), w({"name": "tf+torch", "frameworks": "tf+torch"}, 1)],
     "Values of all scalar types with subclasses, enums and extreme values; containers, None, classes "
     "and hostile or array-like objects; arrays of every dtype, layout and subclass and tensors of "
     "every dtype, 0-dimensional, of size 1 and 0 and others, under every set of frameworks. "
     "Distinct: (type, dtype, shape or value).",
     {"array-True": 2000, "array-False": 2000, "subclass-True": 500, "object-False": 500,
      "container-False": 500, "TFTensor-True": 100, "TFTensor-False": 100, "Tensor-True": 100,
      "Tensor-False": 100, "bool-True": 500})
prop("C25", [w(NP, 5), w(TF, 2), w(TORCH, 1)],
     "Random functions over nested containers (literal, symbolic and placeholder shapes) called with "
     "matching values except for one array changed at a random place; the text of the TypeError must "
     "name that place and show expected and actual dtype and shape. Contradicting sizes over several "
     "arrays, shapes placeholders with changing values; printed forms of pools of near-duplicate "
     "annotations, pairwise. Distinct: (function, place, change) and annotations.",
     {"argument": 500, "result": 100, "array-actual": 500, "other-actual": 30, "dtype": 200,
      "placeholders": 300, "contradictions": 100, "printed": 1000, "pairs": 5000, "attributes": 20})
prop("C26", [w(NP, 4), w(NP, 1, raise_errors="no"), w(NP, 1, print_passes="yes", check_non_asta_types="yes"),
             w(TF, 1), w(TORCH, 1)],
     "Random functions and annotations over nested containers, called (passing, failing, raising) "
     "with arrays of varied layouts, writability and subclasses, defaultdicts lacking keys, one-shot "
     "iterators and user containers; every object inside the arguments and the result is compared "
     "before and after (contents, strides, flags, attributes, identity of elements, number of "
     "references), then dropped and must be reclaimed; repeated calls must leave the number of "
     "allocated blocks steady. Distinct: (function or annotation, values, outcome).",
     {"calls-passed": 300, "calls-TypeError": 300, "calls-raised": 30, "objects-compared": 3000,
      "reclaimed": 2000, "reclaimed-after-TypeError": 300, "isinstance-True": 300, "isinstance-False": 200,
      "repetitions": 2000, "threads": 20, "other-types": 20})
prop("C27", [w(TORCH, 8)],
     "The workloads and reference models of C01-C07, C09-C13, C22 and C25 over Tensor annotations and "
     "tensors of a stand-in torch module; and torch.Size as subscripts (with dtypes and attributes, in "
     "chains) and as stored placeholder values, Parameters, dtype aliases, and values that are no "
     "tensors. Distinct: as in those properties.",
     {"c01:match": 300, "c01:mismatch": 300, "c02:match": 150, "c02:mismatch": 2000, "c03:solvable": 100,
      "c03:contradiction": 100, "c04:alias-extended": 100, "c04:size": 10, "c05:refused-bad": 300,
      "c05:refused-dtype": 50, "c06:different": 500, "c07:want-ok": 100, "c07:want-args": 100,
      "c09:consistent": 50, "c10:want-ok": 50, "c10:want-args": 50, "c11:want-ok": 50, "c11:want-args": 50,
      "c12:accept": 200, "c12:refuse": 200, "c13:accept": 100, "c22:want-ok": 30, "size-True": 200,
      "size-False": 200, "stored-True": 200, "stored-False": 200, "others": 20})
prop("C28", [w(NP, 8)],
     "Fresh forked processes with random options and ASTA_TYPECHECK import asta in random ways (any of "
     "its modules first, from-imports), then import more of it, change the environment, decorate and "
     "subscript; everything written to standard output and error is judged. "
     "Distinct: (options, environment, what was imported).",
     {"warned": 200, "silent-on": 300, "silent-off": 300, "later-import": 500, "later-env": 200,
      "later-decorate": 200})
prop("C29", [w(NP, 5), w(NP, 1, raise_errors="no"), w(NP, 1, print_passes="yes", check_non_asta_types="yes"),
             w(TF, 1)],
     "Fresh forked processes with random settings of their own import asta; random functions are "
     "decorated and called (passing, failing, raising BaseExceptions), isinstance asked, malformed and "
     "well-formed annotations written and printed. Around each step a snapshot of the process is "
     "compared: environment, directory, files, paths, hooks, limits, streams, random states, numpy, "
     "sympy and decimal settings, warning filters, logging, locale, signals, threads, open files, "
     "garbage collector, modules and the names bound in them, builtins, and the decorated function. "
     "Distinct: (function, arguments, outcome) and imports.",
     {"imports": 300, "decorated": 500, "call-passed": 300, "call-TypeError": 100, "call-thrown": 20,
      "isinstance": 1000, "malformed": 500, "printed": 500})
prop("C30", [w(NP, 5), w(TF, 1), w(NP, 2, check_non_asta_types="yes")],
     "Random functions and methods in modules of their own, whose annotations (nested containers, unions, "
     "class-syntax NamedTuples and TypedDicts, aliases, some bound only after the decoration, some naming "
     "what does not exist) are written out in code, postponed or quoted wholly or in parts; matching and "
     "mutated values judged by the reference as in C07. Distinct: (function, verdict, arguments).",
     {"postponed-ok": 500, "postponed-args": 500, "quoted-ok": 500, "quoted-args": 500, "late-ok": 100,
      "late-args": 100, "unknown-ok": 30, "method-ok": 50, "method-args": 50, "class-ok": 50, "class-args": 50,
      "wrapped-ok": 50, "wrapped-args": 50, "postponed-ret": 50, "quoted-ret": 50})
