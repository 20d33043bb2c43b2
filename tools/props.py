"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import registry  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)


COLL = "expression/collections/"
CORE = "expression/core/"

prop("C01", "Option operations act only on the case that is present",
     "For every Option, each operation calls the supplied function only in the case it is meant for, exactly once and with exactly the contained value, "
     "and every other case passes through unchanged. Present values that are falsy (None, 0, empty) are still present, and an exception raised by a supplied function reaches the caller. "
     "The method form and the function form of an operation give the same result and the same calls.",
     ["inputs", "programs"], "all Options (every contained value, falsy ones included), all supplied functions (pure, effectful or raising)",
     "tests sample a few contained values and pure lambdas; they rarely use falsy values, count calls, or use raising callbacks, and hardly ever compare the two call forms",
     [CORE + "option.py"], [("case dispatch of each combinator", CORE + "option.py:Option"), ("function forms", CORE + "option.py (module functions)")])

prop("C02", "Result and Try stay on the success or error track",
     "For every Result, success combinators run only on Ok and error combinators only on Error, each exactly once with the contained value, and the other track's value is handed on unchanged (same value, same case). "
     "Default and fallback functions are evaluated only when needed, falsy payloads are treated like any other payload, and exceptions of supplied functions reach the caller. "
     "Method form, function form and Try alias agree.",
     ["inputs", "programs"], "all Results/Trys with any payloads and any supplied functions",
     "tests check one payload per case with pure functions; they do not show that the error payload is never replaced, that a callback is never called twice, or that fallbacks stay lazy",
     [CORE + "result.py", CORE + "try_.py"], [("case dispatch of each combinator", CORE + "result.py:Result"), ("Try constructors", CORE + "try_.py")])

prop("C03", "Conversions between containers keep the value and the case",
     "Converting between Option, Result, optional values, sequences and lists keeps the contained value and the case: Some and Ok correspond, Nothing becomes the supplied error, and converting back gives the original. "
     "Only None is treated as absent when converting from an optional value, and error suppliers are called only when an error is needed.",
     ["inputs", "programs"], "all contained values, errors and error suppliers",
     "tests convert one sample value in each direction; falsy values, lazily supplied errors and round trips are not covered for every conversion",
     [CORE + "option.py", CORE + "result.py", COLL + "seq.py", COLL + "block.py"],
     [("to_result/of_result/of_optional/to_optional", CORE + "option.py"), ("to_option/of_option", CORE + "result.py")])

prop("C05", "Currying and flipping deliver every argument exactly once, in order",
     "Calling a curried function with its leading arguments one at a time and then the remaining positional and keyword arguments calls the underlying function exactly once with exactly those arguments in the original order, and returns (or raises) what it returns (or raises). "
     "Every intermediate function can be reused any number of times without the calls influencing each other. Flipping swaps the argument order and nothing else; identity returns its argument.",
     ["inputs", "programs"], "all functions, all argument tuples and keyword arguments, all ways of splitting and reusing partial applications",
     "tests curry a handful of lambdas with sample numbers; they do not reuse partial applications, mix keywords with late arguments, or use functions that raise",
     [CORE + "curry.py", CORE + "fn.py", CORE + "misc.py"], [("argument accumulation", CORE + "curry.py:_curry"), ("flip", CORE + "misc.py")])

prop("C06", "Pipelines apply each function once, left to right",
     "A pipeline or composition applied to its inputs runs each function exactly once, left to right, feeding each result unchanged to the next (multi-value pipelines deliver all values to the first function), and yields the last result. "
     "An empty pipeline returns its input, and the first exception stops the pipeline and reaches the caller with no later function run.",
     ["inputs", "programs"], "every number of stages, all stage functions, all inputs",
     "tests build pipelines of a few fixed lengths with pure functions; arbitrary length, falsy intermediate values, call counts and raising stages are not covered",
     [CORE + "compose.py", CORE + "pipe.py"], [("compose", CORE + "compose.py:compose"), ("pipe/pipe2/pipe3/starpipe", CORE + "pipe.py")])

prop("C07", "Computation blocks stop at the first failure and never resume",
     "An option, result or sequence computation block evaluates its steps in order, sends each successful step's value back unchanged, and at the first Nothing/Error yields exactly that outcome without running any later step. "
     "The final value is the returned value wrapped as a success (or the delegated computation's outcome), and exceptions of the body or of a caller's function propagate unchanged and are never turned into a result.",
     ["programs", "inputs"], "every computation body (any number and order of steps, any step outcome, any exception) and all arguments",
     "tests run small fixed blocks; they do not cover failures at every step position, falsy values sent back, re-running a decorated function, or foreign exceptions of every kind",
     [CORE + "builder.py", "expression/effect/option.py", "expression/effect/result.py", "expression/effect/seq.py"],
     [("generator stepping", CORE + "builder.py:Builder._send"), ("case dispatch of bind/return", "expression/effect/option.py, result.py, seq.py")])

prop("C08", "Asynchronous computation blocks behave like the synchronous ones",
     "An asynchronous option or result block awaits its steps one after the other, sends each successful value back unchanged, stops at the first failure with exactly that outcome and runs no later step. "
     "Awaitable and plain steps are treated alike where both are accepted, every awaitable is awaited at most once, and exceptions (including cancellation) propagate.",
     ["programs", "inputs", "schedules"], "every asynchronous computation body, every step outcome and every suspension pattern of the awaited steps",
     "tests run a few blocks whose steps complete at once; failures at every position, exceptions and cancellation while suspended are not explored",
     [CORE + "async_builder.py", "expression/effect/async_option.py", "expression/effect/async_result.py"],
     [("asynchronous generator stepping", CORE + "async_builder.py:AsyncBuilder._send")])

prop("C09", "A tagged union value has exactly one case and cannot change",
     "Constructing a tagged union value requires exactly one declared case and yields a value whose tag is that case and whose payload is the given value; anything else is rejected. "
     "Frozen unions reject assigning or deleting the tag or any case after construction; equality, hash and ordering are determined by the case and its payload (cases ordered as declared), and copies and pickled copies equal the original, a deep copy sharing what is copied with it.",
     ["inputs", "programs"], "all tagged union declarations (any cases, frozen or not, ordered or not), all payloads (falsy ones included), all attribute operations",
     "tests declare a few unions with sample payloads; falsy payloads, many cases, deletion and copying for arbitrary declarations are not covered",
     [CORE + "tagged_union.py"], [("generated __init__/__setattr__/__delattr__/__eq__/__hash__/__lt__", CORE + "tagged_union.py:tagged_union")])

prop("C10", "Persistent values are never modified and never alias mutable inputs",
     "No operation on an Option, Result, Block, Map, Seq or Parser changes the value it is called on, its arguments (other than the list Map.try_get_value is asked to fill), or any value obtained earlier, and no two values share storage that a later operation changes. "
     "Collections built from mutable inputs keep their own contents when the input is changed afterwards (except the lazily evaluated sequences, which are documented as views).",
     ["histories", "inputs"], "all sequences of operations on all values derived from one another",
     "tests look at the result of an operation and hardly ever re-inspect the operands; no finite set of histories shows that nothing is shared and then changed",
     [COLL + "block.py", COLL + "map.py", COLL + "maptree.py", COLL + "seq.py", CORE + "option.py", CORE + "result.py", "expression/extra/parser.py"],
     [("values stored only at construction", "constructors of the collection classes"), ("persistent nodes", COLL + "maptree.py:MapTreeLeaf/MapTreeNode")])

prop("C11", "A Map behaves as a finite mapping with one entry per key",
     "After any sequence of adds, removes and changes, looking up a key gives the value of the latest operation on that key and operations on other keys leave it alone; a removed key is absent, and a missing key gives Nothing (or KeyError where documented). "
     "Building from pairs keeps the last value of a repeated key, and size, membership, indexing and iteration all describe the same entries. Falsy and None values are ordinary values.",
     ["inputs", "histories"], "all totally ordered keys, all values, all operation sequences",
     "property-based tests sample small maps of integers; they do not reach every tree shape, every deletion position or falsy values",
     [COLL + "map.py", COLL + "maptree.py"], [("search path comparison", COLL + "maptree.py:add/remove/change/try_find"), ("public interface", COLL + "map.py:Map")],
     state=[("tree", "binary search tree of the entries", COLL + "maptree.py")])

prop("C12", "A Map's tree stays ordered and height-balanced",
     "Every tree built by any sequence of operations is a search tree (all keys left of a node are smaller, all keys right are larger) with correct recorded heights whose two sides differ in height by at most the fixed tolerance at every node, so that lookups take logarithmic time. "
     "Rebalancing never loses, duplicates or reorders entries and never fails on a tree the library built.",
     ["histories", "inputs"], "all operation sequences on all totally ordered keys; every reachable tree shape",
     "the internal shape is not visible to the tests, which only sample small random maps",
     [COLL + "maptree.py"], [("mk / rebalance", COLL + "maptree.py:rebalance"), ("height bookkeeping", COLL + "maptree.py:mk,height")])

prop("C13", "Map traversals visit every entry once in ascending key order",
     "Iterating, folding, mapping, filtering, partitioning, searching and converting a Map visit its entries exactly once, in ascending key order (descending for backward folds and partitioning), passing key and value to the supplied function in the documented order, and keep exactly the entries the function selects. "
     "Searches and quantifiers stop at the first entry that decides the answer.",
     ["inputs", "histories"], "all maps, all supplied functions (effectful or raising included)",
     "tests use commutative folds and small maps, which hide order mistakes, double visits and missing early stops",
     [COLL + "map.py", COLL + "maptree.py"], [("recursive in-order traversal", COLL + "maptree.py:fold/fold_back/iterate/map/mapi/filter/partition/exists/for_all/try_pick/try_find_key")])

prop("C14", "Long inputs never exhaust the call stack",
     "No operation uses stack space that grows with the number of elements, stages, iterations or repetitions it processes: recursion is bounded by the height of a balanced tree or by the nesting of a user-written grammar, and everything else runs in loops. "
     "Tail-recursive functions run in constant stack space for any number of steps, making exactly the calls the plain recursion would make.",
     ["inputs", "programs"], "inputs of every size",
     "tests use short inputs; the growth of the stack with input size is invisible at those sizes",
     ["expression/collections", "expression/core", "expression/extra"], [("trampoline", CORE + "fn.py:tailrec/tailrec_async"), ("loops over elements", COLL)])

prop("C15", "Block operations have list semantics",
     "Every Block operation returns exactly what the corresponding operation on an ordinary immutable list would: same elements, same order, same length, none dropped or duplicated, for every size including empty and single-element blocks and for falsy elements. "
     "Supplied functions are called once per element they are needed for, in order; searching operations stop early, and impossible requests raise or return Nothing as documented. Method and function forms agree.",
     ["inputs", "programs"], "all blocks of any length and content, all supplied functions",
     "property-based tests compare a few operations on small integer lists; effects, raising callbacks, boundary indices and the function forms are mostly unsampled",
     [COLL + "block.py"], [("operations of Block", COLL + "block.py:Block"), ("function forms", COLL + "block.py")])

prop("C16", "Seq operations are lazy, re-iterable and have iterator semantics",
     "Every sequence operation yields exactly the elements the corresponding list operation would, in order, and demands from its source only what is needed for the elements taken from it; nothing is evaluated before iteration starts. "
     "Iterating a result twice gives the same elements when the source allows it, supplied functions run once per element per iteration in order, and errors reach the consumer at the element where they occur. Method and function forms agree.",
     ["inputs", "programs"], "all sources (finite, infinite, re-iterable), all consumers (stopping anywhere), all supplied functions",
     "tests consume small finite sequences completely and once; demand, early stopping, second iteration and effect order are not observed",
     [COLL + "seq.py"], [("lazy generators", COLL + "seq.py"), ("re-iterable wrapper", COLL + "seq.py:SeqGen")])

prop("C17", "Asynchronous sequences deliver each element once, in order, on demand",
     "Asynchronous sequence operations yield exactly the selected or transformed elements of their source, once and in order, pull from the source only as much as needed, and pass the source's and the supplied functions' exceptions on to the consumer. "
     "Operations that combine several sources drain them one after the other.",
     ["inputs", "programs", "schedules"], "all asynchronous sources, all suspension patterns, all supplied functions, all consumers",
     "tests use short sources that never suspend and consume them completely",
     [COLL + "asyncseq.py"], [("asynchronous generators", COLL + "asyncseq.py")])

prop("C18", "TypedArray operations have list semantics on their own storage",
     "Every typed array operation returns exactly what the corresponding list operation would, in order and of the same length, and a derived array never shares storage with the array or buffer it came from, so changing one is never visible in the other. "
     "The chosen storage kind is able to hold the elements, and an explicitly requested element kind is used for the array and what is derived from it where documented.",
     ["inputs", "histories"], "all typed arrays and element kinds, all supplied functions, all later modifications",
     "tests check small integer arrays once and never modify an array after deriving another from it",
     [COLL + "array.py"], [("storage selection", COLL + "array.py:array_from_initializer"), ("operations", COLL + "array.py:TypedArray")])

prop("C19", "Parsers consume input exactly once, from left to right, and report position",
     "A parser reads the input from the current position only; a successful parser hands exactly the unread rest to the next one, sequencing runs parsers left to right, a choice tries its second alternative from the same position exactly when the first fails, and repetition stops at the first failure keeping everything read before it. "
     "A failure of a sequence is the failure of its first failing part, and mapped functions are applied only to successful results.",
     ["inputs", "programs"], "all input strings and positions, all parser combinations, all mapped functions",
     "tests parse a few short inputs with small grammars; backtracking positions and ends of input for arbitrary combinations are not covered",
     ["expression/extra/parser.py"], [("input threading in combinators", "expression/extra/parser.py"), ("string cursor", "expression/extra/parser.py:Remaining")])

prop("C20", "Only the requested exceptions are turned into errors",
     "Functions wrapped to return errors instead of raising catch exactly exceptions of the requested kinds, return them unchanged as errors, return every normal result unchanged as a success, and let every other exception propagate. "
     "Apart from cancellation listeners, whose ordinary exceptions must not keep other listeners from running, the library nowhere swallows or replaces an exception raised by user code.",
     ["inputs", "programs"], "all wrapped functions, all exceptions (subclasses and non-errors such as keyboard interrupt or cancellation included)",
     "tests raise one or two exception types; that no other handler in the library swallows exceptions cannot be sampled",
     ["expression/extra/result/catch.py", CORE + "builder.py", CORE + "async_builder.py", CORE + "mailbox.py", "expression/system/cancellation.py"],
     [("except clauses", "the whole package")])

prop("C21", "Disposables run their action at most once",
     "Disposing a disposable any number of times, by explicit call or by leaving a with-block normally or with an exception, from any threads, runs its action exactly once for the first disposal and never again, and using a disposed object where that is forbidden raises. "
     "A composite disposes each member once, and exceptions raised inside a with-block are not suppressed.",
     ["schedules", "histories"], "all interleavings of concurrent disposals, all nesting of with-blocks, actions that raise",
     "tests dispose from one thread in a fixed order; interleavings of concurrent disposals are not explored",
     ["expression/system/disposable.py"], [("flag checked and set under the lock", "expression/system/disposable.py:AnonymousDisposable.dispose")])

prop("C22", "Cancellation reaches every registered listener exactly once",
     "Cancelling a source marks its token cancelled and runs every listener that is registered at that moment exactly once, outside the lock; cancelling again does nothing. "
     "A listener registered before the cancellation is notified unless it was unregistered first, registering on a cancelled source is refused rather than lost, and a source that is not cancelled never reports cancellation. A token that can never be cancelled accepts listeners and never runs them.",
     ["schedules", "histories"], "all interleavings of registering, unregistering and cancelling, listeners that register, unregister or raise",
     "tests cancel from one thread; races between registration and cancellation and failing listeners are not explored",
     ["expression/system/cancellation.py"], [("listener table guarded by the lock", "expression/system/cancellation.py:CancellationTokenSource")])

prop("C23", "A mailbox processes every message once, in arrival order",
     "Every message posted to a mailbox is handed to its body exactly once, in the order of arrival, whether it was posted before or after the body began waiting and from whatever thread; receiving never completes twice for one message. Once its cancellation token is cancelled a mailbox hands over nothing more, and a pending receive is cancelled. "
     "A reply sent through a reply channel completes the waiting poster with exactly that reply, whatever its value.",
     ["schedules", "histories"], "all interleavings of posting and receiving, all messages and replies (None and falsy included)",
     "tests post a few messages on one loop; message values, concurrent posts and replies of every kind are not explored",
     [CORE + "mailbox.py"], [("message queue and waiting receiver", CORE + "mailbox.py:MailboxProcessor"), ("reply channel", CORE + "mailbox.py:AsyncReplyChannel")])

prop("C24", "Asynchronous helpers resume exactly once and never lose a task",
     "Building an awaitable from callbacks completes it with whichever of success, failure or cancellation is signalled first. "
     "Started tasks are kept alive until they finish, then released on every outcome; cancellation through a token cancels exactly the started task, and starting, running or ignoring a computation passes on its result or exception unchanged.",
     ["schedules", "fault_sequences", "programs"], "all orders of callback signals, all outcomes of the started computations, cancellation at any time",
     "tests use immediately completing computations; completion orders, failures and cancellation in flight are not explored",
     [CORE + "aiotools.py"], [("callback conversion", CORE + "aiotools.py:from_continuations"), ("task registry", CORE + "aiotools.py:start,start_immediate")])

prop("C25", "Traversing a collection of results keeps order and the first failure",
     "Traversing or sequencing a collection of Options or Results yields success with all values in the original order exactly when every element succeeds, and otherwise exactly the first failure in order. "
     "The supplied function is called exactly once per element, and falsy payloads are ordinary values.",
     ["inputs", "programs"], "all collections and element outcomes, all supplied functions",
     "tests traverse a few short lists; failures at several positions at once and call order are not checked",
     ["expression/extra/option", "expression/extra/result"], [("fold over the builder", "expression/extra/option/traversable.py, expression/extra/result/traversable.py")])

prop("C26", "Equality, hashing and ordering agree with the contents",
     "Two values of the same container kind are equal exactly when they have the same case and equal contents (same entries for maps, same elements in the same order for blocks and arrays), and comparing with a value that is not such a container is false rather than an error. "
     "Equal values hash equally, and ordering follows the contents with the absent or error case ordered consistently.",
     ["inputs"], "all pairs of values, foreign values included",
     "tests compare a few pairs; reflexivity, symmetry, hash agreement and foreign operands for all contents cannot be sampled",
     [CORE + "option.py", CORE + "result.py", COLL + "block.py", COLL + "map.py", COLL + "array.py", COLL + "seq.py"],
     [("__eq__/__hash__/__lt__", "the container classes")])

prop("C27", "Serialised values deserialise to equal values",
     "Validating the serialised form of an Option, Result or Block with its own type gives back an equal value, from Python data and from JSON data alike, whatever the payload (falsy values, None in a result, models, and options, results and blocks nested in each other); "
     "payloads are validated as their declared type and data that does not fit is rejected rather than accepted unconverted. dict() gives the payload, or None for Nothing, the tagged payload of a result, and the elements in order, with payloads that have model_dump() or dict() converted by it.",
     ["inputs", "configurations"], "all payload values, payload kinds, nestings and both validation modes",
     "tests round-trip a few sample models; JSON input and nested containers are hardly touched",
     [CORE + "option.py", CORE + "result.py", COLL + "block.py", COLL + "seq.py"],
     [("__get_pydantic_core_schema__/dict", CORE + "option.py, " + CORE + "result.py, " + COLL + "block.py")])

prop("C28", "Textual forms show every element in order, casts never change a value",
     "str() and repr() of an Option, Result, Try, Block, TypedArray, Seq or Map agree where both are defined, name the case and show the payload, whatever it is, or show every element exactly once in order (of the key for a Map, the first hundred for a Seq). "
     "upcast hands back the very value it is given, downcast does so if the value is an instance of the type and fails otherwise, try_downcast gives None in that case, falsy values being values like any other; failwith raises an exception with exactly the given message.",
     ["inputs", "configurations"], "all payloads and elements, falsy ones included; all values and target types",
     "tests print a few sample values; falsy payloads, nested containers and casts of falsy values are hardly touched",
     [CORE + "option.py", CORE + "result.py", CORE + "try_.py", CORE + "typing.py", CORE + "error.py", COLL + "block.py", COLL + "array.py", COLL + "seq.py", COLL + "map.py"],
     [("__str__/__repr__", CORE + "option.py, " + CORE + "result.py, collections"), ("casts", CORE + "typing.py:upcast,downcast,try_downcast")])

prop("C91", "Delays and timeouts take the requested time",
     "Sleeping or delaying suspends for at least the requested time and completes as soon as the event loop allows afterwards.",
     ["schedules"], "all durations and event loop loads",
     "tests measure one short delay",
     [CORE + "aiotools.py"], [("sleep", CORE + "aiotools.py:sleep")])

NA = {
    "C91": "quantifies over wall-clock durations decided by the event loop at run time; no static argument bounds them",
}


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        r = registry.PROPERTIES.get(p["id"])
        if r:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"python3 -m sa.check {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 -m sa.check {p['id']}",
                "technique": registry.technique(p["id"]),
                "level": "other",
                "level_note": registry.note(p["id"]),
            })
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "no sound static rule has been built for this property yet")})
    assert set(registry.PROPERTIES) <= set(ids)
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa specs", "checks": checks, "not_applicable": na,
           "notes": "Pure static analysis: every check parses /repo's current source (stdlib ast only), nothing of /repo is imported or executed. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
