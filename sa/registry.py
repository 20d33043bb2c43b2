"""Property table: which law modules and which rules decide each property."""
from __future__ import annotations

import importlib

ASSUMPTIONS = [
    "Python's own semantics and the modelled subset of builtins/stdlib (sa/bmodel.py, sa/models) are as documented",
    "caller-supplied functions are arbitrary (opaque, may raise) but do not mutate library internals or rebind module globals",
    "annotated parameter types of the public API are respected by the caller",
]

PROPERTIES = {
    "C01": dict(laws=["c01_option"], rules=[], floor=40),
    "C02": dict(laws=["c02_result"], rules=[], floor=40),
    "C03": dict(laws=["c03_conversions", "c03_containers"], rules=[], floor=15),
    "C05": dict(laws=["c05_functions"], rules=[], floor=15),
    "C06": dict(laws=["c06_pipelines"], rules=[], floor=15),
    "C07": dict(laws=["c07_builders", "c07_bodies"], rules=[], floor=10),
    "C08": dict(laws=["c08_async_builders", "c08_bodies"], rules=[], floor=6),
    "C09": dict(laws=["c09_tagged_union"], rules=[], floor=15),
    "C15": dict(laws=["c15_block"], rules=[], floor=80),
    "C16": dict(laws=["c16_seq"], rules=[], floor=100),
    "C19": dict(laws=["c19_parser", "c19_numbers", "c19_texts"], rules=[], floor=40),
}
PROPERTIES["C20"] = dict(laws=["c20_catch"], rules=["exceptions.swallow"], floor=12)
PROPERTIES["C26"] = dict(laws=["c26_equality", "c26_map", "c26_hash", "c26_small", "c26_unions"], rules=[], floor=8)
PROPERTIES["C27"] = dict(laws=["c27_serialise"], rules=[], floor=15)
PROPERTIES["C28"] = dict(laws=["c28_texts"], rules=[], floor=20)
PROPERTIES["C11"] = dict(laws=["c11_tree", "c11_map", "c11_small", "c13_order", "c13_iterator"], rules=[], floor=30)
PROPERTIES["C12"] = dict(laws=["c12_balance", "c11_tree"], rules=[], floor=8)
PROPERTIES["C13"] = dict(laws=["c13_traversals", "c13_order", "c13_iterator", "c13_map", "c13_small"], rules=[], floor=25)
PROPERTIES["C14"] = dict(laws=["c14_tailrec", "c12_balance"], rules=["stack.bounded"], floor=60,
                         rule_technique="call-graph recursion analysis with size-change graphs over the balanced tree, and lazy-capture data flow over loops, folds and attributes")
PROPERTIES["C21"] = dict(laws=["c21_disposable"], rules=[], floor=25)
PROPERTIES["C22"] = dict(laws=["c22_cancellation"], rules=[], floor=30)
PROPERTIES["C23"] = dict(laws=["c23_mailbox"], rules=[], floor=20)
PROPERTIES["C24"] = dict(laws=["c24_aiotools"], rules=[], floor=30)
PROPERTIES["C17"] = dict(laws=["c17_asyncseq"], rules=[], floor=25)
PROPERTIES["C18"] = dict(laws=["c18_array"], rules=[], floor=60)
PROPERTIES["C25"] = dict(laws=["c25_traverse"], rules=[], floor=5)
PROPERTIES["C10"] = dict(laws=["c10_alias"], rules=["writes.owned"], floor=300, effects=[
    "c01_option", "c02_result", "c03_conversions", "c06_pipelines", "c11_tree", "c11_map", "c12_balance", "c13_iterator", "c13_map", "c13_order",
    "c13_traversals", "c15_block", "c16_seq", "c19_parser", "c25_traverse", "c26_equality", "c26_hash", "c26_map"])

_LAW = ("relational abstract interpretation in the term (value-number) domain: each public operation is compared, path by path, "
        "with a specification fragment; loops by fixpoint summaries and state bisimulation")


def technique(pid):
    p = PROPERTIES[pid]
    out = []
    if p.get("laws"):
        out.append(_LAW)
    if p.get("effects"):
        out.append("effect analysis: no abstract path of any operation writes to a value that existed before it")
    if p.get("rules"):
        out.append(p.get("rule_technique", "custom syntax-tree, data-flow and effect rules over the resolved program"))
    return "; ".join(out)


def note(pid):
    p = PROPERTIES[pid]
    return p.get("note", "Static decision from the source on every run: an obligation holds for every input when its abstract paths match the specification; "
                 "a report names the construct and path that differ. Obligations the analysis cannot decide are listed as undecided in the evidence and raise no alarm. "
                 "Trusted: the models of Python builtins in sa/bmodel.py and sa/models, and the specification fragments in specs/.")


def rule(name):
    mod, fn = name.rsplit(".", 1)
    return getattr(importlib.import_module("sa.rules." + mod), fn)
