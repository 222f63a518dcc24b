#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

RT = ["funcmap/src/impls_core.rs", "funcmap/src/impls_alloc.rs", "funcmap/src/impls_std.rs", "funcmap/src/array.rs", "funcmap/src/lib.rs"]
DR = ["funcmap_derive/src/derive.rs", "funcmap_derive/src/map.rs", "funcmap_derive/src/syn_ext.rs", "funcmap_derive/src/input.rs"]

p("C01", "Mapping a library container maps exactly its elements and keeps its shape",
  "For every standard-library type the crate supports and every value of it, mapping yields a value of the same variant and length whose elements are exactly the closure's results, each in the place of the element it was computed from; unmapped components (other keys or values, the other side of a result) are handed over unchanged and stay with their partner. Sets and keyed maps contain exactly the set of closure results in their own order, and for colliding results the last one wins; heaps stay heaps.",
  ["inputs"], "all containers, all element values, all closures (arbitrary results, also colliding ones), all variants, empty and partly consumed containers",
  "The tests map one-element collections of unit structs, so they cannot see a swapped, dropped, duplicated or misplaced element, nor behaviour on colliding keys, empty or partly consumed containers.",
  RT, [("per-type implementations", "funcmap/src/impls_*.rs")], ["return value of func_map / try_func_map"])
p("C02", "Functor laws: identity and composition",
  "Mapping the identity function gives back an equal value, and mapping f and then g gives the same value as mapping the composition of g after f, for every supported library type and for derived types.",
  ["inputs"], "all container values and all pairs of functions (for keyed collections: g injective, for hash maps also f, since colliding keys keep an unspecified or last partner)",
  "The laws quantify over all functions; the tests use one fixed function on one fixed value and never compose.",
  RT + DR, [("implementations for library types", "funcmap/src/impls_*.rs"), ("generated match arms", "funcmap_derive/src/derive.rs")], ["return values"])
p("C03", "Fallible mapping succeeds exactly when the closure does, and then agrees",
  "A fallible mapping returns success if and only if no call of the closure returned an error, and a successful fallible mapping produces the same value as the infallible mapping with the corresponding closure.",
  ["inputs"], "all containers and derived types, all closures, every pattern of success and failure",
  "The tests fail one fixed call; which calls fail and what the other calls return is never varied.",
  RT + DR, [("collect into Result", "funcmap/src/impls_alloc.rs"), ("? in generated code", "funcmap_derive/src/derivable.rs")], ["return value of try_func_map"])
p("C04", "A failing closure stops the mapping and its first error is returned",
  "When the closure fails, the fallible mapping returns that very error value unchanged, and the closure is not called again afterwards, so the error returned is the first one in element order.",
  ["inputs", "fault_sequences"], "all containers, every choice of the call that fails",
  "The tests use containers with a single element or a single failing position, so an implementation that keeps going, or returns the last error, passes.",
  RT, [("array::try_map", "funcmap/src/array.rs"), ("collect::<Result>", "funcmap/src/impls_alloc.rs, impls_std.rs")], ["sequence of closure calls", "error value"])
p("C05", "The closure is called once per element, in element order",
  "A mapping calls the closure exactly once for each element (in the fallible and panicking case: at most once, and for a prefix of the elements), passing the element itself, in the container's own iteration order where it has one.",
  ["inputs", "histories"], "all containers, all sizes up to the bound, all element values",
  "With a stateful closure the order and number of calls is observable; the tests use pure closures on one element.",
  RT, [("iterator-based implementations", "funcmap/src/impls_*.rs")], ["sequence of closure calls"])
p("C06", "Mappings neither leak nor double-drop, whether they succeed or fail",
  "After a mapping has returned, with success or with an error, every element, result and unmapped component has either been handed out in the result, been given to the closure, or been dropped exactly once, and every heap allocation that is not part of the result has been released; no dropped or uninitialised value is ever touched.",
  ["inputs", "fault_sequences"], "all containers, every call at which the closure may fail",
  "The drop tests cover arrays of three elements with the failure in the middle; other positions, sizes and containers are not observed.",
  RT, [("array drop guard", "funcmap/src/array.rs")], ["drops", "allocations"])
p("C07", "A panicking closure leaves no leak, double drop or half-built value behind",
  "If the closure panics at any call, the panic reaches the caller, and every element, result already produced and unmapped component has been dropped exactly once with all memory released; the mapping never panics on its own.",
  ["inputs", "fault_sequences"], "all containers, every call at which the closure may panic, alone or after other outcomes",
  "One panic position in one array is tested; no other container and no other position.",
  RT, [("array drop guard", "funcmap/src/array.rs")], ["panic payload delivery", "drops", "allocations"])
p("C08", "Mapping arrays is memory safe for every length and element layout",
  "Mapping a fixed-size array of any length, including zero, and any element, result and error layout (zero-sized, over-aligned, large, uninhabited, with niches or heap-owning) never reads uninitialised memory, writes out of bounds or drops an element that does not exist, whichever call fails or panics; an empty array always maps successfully without calling the closure.",
  ["inputs", "fault_sequences"], "array lengths up to the bound, element layouts listed in DESIGN.md, every failing or panicking position",
  "The implementation is hand-written unsafe code; three tests with one layout and one length cannot exercise its initialised-prefix invariant.",
  ["funcmap/src/array.rs", "funcmap/src/impls_core.rs"], [("guard with initialised prefix", "funcmap/src/array.rs")], ["memory accesses", "drops"])
p("C09", "Derived mappings map every occurrence of the parameter and nothing else",
  "For every struct or enum built from supported field types, the derived mapping keeps the variant, applies the closure exactly once to every occurrence of the mapped parameter however deeply nested in arrays, tuples and generic types, puts each result in the place it came from, and moves every field that does not mention the parameter over unchanged.",
  ["programs", "inputs"], "all types in the catalogue (field kinds and nestings up to the bound), all values of them, all closures",
  "The tests check a handful of shapes with unit-like values, so two occurrences mapped into each other's place, or a skipped one, can go unnoticed, and nesting is sampled.",
  DR, [("generated mapping expressions", "funcmap_derive/src/map.rs"), ("generated match arms", "funcmap_derive/src/derive.rs")], ["value returned by derived func_map"])
p("C10", "Mapping over one parameter leaves the others alone, and markers number them",
  "In a type with several parameters, mapping over the parameter with marker index N affects exactly the components of the N-th type-or-const parameter (lifetimes are not counted, const generics are), leaves all other components unchanged, and mappings over different parameters commute.",
  ["programs", "inputs"], "all multi-parameter types in the catalogue and the two-parameter library types, all values, all closures",
  "The tests fix one or two parameter lists; positions of lifetimes and const generics relative to type parameters are a combinatorial space, and commutation is never tested.",
  ["funcmap_derive/src/input.rs", "funcmap_derive/src/derive.rs", "funcmap_derive/src/map.rs", "funcmap/src/lib.rs"], [("marker index", "funcmap_derive/src/input.rs")], ["value returned by func_map_over"])
p("C11", "Derived fallible mappings stop at the first error in field order and clean up",
  "A derived fallible mapping calls the closure in the order in which fields, and occurrences within a field, are defined; it returns the first error unchanged without further calls; and every value is dropped exactly once on success, failure and panic.",
  ["programs", "inputs", "fault_sequences"], "all types in the catalogue, every failing or panicking call",
  "Tests check a single struct with one failing field; order across nested containers and clean-up on failure are not observed.",
  ["funcmap_derive/src/derive.rs", "funcmap_derive/src/map.rs", "funcmap_derive/src/derivable.rs"], [("generated ? operators", "funcmap_derive/src/derivable.rs")], ["sequence of closure calls", "error value", "drops"])
p("C12", "Helper attributes select parameters and crate path exactly as written",
  "The params option generates implementations for exactly the listed type parameters and no others, accumulates over several attributes, and defaults to all type parameters; the crate option makes every reference in the generated code go through the given path; every malformed, duplicate, misplaced or unknown option is rejected with an error.",
  ["programs", "inputs", "configurations"], "all attribute lists over the options up to the bound, all parameter lists",
  "The tests sample a few attribute lists.",
  ["funcmap_derive/src/opts.rs", "funcmap_derive/src/input.rs", "funcmap_derive/src/derive.rs"], [("option parsing", "funcmap_derive/src/opts.rs")], ["generated code", "compile errors"])
p("C13", "Generated identifiers never collide with the user's",
  "Every type parameter name the derive macros introduce is different from every identifier occurring in the user's item (raw or not) and from the other introduced ones, whatever names the user chose.",
  ["programs", "inputs"], "all choices of user identifiers (symbolic strings within the bound)",
  "The tests try two dozen fixed name sets; the guarantee is about every possible set of names.",
  ["funcmap_derive/src/ident_collector.rs", "funcmap_derive/src/derive.rs"], [("identifier reservation", "funcmap_derive/src/ident_collector.rs")], ["generated code"])
p("C14", "Unsupported input is rejected, supported input accepted",
  "Deriving is rejected with a compile error if and only if the item is a union, has no type parameter to map, or uses the mapped parameter in an unsupported position (reference, pointer, function, slice, trait object, associated type, macro); occurrences of other parameters in such positions are accepted, and types implementing Drop are rejected.",
  ["programs", "inputs"], "all field types built from the supported and unsupported constructors up to the bound",
  "The UI tests hold one example per rejected construct, none of them nested inside supported ones.",
  ["funcmap_derive/src/map.rs", "funcmap_derive/src/input.rs", "funcmap_derive/src/syn_ext.rs"], [("type dispatch", "funcmap_derive/src/map.rs"), ("dependency analysis", "funcmap_derive/src/syn_ext.rs")], ["compile errors"])
p("C15", "Bounds of the derived implementations are those of the type",
  "The derived implementation carries each bound of the type on the mapped parameter once for the source and once for the target parameter with the parameter substituted consistently, keeps the bounds on the other parameters, drops only relaxed size bounds of the mapped parameter, attributes and defaults, and adds only the mapping and size bounds its fields need.",
  ["programs", "inputs"], "all generics with bounds and where clauses up to the bound",
  "Snapshot tests fix four items.",
  ["funcmap_derive/src/derive.rs", "funcmap_derive/src/predicates.rs", "funcmap_derive/src/syn_ext.rs"], [("substitution of bounds", "funcmap_derive/src/derive.rs"), ("predicate deduplication", "funcmap_derive/src/predicates.rs")], ["generated code"])
p("C16", "The _over methods do exactly what the plain methods do",
  "func_map_over and try_func_map_over with a marker behave exactly like func_map and try_func_map of the implementation selected by that marker: same calls of the closure, same result, same error, same drops.",
  ["inputs"], "all containers, all markers, all closures, every failing call",
  "The provided methods are tested on one struct.",
  ["funcmap/src/lib.rs"], [("provided methods", "funcmap/src/lib.rs")], ["return values", "sequence of closure calls"])
p("C17", "Every error in the input is reported, and the macros never panic",
  "If an item is rejected, one compile error is produced for every independent mistake (not just the first), nothing but errors is generated, the output for a given item is deterministic, and the macros themselves never panic, overflow or loop on any item that parses.",
  ["programs", "inputs"], "all items with any combination of mistakes up to the bound",
  "The UI tests hold one mistake per file in most cases.",
  ["funcmap_derive/src/result.rs", "funcmap_derive/src/input.rs", "funcmap_derive/src/opts.rs", "funcmap_derive/src/derive.rs"], [("error collection", "funcmap_derive/src/result.rs")], ["compile errors"])
p("C18", "Behaviour does not depend on the crate's feature selection",
  "With no features, with alloc only and with std, every implementation that is available in that configuration behaves exactly as in the default configuration.",
  ["configurations", "inputs"], "the three feature configurations, all containers available in each",
  "The test suite only ever runs with default features.",
  RT + ["funcmap/Cargo.toml"], [("feature gates", "funcmap/src/lib.rs")], ["return values", "sequence of closure calls"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
