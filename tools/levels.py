TECH = "contract-based deductive verification (Verus) of the functions extracted from /repo on every run"
TECH_B = "contracts on the extracted functions (Verus); bounded comparison with an executable specification where a function is not under contract"
DEFAULT_NOTE = "Contracts on the functions this property rests on, plus a bounded comparison of the real crate with an executable specification."
NOTES = "See DESIGN.md: what is proved per property, the extraction rules, the trusted base, and what is bounded only. Besides the proof every check runs the real crate against an executable specification on generated worlds (bounded, labelled so in the evidence): it supplies failing inputs, and stands in for a function that a later change takes out of the verifier's reach."
NA = {"C27": "Does not hold, and termination over rewriting options is a whole-history property: an alias, imports or tsconfig-extends cycle recurses without end on the unchanged tree (see DESIGN.md); contracts would need a measure that does not exist. The terminating searches are C26."}
def n(t): return ("proof", t + " For all inputs; a static file system and the stated contracts of std and the dependencies are assumed (listed in the evidence).")
L = {
 "C01": n("Split, display and kind of a request are proved exactly; every step of the lookup (file, extension, directory, main field, main file, alias, browser field, prefer_relative, tsconfig) is proved to hand query and fragment on unchanged."),
 "C02": n("Kind of a request proved exactly (drive table included); the dispatch on it is part of the rule that every resolution is proved to follow."),
 "C03": n("Postcondition of the normalisation over path components, idempotence by lemma; that resolve() returns this form without symlinks is part of its contract."),
 "C04": n("Every function that answers with a file is proved to have tested it; resolve() is proved to return the real path or normal form of such a candidate."),
 "C05": n("resolve_as_file and the extensions step equal a function of the file system and the options."),
 "C06": n("Main-field and main-file steps follow a rule that is exact about order, stop values and restarts from the same directory."),
 "C07": n("Walk over the node_modules directories follows a rule, level by level, with what ends and what continues the search."),
 "C08": n("Alias step follows a rule: order, prefix replaced once, first success, fallback."),
 "C09": n("prefer_relative step follows a rule: relative form first, original form after its failure."),
 "C10": n("conditional_mapping equals a recursive selection function on the value."),
 "C11": n("find_match equals the best key of the tree; tree building is proved to hold exactly the keys of the map; lemma: the best key is the exact key or the longest prefix, pattern before directory."),
 "C12": n("target_mapping / mapping equal substitution and list functions; shape errors are proved in both directions."),
 "C13": n("check_target equals the containment predicate; both users of targets are proved to use contained ones only."),
 "C14": n("Exports step follows a rule over the matched targets; which description applies, and self reference by name, are proved exactly."),
 "C15": n("Imports step follows a rule over the matched targets; no other map and no fallback appears in it."),
 "C16": n("Browser-field step equals a function of entries, request and options."),
 "C17": n("find_up equals the nearest directory; every user of a description is proved to have got this one."),
 "C18": n("What a cached description says is proved to be a function of the file's text and directory (invariant of the cache, whoever inserted), and every result is proved to follow rules that do not mention the cache. Theorems one_result and one_side: two answers that satisfy the contract of resolve (load_side_effects) under equal options are the same file, query and fragment, or both ignored, or both a failure, whatever the caches. The wording of an error is compared on generated histories only (bounded)."),
 "C19": n("load_side_effects and the reading of sideEffects, exports and imports are proved exact, errors in both directions."),
 "C20": n("Pattern order, matching, table and lookup follow a rule proved for every table (the map's iteration order is left open, and proved not to matter)."),
 "C21": n("merge equals the recursive merge relation; reading follows the extends chain; typed extraction exact, errors in both directions. Chains with a cycle are excluded (C27)."),
 "C22": n("Every slice, index, arithmetic operation, unwrap and unreachable in the functions under contract is an obligation. Stack depth and memory are not modelled."),
 "C23": n("Message text proved; no function returns the internal marker; error and success are part of the rules."),
 "C24": n("Postcondition of Resolver::new, field by field."),
 "C25": n("When a cached description is reused and when the file is read again is proved against the file's modification time and the clock contract."),
 "C28": n("is_build_in_module equals membership in the list of Node.js 16, name by name."),
 "C26": n("Decreases measure for every loop and for the recursions named; searches that restart resolution (alias, imports, extends) are C27 and excluded."),
}
