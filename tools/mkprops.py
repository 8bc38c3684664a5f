#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S = "src/"
E = "src/enumo/"
p("C01", "Bitvector arithmetic is exact modulo 2^width and always canonical",
  "For every width from 1 to 128, addition, subtraction, multiplication, negation, the bitwise operations and the shifts of two in-range bitvectors return exactly the unsigned mathematical result modulo 2^width, and a shift by the width or more returns zero. Every bitvector produced from an integer, from text (decimal or #b binary), by random sampling or by an operation is in range, the named constants (zero, all ones, minus one, signed minimum and maximum) have their mathematical values at every width, and malformed text is an error rather than a panic.",
  ["inputs", "configurations"], "all widths 1..=128, all pairs of in-range operands, all integers and texts",
  "One unit test checks a handful of 4-bit values; the remaining 2^256 operand pairs per operation and the widths 1, 64, 127 and 128 are never reached.",
  [S+"bv.rs"], [("BV::new masks with ALL_ONES", S+"bv.rs"), ("wrapping_* / my_shl / my_shr / Not / BitAnd / BitOr / BitXor", S+"bv.rs"), ("FromStr, From, Distribution", S+"bv.rs")],
  observe=["the public value of the returned bitvector"])
p("C02", "Bitvector evaluation is pointwise, undefined-strict and faithful",
  "Evaluating a bitvector operator over its children's sample vectors yields, at every sample position, exactly the operator applied to the children's values at that position, and yields undefined exactly where some child is undefined. A literal evaluates to its value at every one of the requested number of positions, and each operator symbol means the arithmetic operation it names.",
  ["inputs", "configurations"], "all operators, all widths, all children sample vectors of any length and definedness",
  "The domain tests only observe the rules finally learned for a few widths; a wrong value at one sample position only shows up as a slightly different rule count.",
  [S+"bv.rs", S+"util.rs"], [("impl_bv! eval", S+"bv.rs"), ("map! macro", S+"util.rs"), ("define_language! operator table", S+"bv.rs")],
  observe=["sample vectors of e-classes", "the language's eval entry point"])
p("C03", "Sampling vectors enumerate the full cross product",
  "For any list of sample values and any number of variables, the generated vectors all have length |values|^n, contain only the given values, and the tuples formed by reading the n vectors at each index run over every combination of values exactly once. Initialising variables for the bitvector domain gives every variable such a vector over the domain's distinct corner cases, and records their common length (one when there is no variable).",
  ["inputs", "configurations"], "all value lists, all variable counts, all widths",
  "Existing tests run a few fixed variable counts and never look at the sampling vectors; a missing combination only makes unsound candidates more likely.",
  [S+"util.rs", S+"bv.rs"], [("self_product", S+"util.rs"), ("impl_bv! initialize_vars", S+"bv.rs")],
  observe=["the returned vectors", "sample vectors of variable e-classes"])
p("C04", "Term metrics compute atom count, list count and depth exactly",
  "For every s-expression, including empty lists, the atom metric is its number of atoms, the list metric its number of (sub)lists, and the depth metric one plus the maximum depth of its children, with atoms and the empty list having depth one. Measuring never panics and never modifies the term.",
  ["inputs"], "all finite s-expressions, all three metrics",
  "The unit tests measure seven fixed terms without empty lists.",
  [E+"sexp.rs", E+"metric.rs"], [("Sexp::measure", E+"sexp.rs")], observe=["metric filters on workloads"])
p("C05", "Plugging substitutes every combination of pegs for every hole, in order",
  "Plugging a workload into a named hole yields, for each original term and each independent choice of a peg for every occurrence of that atom, exactly one term: the original with those occurrences replaced and everything else unchanged; a term with k occurrences and n pegs therefore yields n^k terms. The results come grouped by original term in the original order, enumerated with the rightmost occurrence varying fastest, and a term without the hole (including one containing empty lists) is kept unchanged once.",
  ["inputs"], "all terms, hole names and peg lists",
  "Tests plug one or two holes in flat terms with a few pegs and mostly check counts, not the produced terms.",
  [E+"sexp.rs", E+"workload.rs"], [("Sexp::plug", E+"sexp.rs"), ("Workload::force, Plug arm", E+"workload.rs")],
  observe=["the forced workload"])
p("C06", "Filters decide exactly their documented predicates",
  "A metric filter keeps a term exactly when its measure is below (or equal to) the bound; contains keeps it exactly when the term or some subterm at any depth matches the pattern, and excludes is its exact complement; and, or and invert are conjunction, disjunction and negation. Combining two filters, however nested and in whatever order, accepts exactly the terms that both accept.",
  ["inputs"], "all filters, nested to any depth, and all terms",
  "Tests use one filter of each kind on small workloads; combinations, redundant metric bounds and deep subterm matches are not covered.",
  [E+"filter.rs"], [("Filter::test", E+"filter.rs"), ("Filter::and / subsumed_by", E+"filter.rs")],
  observe=["the forced filtered workload"])
p("C07", "Pattern matching holds exactly when a consistent instantiation exists",
  "A pattern matches a term if and only if the variables of the pattern can be assigned terms so that replacing every variable by its term, and every wildcard by some term, gives exactly that term. In particular all occurrences of one variable bind equal terms, wildcards are independent, literals match only the identical atom and lists only match lists of the same length.",
  ["inputs"], "all patterns and all terms",
  "Tests try a few patterns on a few terms; repeated variables across nesting levels and length mismatches are sampled, not settled.",
  [E+"pattern.rs"], [("Pattern::matches / matches_with", E+"pattern.rs"), ("Pattern parsing", E+"pattern.rs")],
  observe=["contains/excludes filters"])
p("C08", "Canonical-form filtering keeps exactly one representative per renaming class",
  "With a list of distinct variable symbols, the canonical filter accepts a term exactly when its first occurrences of those symbols, read left to right, are the listed symbols in list order without gaps. Hence among all terms equal up to a bijective renaming of those symbols exactly one is accepted, and atoms outside the list never influence the decision.",
  ["inputs"], "all terms and all lists of distinct symbols",
  "Two unit tests filter one small workload; the one-representative claim ranges over all terms and renamings.",
  [E+"sexp.rs", E+"filter.rs"], [("Sexp::canon / mk_canon / apply_subst", E+"sexp.rs"), ("Filter::Canon", E+"filter.rs")],
  observe=["canon filters on workloads"])
p("C09", "Workload builders never change which terms are denoted",
  "However a workload was built, adding a filter yields exactly the previously denoted terms that pass it, in the same order, even when the builder rearranges or merges filters or pushes them into plugs; appending yields exactly the terms of both parts, with multiplicity; plugging an empty workload removes exactly the terms containing the hole.",
  ["inputs", "programs"], "all sequences of builder operations over all workloads, filters and names",
  "Tests exercise a few builder chains and count results; rewrites of nested filters and plugs interact in ways only an argument over all chains settles.",
  [E+"workload.rs", E+"filter.rs"], [("Workload::filter push-down", E+"workload.rs"), ("Workload::append flattening", E+"workload.rs"), ("Workload::plug empty case", E+"workload.rs"), ("Filter::is_monotonic", E+"filter.rs")],
  observe=["the forced workload"])
p("C10", "Grammar iteration enumerates exactly the terms up to the size bound",
  "Iterating a grammar over a hole n times yields exactly the terms that n rounds of plugging the previous terms into the hole produce, keeping in round i only terms of size at most i in the chosen metric, and zero rounds yield the grammar itself. Substituting a workload for an atom yields, for each substitution term in turn, every workload term with all occurrences of the atom replaced by that same term; the standard grammar with arity n offers a variable, a value and one operator of each arity 1 to n.",
  ["inputs"], "all grammars, holes, metrics and bounds",
  "Tests compare counts for three fixed grammars and small bounds.",
  [S+"recipe_utils.rs"], [("iter_metric", S+"recipe_utils.rs"), ("substitute", S+"recipe_utils.rs"), ("base_lang", S+"recipe_utils.rs")],
  observe=["the forced workload"])
p("C11", "Rule selection returns only validated new candidates",
  "Every rule returned as chosen by minimisation was a candidate, was judged valid by the domain's validator, and is not one of the prior rules; every rule reported as invalid was a candidate that the validator did not judge valid. A rule whose validation is inconclusive is never chosen.",
  ["inputs", "histories"], "all candidate sets, prior rulesets, schedulers, limits and validator verdicts",
  "Tests run minimisation on whole domains and look at rule counts and derivability; a single unsound rule slipping through some candidate order is not observable there.",
  [E+"ruleset.rs", E+"rule.rs"], [("Ruleset::select", E+"ruleset.rs"), ("Ruleset::minimize", E+"ruleset.rs"), ("Rule::is_valid", E+"rule.rs")],
  observe=["the pair returned by minimize"])
p("C12", "Minimisation terminates and loses only redundant or invalid candidates",
  "Minimisation always terminates with no candidate left, and every candidate ends up chosen, reported invalid, or dropped because its two sides had already been merged by the prior rules together with the rules chosen by then. Candidates are considered best score first, and a chosen rule brings its valid reverse along when that is also a candidate.",
  ["inputs", "histories"], "all candidate sets, prior rulesets and limits",
  "Tests only see the final counts on a few domains, so dropping a non-derivable candidate or preferring a worse one goes unnoticed.",
  [E+"ruleset.rs"], [("Ruleset::select", E+"ruleset.rs"), ("Ruleset::shrink", E+"ruleset.rs"), ("Ruleset::minimize", E+"ruleset.rs")],
  observe=["the pair returned by minimize"])
p("C13", "Rulesets behave as name-keyed sets",
  "Union, extend, add and add-all contain exactly the rules of both sides, a later rule of the same name replacing the earlier one; removing a ruleset removes exactly the rules with those names; partition puts each rule in exactly one side according to the predicate, keeping order. Membership, length, emptiness, and the name listing agree with that set, two rulesets are equal exactly when their names agree in order, and the bidirectional length counts a rule and its present reverse once.",
  ["inputs", "histories"], "all sequences of operations on all rulesets",
  "Tests perform one or two operations on rulesets of two to four rules.",
  [E+"ruleset.rs"], [("Ruleset::{union,extend,add,add_all,remove_all,partition,contains,len,is_empty,to_str_vec,bidir_len}", E+"ruleset.rs")],
  observe=["public ruleset operations"])
p("C14", "Rule text means what it says",
  "A text of the form 'L ==> R', 'L => R' or 'L <=> R', with or without spaces around the separator, parses to the rule rewriting exactly L to R, plus the reverse rule exactly when the separator is '<=>'; text without a separator is an error. Each rule's name and printed form are 'L ==> R' of its own sides, its rewrite searches L and applies R, and a ruleset built from texts contains exactly the rules of its well-formed texts.",
  ["inputs"], "all rule texts over all languages",
  "Tests parse a few literal rules with standard spacing.",
  [E+"rule.rs", E+"ruleset.rs"], [("Rule::from_string / Rule::new / Display", E+"rule.rs"), ("Ruleset::new", E+"ruleset.rs")],
  observe=["parsed rules and rulesets"])
p("C15", "Compression merges exactly what saturation proved and adds nothing",
  "Running rules in compression mode returns an e-graph with no new e-class and no new e-node compared with the input, in which two original classes are equal if (and, up to congruence, only if) the saturation run on a copy made them equal. The input e-graph is not modified by any scheduling mode, no mode ever separates classes that were equal, and when the rules saturate within the limits all modes prove the same equalities between original classes.",
  ["inputs", "histories"], "all e-graphs, rulesets and limits",
  "Tests check one small example per scheduler; whether every proved equality is carried over depends on the whole partition of classes.",
  [E+"scheduler.rs"], [("Scheduler::run_internal, Compress arm", E+"scheduler.rs")],
  observe=["class counts and equalities of the returned e-graph"])
p("C16", "A derivability verdict is a proof, and derive partitions by it",
  "A rule is reported derivable exactly when its two sides are equal in the e-graph that the given rules reach, within the limits, from the initial side(s) alone: from the left side only in left mode, from both sides in left-and-right mode. Deriving one ruleset from another puts every rule of the target in exactly one of the two results according to that verdict, so the empty ruleset derives only syntactic identities.",
  ["inputs", "histories"], "all rulesets, target rules, modes and limits",
  "Tests check three or four rules on two hand-written rulesets.",
  [E+"ruleset.rs", E+"scheduler.rs"], [("Ruleset::can_derive / derive", E+"ruleset.rs"), ("Scheduler::run_derive", E+"scheduler.rs")],
  observe=["can_derive, derive"])
p("C17", "Merging e-class data joins information and reports change exactly",
  "When two classes with compatible data merge, the result has at each sample position the value either side knew, the smaller of the two representative terms, and the intersection of the intervals; incompatible sample values or disjoint intervals panic instead of being hidden. The merge reports whether the result differs from each side whenever it does, so merging is independent of order up to equal-size representatives and repeating it changes nothing.",
  ["inputs"], "all pairs of compatible class data",
  "No test merges class data directly; saturation runs only reach merges with few undefined entries.",
  [S+"language.rs", S+"lib.rs"], [("SynthAnalysis::merge", S+"language.rs"), ("Interval::new", S+"lib.rs")],
  observe=["Analysis::merge result and flags"])
p("C18", "Candidate search by sample vectors is exact",
  "The exact search proposes both directions of a rule for a pair of distinct e-classes if and only if their sample vectors agree wherever both are defined and both are defined somewhere in common; the fast search proposes exactly the pairs with identical, not entirely undefined sample vectors. Every proposed rule relates the smallest terms of its two classes under one common renaming of variables, and no qualifying pair is skipped.",
  ["inputs"], "all e-graphs with arbitrary sample vectors, including undefined entries",
  "Tests run whole domains where undefined entries are rare and where missed pairs merely reduce the number of learned rules.",
  [E+"ruleset.rs"], [("Ruleset::cvec_match", E+"ruleset.rs"), ("Ruleset::fast_cvec_match", E+"ruleset.rs"), ("Ruleset::add_from_recexprs", E+"ruleset.rs")],
  observe=["the returned candidates"])
p("C19", "Candidates from two e-graphs are exactly the newly proved equalities",
  "Comparing an e-graph with the result of running rules on it yields rule candidates relating the best allowed terms of exactly those distinct original classes that the second e-graph merged, in both directions. Terms containing operators not allowed in rules never appear, and pairs not newly merged yield no candidate.",
  ["inputs", "histories"], "all pairs of e-graphs related by a run, all allowed-operator predicates",
  "Tests cover one three-class example; exactness quantifies over all class partitions.",
  [E+"ruleset.rs", S+"lib.rs"], [("Ruleset::extract_candidates", E+"ruleset.rs"), ("ExtractableAstSize cost", S+"lib.rs")],
  observe=["the returned candidates"])
p("C20", "Rules apply soundly: correct instance, never through undefined values",
  "Applying a rule to a match adds the right-hand side instantiated with exactly that match's bindings and merges it with the matched class, provided neither class is undefined on all samples; when either is undefined nothing is merged. Validity of a rule is decided by the domain validator's definite 'valid' verdict on exactly its two sides.",
  ["inputs", "histories"], "all rules, e-graphs and matches",
  "No test applies a rule to an everywhere-undefined class or checks which class an instance landed in.",
  [E+"rule.rs", S+"language.rs"], [("Rhs::apply_one / apply_pat", E+"rule.rs"), ("Signature::is_defined", S+"language.rs"), ("Rule::is_valid", E+"rule.rs")],
  observe=["the e-graph after a run"])
p("C21", "Generalising and instantiating are inverse up to consistent renaming",
  "Generalising a term replaces each distinct variable by its own pattern variable, the same variable always by the same one across all terms sharing a renaming, with consecutive letters used for new variables, and leaves operators, constants and structure unchanged. Instantiating a pattern turns every pattern variable back into the variable of the same name and nothing else, so a rule generalised from two terms is those terms under one injective renaming.",
  ["inputs"], "all terms with up to 26 distinct variables, all patterns",
  "Tests only see generalisation through learned rule names with three or four variables.",
  [S+"language.rs", S+"util.rs", E+"ruleset.rs"], [("SynthLanguage::generalize / instantiate / to_enode_or_var", S+"language.rs"), ("letter", S+"util.rs"), ("Ruleset::add_from_recexprs", E+"ruleset.rs")],
  observe=["generalize, instantiate, candidate rules"])
p("C22", "Materialising a workload represents exactly its terms",
  "Turning a workload into an e-graph makes every denoted term present, adds nothing that is not a subterm of a denoted term or a variable of the workload, and merges only terms the class data already equates. Every variable of the workload is initialised exactly once, in order of first occurrence, before any other term is added.",
  ["inputs"], "all workloads over all domains",
  "Tests materialise fixed workloads and never check presence of each term or the initialisation order.",
  [E+"workload.rs"], [("Workload::to_egraph", E+"workload.rs")],
  observe=["lookups in the returned e-graph", "the variable list handed to the domain"])
p("C23", "Workloads and rulesets survive a round trip through a file",
  "Writing a workload to a file and reading it back yields the same terms in the same order, and writing a ruleset and reading it back yields a ruleset with the same rules in the same order. Writing replaces any previous content of the file.",
  ["inputs"], "all workloads of printable non-empty terms and all rulesets",
  "Two tests write one fixed workload and ruleset each.",
  [E+"workload.rs", E+"ruleset.rs", E+"sexp.rs"], [("Workload::to_file / from_file", E+"workload.rs"), ("Ruleset::to_file / from_file", E+"ruleset.rs"), ("Display for Sexp", E+"sexp.rs")],
  observe=["file contents and the re-read value"])
p("C24", "Logging appends without losing earlier records",
  "Each logged record is appended to the results file as the last element of its array, and all records already in the file are kept unchanged and in order; a missing or empty file is treated as an empty array. A file that is not a JSON array is never silently overwritten. The record is about what its logging function was given: its names and times, its rules as text, and which rules each set derives from the other with the deriving limits, under each way of deriving; a bit-vector record uses only the ported rules that are judged valid.",
  ["histories", "inputs"], "all sequences of logging calls and all prior file contents",
  "No test of the repository calls the logger.",
  [S+"logger.rs", S+"lib.rs", S+"util.rs"], [("add_json_to_file", S+"logger.rs"), ("write_baseline", S+"logger.rs"), ("write_bv_derivability", S+"logger.rs"), ("write_ff_phase", S+"logger.rs"), ("get_derivability", S+"logger.rs"), ("count_lines", S+"util.rs"), ("Phase", S+"lib.rs"), ("deriving", S+"lib.rs")],
  observe=["the results file after public logging calls"])
p("C25", "Rule scores order candidates by the documented criteria",
  "A rule's score ranks, in this order of importance, more distinct variables first, then fewer constants, then a smaller larger side, then a smaller total size, then fewer distinct operators, counting over both sides of the rule. The score depends only on the two patterns and is the same for a rule and its reverse.",
  ["inputs"], "all pairs of patterns",
  "No test inspects a score; a changed order only shifts which of several equivalent rules is learned.",
  [S+"language.rs"], [("SynthLanguage::score", S+"language.rs")],
  observe=["the score of a rule or pattern pair"])
p("C26", "Bitvector validation verdicts are sound",
  "Whenever the bitvector validator judges a rule valid, its two sides evaluate equally under every assignment of in-range values to its variables, and whenever it judges a rule invalid some assignment distinguishes the two sides; a timeout is neither. This holds at every width, including literals that need more than 64 bits.",
  ["inputs", "configurations"], "all rules over the bitvector operators, all widths",
  "Tests validate learned rules at fixed widths, none with wide literals, and never compare a verdict with the operators' semantics.",
  [S+"bv.rs"], [("impl_bv! validate / egg_to_z3", S+"bv.rs")],
  observe=["the validator's verdict"])
p("C27", "Representative terms and constants of e-classes stay faithful",
  "The data made for a new e-node carries a representative term that denotes that node with its children replaced by their own representatives, and its sample vector and interval are the domain's evaluation of the children's. A class whose interval pins a single value is merged with the constant node of exactly that value, and no other class is.",
  ["inputs", "histories"], "all e-nodes over all child data",
  "Tests run saturation end to end; the representative terms are never read back by any test.",
  [S+"language.rs"], [("SynthAnalysis::make", S+"language.rs"), ("SynthAnalysis::modify", S+"language.rs")],
  observe=["class data in an e-graph"])
p("C28", "Rule inference pipelines return only sound rules that are not already known",
  "Running inference on a workload returns only rules that pass the domain's validator and are not among the prior rules, learned from terms of the workload; with the fast-forwarding pipeline the returned rules also use only allowed operators. Recursive inference returns its prior rules together with everything learned at each smaller size.",
  ["inputs", "histories"], "all workloads, prior rulesets and limits",
  "Tests run the pipelines on a few recipes and compare counts or derivability with stored rulesets.",
  [S+"recipe_utils.rs", E+"ruleset.rs"], [("run_workload / run_fast_forwarding / recursive_rules", S+"recipe_utils.rs"), ("is_allowed_rewrite", S+"language.rs")],
  observe=["the returned ruleset"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
