#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and the checks present."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("interprocedural effect analysis of parallel regions (sharing, slots, locks, reductions)",
         "Every access of every parallel region is classified from summaries of the whole call graph; a shared unguarded write is reported with its call path. Trusts that standard streams, atomics and const container members are synchronised; disjointness of FactorTable's intervals is decided by the tiling rules."),
 "C02": ("global value numbering of loop nests, tiling obligations over closed forms",
         "The intervals, segments and windows of every worker, sieve and iterator are compared as value-numbered terms with the tiling equations; random interpretation only separates terms whose normal forms differ. Unrecognised loop shapes are reported as undecided in the evidence, not as holding."),
 "C03": ("value numbering of recombination loops, typestate of correction terms, reduction lint", "Accumulator updates are compared as value-numbered terms with the required recurrences."),
 "C04": ("interprocedural effect analysis: global state, iterator state, initialisation dominance", "Writes to process-wide state are enumerated over the whole call graph of every computing entry point."),
 "C05": ("constant-table verification on the type-checked program", "Every entry of every table is read from the compiler's evaluated initialiser and recomputed from its definition."),
 "C06": ("value graphs with explicit integer conversions, decided at type and limit boundaries", "The value and path condition with which a number reaches its destination are extracted from the source and decided at every boundary of the types and limits involved."),
 "C07": ("value-width analysis over the syntax tree (backward additive slice, least fixpoint of bit widths, guard dominance)", "Every expression, variable, field and container element that flows additively into a computed sum gets a bound on its bits; it must be computed, stored and converted in a type of that many bits, and numbers may be handed to narrower implementations only under a test that bounds them."),
 "C08": ("value graph of option tables and dispatch code", "Option tables, parser and dispatcher are read off the type-checked program and compared with the help text."),
 "C09": ("exception-flow analysis over the call graph", "Throw sites, handlers, parallel regions, destructors and no-throw functions are related over the whole call graph."),
 "C10": ("structural and value-graph rules over the expression evaluator", "Operator table, precedence comparison, overflow checks and error exits of both evaluators."),
 "C11": ("effect analysis of output streams with control dependence", "Every write to standard output reachable from a computation must depend on its enabling flag."),
 "C12": ("value numbering of setters and derived settings with range obligations", "Setters and derived values are compared as value-numbered terms with their clamping specification."),
 "C13": ("exception and pairing analysis of the C interface", "Every C function that may throw must be enclosed by a handler with the documented error result."),
 "C14": ("constant and value-graph agreement of k-tuplet selectors", "Flags, counters, patterns and entry points are compared index by index."),
 "C15": ("bit-field capacity and bucket-protocol dataflow", "Every store into bucket storage must be followed by the full test before the next store; packing must be invertible."),
 "C16": ("saturation lint and value graph of 64-bit interval arithmetic", "Every addition that can pass 2^64-1 on user-controlled interval ends must be saturating or guarded."),
 "C17": ("value-graph comparison of every implementation's per-iteration contributions with the defining formula", "Contributions of loops are value-numbered and compared by random interpretation; a term is reported only if it is made of the words of the formula and differs from it."),
 "C18": ("carry-propagation and case analysis of 256-bit operators on the value graph", "Operators are value-numbered per 128-bit half and compared with the required limb equations."),
 "C19": ("ownership analysis of allocation and release sites", "Each allocation site must reach exactly one owner or release on every path."),
}
NA = {
 "C90": "Exactness of the final sum is a statement about number theory over unbounded runtime values; static analysis decides its structural ingredients (C02, C03, C05, C07, C17) but no sound static argument in reach bounds the whole computation.",
 "C91": "Termination within a useful time and load balance depend on measured run times and on runtime quantities; no static argument in reach bounds them.",
 "C92": "Exactness of roots taken through floating point depends on the rounding of sqrt/pow for every 64- and 128-bit argument, which needs a solver or proof over floating point semantics, not a dataflow argument.",
}
checks = []
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
na = []
for p in props:
    if p in T and os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                           evidence_file="evidence/%s.json" % p, technique=T[p][0], level="other", level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Static analysis of /repo's current sources: tool/facts.cpp (clang 18 libTooling) extracts the type-checked program; lib/ holds the analyses; checks/ the rules. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
