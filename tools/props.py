#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here for readability)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})


p("S01", "The verdict is right and a reported model satisfies the formula",
  "For every set of clauses given to the solver, solving ends with SAT exactly when the formula is satisfiable and with UNSAT exactly when it is not. "
  "A SAT answer lists every variable of the formula once, in order, and the listed literals satisfy every clause that was given.",
  ["inputs"], "every CNF formula (list of integer clauses)",
  "the tests solve about ten hand-written formulas and a few sample files; one wrong inference on any other formula gives a wrong answer",
  ["src/solver/search.rs", "src/solver/mod.rs", "src/assign/stack.rs", "src/processor/simplify.rs"],
  [("solve: vivify, simplify, phase, eliminate, search, extend, validate", "src/solver/search.rs SolveIF::solve"),
   ("main loop", "src/solver/search.rs search"), ("model extension", "src/assign/stack.rs extend_model")],
  ["Certificate::try_from(vec)", "Solver::solve"])
p("S02", "Loading clauses keeps their meaning, by whichever route they come in",
  "After any sequence of clause and assumption insertions that succeed, the solver's clauses together with its top-level facts have exactly the models of the inserted formula; "
  "duplicates, tautologies, already true and already false literals, units and binaries make no difference to that. "
  "An insertion reports inconsistency only if the formula so far is unsatisfiable, and a literal that is zero or out of range is rejected with an error without changing anything.",
  ["inputs", "histories"], "every sequence of clauses over any literals, through every insertion API",
  "the tests insert a handful of fixed clauses; order-dependent simplification at insertion (sorting, dedup, false-literal removal) is never compared with the meaning of the input",
  ["src/solver/build.rs", "src/cdb/db.rs", "src/assign/propagate.rs"],
  [("add_clause / add_assignment / add_unchecked_clause", "src/solver/build.rs"), ("new_clause", "src/cdb/db.rs")],
  ["Solver::add_clause", "Solver::add_assignment", "Solver::try_from"])
p("S03", "Unit propagation is sound and complete",
  "Propagating after any sequence of decisions assigns only literals that follow from the clauses and the decisions, each with a recorded reason clause that was unit at that moment. "
  "If it reports no conflict, no clause is left falsified or unit; if it reports a conflict, the reported clause is falsified and belongs to the formula.",
  ["inputs", "histories"], "every formula, every sequence of decisions, normal and sandboxed propagation",
  "the unit tests check three fixed assignments; watch-list moves depend on the order of all earlier decisions",
  ["src/assign/propagate.rs", "src/cdb/db.rs", "src/cdb/watch_cache.rs"],
  [("propagate / propagate_sandbox with two watched literals and binary links", "src/assign/propagate.rs")],
  ["AssignIF::stack_iter", "AssignIF::assigned", "AssignIF::reason", "the result of propagate"])
p("S04", "Backtracking restores exactly the earlier state",
  "Backtracking to a level removes every assignment made above it and nothing else: the remaining trail, values, levels and reasons are as they were. "
  "Afterwards propagation is again sound and complete for whatever is decided next (including assignments replayed from before the backtrack), and every unassigned variable can still be selected as a decision.",
  ["inputs", "histories"], "every formula and every history of decisions (each made, as the search does, when nothing is left to propagate), conflicts and backjumps",
  "no test backtracks over propagated literals and goes on searching; replay of a saved trail depends on what happened since",
  ["src/assign/propagate.rs", "src/assign/trail_saving.rs", "src/assign/heap.rs"],
  [("cancel_until, backtrack_sandbox", "src/assign/propagate.rs"), ("save_trail / reuse_saved_trail", "src/assign/trail_saving.rs")],
  ["AssignIF", "PropagateIF::cancel_until", "VarSelectIF::select_decision_literal"])
p("S05", "Learning from a conflict is sound and makes progress",
  "Whenever propagation hits a conflict below which decisions exist, handling it adds only clauses and facts that follow from the formula, and backtracks to a lower level. "
  "Unless backtracking is deepened, exactly one new literal is then asserted there: its negation held at the conflicting level, the learnt clause forces it at that level, and at no lower one; a refutation is reported only if the formula is unsatisfiable.",
  ["inputs", "histories"], "every formula and every search history that leads to a conflict",
  "conflict analysis is reached only through whole solver runs whose answer hides most wrong learnt clauses",
  ["src/solver/conflict.rs", "src/cdb/db.rs"],
  [("handle_conflict, conflict_analyze, minimize_learnt", "src/solver/conflict.rs"), ("minimize_with_bi_clauses", "src/cdb/db.rs")],
  ["clauses of the database and the trail after handling a conflict"], hook="cfg(splr_verif) re-export of the conflict handler")
p("S06", "Variable elimination preserves satisfiability and models can be extended back",
  "Pre- and in-processing by variable elimination keeps the formula satisfiable if and only if it was, and reports a contradiction only if it is unsatisfiable. "
  "Every assignment that satisfies what remains is extended by the model reconstruction to one that satisfies every original clause, without changing the values of variables that were not eliminated.",
  ["inputs"], "every formula, every limit setting, every model of the simplified formula",
  "the tests run elimination only inside whole solver runs on a few formulas, and a wrong reconstruction shows only for particular models of the remainder",
  ["src/processor/eliminate.rs", "src/processor/simplify.rs", "src/assign/stack.rs"],
  [("eliminate_var, resolvents, eliminated literals", "src/processor/eliminate.rs"), ("extend_model", "src/assign/stack.rs")],
  ["Eliminator::simplify", "AssignIF::extend_model", "ClauseDBIF::validate"])
p("S07", "Subsumption and simplification under facts keep the formula equivalent",
  "Removing satisfied clauses, deleting falsified literals, and subsumption (with or without strengthening) leave a clause set that, together with the established facts, has exactly the same models as before. "
  "A contradiction is reported only if the formula is unsatisfiable, and afterwards no remaining clause mentions an established variable.",
  ["inputs"], "every formula and every set of established facts",
  "strengthening and fact propagation touch clauses in an order no test varies",
  ["src/processor/subsume.rs", "src/processor/simplify.rs", "src/cdb/db.rs", "src/assign/propagate.rs"],
  [("try_subsume / strengthen_clause", "src/processor/subsume.rs"), ("clear_asserted_literals / transform_by_simplification", "src/assign/propagate.rs, src/cdb/db.rs")],
  ["AssignStack::clear_asserted_literals", "Eliminator::simplify"])
p("S08", "Vivification keeps the formula equivalent",
  "Vivifying shortens or removes clauses only so that the clauses together with the established facts keep exactly the same models, and reports a contradiction only if the formula is unsatisfiable. "
  "It leaves no assignment behind other than established facts.",
  ["inputs"], "every formula with learnt and original clauses",
  "only runs on whole sample files; a clause shortened too far is invisible unless it flips the verdict",
  ["src/cdb/vivify.rs"],
  [("vivify / conflict analysis in the sandbox", "src/cdb/vivify.rs")], ["VivifyIF::vivify"])
p("S09", "Clause deletion never loses a clause the answer depends on",
  "Reducing or resetting the clause database (between restarts, with no decision made) deletes only learnt clauses of three or more literals, never a given one or a binary one, whatever the reduction mode and its parameters. "
  "When ordered by LBD it deletes none that is better than one it keeps; the clause counters match, and propagation stays sound and complete over the remaining clauses.",
  ["inputs", "configurations"], "every database of given and learnt clauses, every mode and threshold, every rank, activity and trail",
  "no test inspects which clauses a reduction removes",
  ["src/cdb/db.rs"], [("reduce", "src/cdb/db.rs")], ["ClauseDBIF::reduce", "ClauseDBIF::iter"])
p("S10", "The clause store stays coherent under every sequence of edits",
  "After any sequence of adding, deleting, shortening and reusing clauses, the live clauses are exactly those the operations say, each found from its literals by propagation in both directions, deleted ones take no part any more, and the clause counters match. "
  "Storing a binary clause twice keeps one copy, and slots of deleted clauses are reused without disturbing live ones.",
  ["histories", "inputs"], "every sequence of store operations with any clauses",
  "the tests add and remove one or two clauses; slot reuse and watch maintenance need interleavings",
  ["src/cdb/db.rs", "src/cdb/binary.rs", "src/cdb/watch_cache.rs"],
  [("new_clause, remove_clause, transform_by_elimination, transform_by_simplification, new_clause_sandbox", "src/cdb/db.rs")],
  ["ClauseDBIF", "propagate over the store", "derefer counters"])
p("S11", "The UNSAT certificate is a valid DRAT proof",
  "When proof output is on, a formula was loaded and `solve` answers UNSAT, the saved file is a DRAT refutation of the loaded clauses: every added clause has the reverse-unit-propagation or resolution-asymmetric-tautology property (first literal as pivot) at that point, only clauses that are present are deleted, and the empty clause is derived. "
  "With any verdict, no clause is added that breaks this.",
  ["inputs"], "every formula with proof output enabled",
  "the repository's checker test needs an external program and is skipped or covers one file",
  ["src/cdb/unsat_certificate.rs", "src/cdb/db.rs", "src/solver/conflict.rs", "src/processor/eliminate.rs"],
  [("certificate_add/remove calls at every clause edit", "src/cdb/db.rs"), ("CertificateStore", "src/cdb/unsat_certificate.rs")],
  ["the certificate file"])
p("S12", "The model validator accepts exactly the satisfying assignments",
  "Validating an assignment reports a violated clause if and only if the assignment falsifies one (an unassigned variable counts only in strict mode), and injecting an external assignment is rejected exactly when it contradicts established values. "
  "Injection of a partial or total assignment sets exactly the given literals.",
  ["inputs"], "every formula and every assignment",
  "tests validate two fixed assignments",
  ["src/solver/validate.rs", "src/cdb/db.rs"], [("inject_assignment / validate", "src/solver/validate.rs"), ("ClauseDB::validate", "src/cdb/db.rs")],
  ["ValidateIF::inject_assignment", "ValidateIF::validate"])
p("S13", "A formula built step by step is solved like one given at once",
  "Variables, clauses and assumptions added one by one to a solver before it is run (starting from an empty or a loaded formula) give the verdict of the formula they amount to, and a model that covers every variable, added ones included. "
  "Every insertion is accepted exactly as far as the variables known at that moment allow.",
  ["histories", "inputs"], "every sequence of add_var, add_clause and add_assignment before solving",
  "the tests add clauses to one or two fixed formulas and never add a variable before solving",
  ["src/solver/build.rs", "src/solver/search.rs", "src/assign/stack.rs"],
  [("add_var, add_clause, add_assignment", "src/solver/build.rs"), ("instantiation of the eliminator at solve", "src/solver/search.rs")],
  ["Solver::add_var, add_clause, add_assignment, solve"])
p("S14", "Reading DIMACS gives the formula in the file, or an error",
  "For every well-formed DIMACS CNF file (comments, blank lines, any spacing, clauses spread over lines or several to a line, a last clause without its 0, an end mark %) the solver holds the formula of the file, and the declared number of variables. "
  "A malformed file (no header, bad header, a token that is no number, a literal out of range) leads to an error result, never to a crash or to a different formula being accepted silently.",
  ["inputs"], "every byte content of a file",
  "tests read a few well-formed sample files",
  ["src/types/cnf.rs", "src/solver/build.rs"], [("CNFReader", "src/types/cnf.rs"), ("inject / build", "src/solver/build.rs")],
  ["Solver::build", "Solver::try_from(path)"])
p("S15", "Writing and re-reading a CNF keeps it the same formula",
  "A CNF value built from clauses (of nonzero literals) and saved or displayed as DIMACS reads back as the same set of clauses with the same header counts, and building it never changes which assignments satisfy it. "
  "Adding clauses reports unsatisfiability, redundancy or success truthfully, and loading a file that is not DIMACS is an error, never a crash.",
  ["inputs"], "every list of clauses",
  "the tests of this module print and compare one example",
  ["src/cnf/mod.rs"], [("CNF::add_clause, load, save, Display", "src/cnf/mod.rs")], ["cnf::CNF"])
p("S16", "Literal and clause-identifier encodings are faithful",
  "Converting a literal between its integer form, internal form, variable and sign loses nothing: every conversion is the inverse of its counterpart, negation is an involution that flips exactly the sign, and ordering and hashing keys of distinct literals differ. "
  "Encoded clause identifiers, reserved values and lifted literals never collide.",
  ["inputs"], "every 32-bit value that is a literal (magnitude up to 2^30-1)", "a test converts a few small literals; the encodings have reserved bit patterns",
  ["src/types/lit.rs", "src/types/clause.rs", "src/types/idx.rs"], [("From conversions, Not, vi", "src/types/lit.rs"), ("ClauseId", "src/types/clause.rs")], ["Lit, ClauseId conversions"])
p("S17", "Every unassigned variable stays selectable, best first",
  "The decision order never loses or duplicates a variable: after any sequence of selecting, inserting, removing, activity updates, backtracking and rebuilding, selecting repeatedly yields every unassigned, non-eliminated variable exactly once and never an assigned one. "
  "After a rebuild, variables come out in order of non-increasing activity.",
  ["histories"], "every sequence of decision-order operations and every activity assignment",
  "one test checks one heap with fixed activities",
  ["src/assign/heap.rs", "src/assign/select.rs", "src/assign/stack.rs"], [("VarIdHeap", "src/assign/heap.rs"), ("select_decision_literal / rebuild_order", "src/assign/select.rs")],
  ["VarSelectIF::select_decision_literal"])
p("S18", "Restart stages follow the Luby sequence and always move on",
  "The stage scales follow the Luby sequence for every index, cycles and segments begin exactly where the sequence returns to one or reaches a new maximum, and each stage ends after finitely many conflicts. "
  "The number of stages, cycles and the current span reported are consistent with each other at every step.",
  ["inputs", "histories"], "every index and every number of stages passed", "a test compares a few first values",
  ["src/types/luby.rs", "src/solver/stage.rs"], [("LubySeries", "src/types/luby.rs"), ("StageManager", "src/solver/stage.rs")], ["LubySeries::next, StageManager"])
p("S19", "No configuration changes the verdict",
  "Whatever the tuning options (elimination limits, vivification, restart and reduction parameters, phases, quiet mode), the verdict of a formula is the same and a reported model satisfies it. "
  "An option only affects the time and the amount of preprocessing.",
  ["configurations", "inputs"], "every formula with every configuration of the public options",
  "the tests use the default configuration only",
  ["src/config.rs", "src/solver/search.rs", "src/processor/simplify.rs"], [("Config fields read during solve", "src/config.rs")], ["Solver::try_from((Config, ..)), solve"])
p("S20", "In-processing may run at any moment of the search",
  "A stage end (restart and simplification under facts, then any combination of clause reduction, vivification and elimination) may come after any decision or conflict of a search, any number of times. "
  "The clauses, facts and recorded eliminations keep the satisfiability of the formula, and the search goes on to the right verdict; no step leaves a reference to a deleted clause.",
  ["schedules", "histories", "inputs"], "every interleaving of the search steps on every formula",
  "in real runs in-processing happens only after thousands of conflicts, at moments fixed by the heuristics; the tests are too short to reach most combinations",
  ["src/solver/search.rs", "src/cdb/db.rs", "src/assign/trail_saving.rs", "src/processor/simplify.rs"],
  [("stage end: restart, clear_asserted_literals, reduce, vivify, simplify", "src/solver/search.rs search")],
  ["ClauseDB, AssignStack, Eliminator between steps"], hook="cfg(splr_verif) re-export of the conflict handler")
p("S21", "The library never crashes on hostile input",
  "Calls of the public solver API with arbitrary integers (zero, out-of-range and extreme literals, empty clauses, oversized declared counts) return a value or an error: no panic, no out-of-bounds access, no endless loop. "
  "After an error the solver can still be used or dropped safely.",
  ["inputs", "histories"], "every argument of the public API calls and every short sequence of them",
  "the tests pass one zero literal",
  ["src/solver/build.rs", "src/solver/validate.rs", "src/types/lit.rs", "src/assign/stack.rs"], [("range checks at insertion", "src/solver/build.rs")],
  ["Solver::add_clause, add_assignment, inject_assignment, try_from"])
p("S22", "The splr program reports its verdict consistently everywhere",
  "For every formula file and every combination of output options, the program exits with 10 only if the formula is satisfiable and with 20 only if it is not; the s line on the terminal, the s line in the result file "
  "(by default ans_<name>, or the one given, or the standard output) and the exit status agree, whatever the result file held before. A satisfiable formula's result has one v line: every variable once, ending in 0, satisfying every clause. "
  "With --certify an unsatisfiable formula, even one refuted while it is read, leaves a complete proof in the requested file. A run out of time says UNKNOWN and exits with 0; unusable files and missing arguments get no verdict, and the formula's file is never changed. With --quiet the terminal shows nothing but the verdict (and where the proof is), with --no-color no colours.",
  ["inputs", "configurations"], "every formula file, every combination of the result, proof, directory, quiet and colour options, every earlier content of the result file",
  "no test runs the program; the result path differs for formulas refuted at load, for stdout, for timeouts",
  ["src/bin/splr.rs", "src/config.rs", "src/solver/build.rs", "src/cdb/unsat_certificate.rs"],
  [("main, save_result", "src/bin/splr.rs"), ("inject_from_args", "src/config.rs"), ("inject", "src/solver/build.rs")],
  ["exit status, standard output, result file, proof file of splr"])
p("S23", "The dmcr program accepts an assignment only if it is a model",
  "Given a formula file and a result file, dmcr prints 'A valid assignment set' only if the literals of the file's v line do not contradict each other or the formula's own facts and every total assignment that agrees with them satisfies the formula. "
  "It does say so for every consistent total list of literals that satisfies all clauses, in particular for every result written by splr.",
  ["inputs"], "every formula file and every list of literals or corrupted result file",
  "no test runs the program",
  ["src/bin/dmcr.rs", "src/solver/validate.rs"],
  [("main, read_assignment", "src/bin/dmcr.rs"), ("inject_assignment, validate", "src/solver/validate.rs")],
  ["standard output of dmcr"])
p("S24", "Command-line options set what they document and nothing else",
  "Each documented option, short or long, alone or in any sequence with others, sets exactly its field of the configuration to exactly the given value; the later of two settings counts, and all other fields keep their defaults. "
  "Unknown names, values that are not numbers or do not fit, and missing values are refused; the value of an option is never taken for the formula's file.",
  ["inputs", "configurations"], "every command line built from the documented options, and every other option name and value",
  "no test passes arguments",
  ["src/config.rs"],
  [("inject_from_args", "src/config.rs")],
  ["Config after inject_from_args", "exit or panic instead"])
p("S25", "The time limit is respected, to the fraction of a second",
  "A run gives up with TimeOut only if at least the configured number of seconds (a real number) has passed since the solver was made, and otherwise its verdict is right whatever the clock does. "
  "Once the limit has passed, the search does not begin another stage.",
  ["configurations", "schedules"], "every limit and every behaviour of a clock that does not go backwards",
  "a test would need runs as long as the limit, on a machine of known speed",
  ["src/state.rs", "src/solver/search.rs", "src/processor/simplify.rs"],
  [("elapsed, is_timeout", "src/state.rs"), ("stage end", "src/solver/search.rs search")], ["Solver::solve", "StateIF::elapsed", "StateIF::is_timeout"])
p("S26", "Dumping the state as a CNF file keeps its meaning",
  "At any moment between calls (after clauses, assumptions and variables were added, after a run that found a model or ran out of time) dump_cnf writes a well-formed DIMACS file with as many variables and clauses as its header says, "
  "whose models are exactly those of the formula the solver was given. Once variables were eliminated, it speaks of the remaining ones only, and exactly those assignments of these satisfy it which can be extended to a model.",
  ["inputs", "histories"], "every formula and every history of insertions and runs",
  "nothing tests it",
  ["src/cdb/db.rs", "src/solver/build.rs"],
  [("dump_cnf", "src/cdb/db.rs")], ["the file written by Solver::dump_cnf"])
p("S27", "Cargo features change the strategy, never the answer",
  "Built with any working combination of the optional cargo features (bi_clause_completion, stochastic_local_search, just_used, assign_rate, no_IO added; trail_saving, BT_deepen, "
  "dynamic_restart_threshold, reason_side_rewarding, reward_annealing, two_mode_reduction, clause_elimination, clause_vivification added or left out), the solver does not panic, answers SAT exactly when "
  "the formula is satisfiable, with a model that satisfies every clause and lists every variable, and UNSAT exactly when it is not; clauses derived by a feature follow from the formula. "
  "A local search reports the number of clauses its start and its final assignment falsify and changes nothing but that assignment.",
  ["inputs", "configurations"], "every formula and every combination of these features",
  "the tests run with the default features only",
  ["src/cdb/db.rs", "src/cdb/sls.rs", "src/solver/search.rs", "src/solver/conflict.rs", "src/assign/select.rs", "Cargo.toml"],
  [("complete_bi_clauses", "src/cdb/db.rs"), ("stochastic_local_search", "src/cdb/sls.rs"), ("cancel_until without trail saving", "src/assign/propagate.rs"),
   ("stage ends", "src/solver/search.rs search")],
  ["Solver::solve", "StochasticLocalSearchIF::stochastic_local_search"])
p("S28", "The reported counts are the real counts",
  "At every step of a run the numbers of all, fixed, eliminated, remaining and unassigned variables and of all, binary, removable (learnt) and permanent clauses which the solver keeps and reports "
  "equal the numbers of such variables and clauses there are, and the numbers of conflicts and decisions grow by one with each of them and never otherwise outside in-processing. "
  "The progress record shows the same numbers, with and without output on the screen, and no count wraps around.",
  ["histories", "inputs"], "every formula and every sequence of search steps, in-processing and additions",
  "the tests look at one or two counters after one run",
  ["src/assign/stack.rs", "src/assign/propagate.rs", "src/assign/mod.rs", "src/cdb/db.rs", "src/cdb/mod.rs", "src/processor/subsume.rs", "src/state.rs"],
  [("derefer of Tusize", "src/assign/mod.rs, src/cdb/mod.rs"), ("updates of num_*", "src/cdb/db.rs, src/assign/propagate.rs, src/assign/stack.rs"),
   ("record_stats, progress", "src/state.rs")],
  ["PropertyDereference::derefer", "StateIF::progress", "State indexed by LogUsizeId"])
p("N03", "Solving always ends",
  "On every formula the search ends with a verdict after finitely many conflicts when no time limit is set. "
  "Restarts and clause deletion never make it repeat the same work for ever.",
  ["inputs", "schedules"], "every formula", "a test can only wait",
  ["src/solver/search.rs", "src/solver/stage.rs", "src/cdb/db.rs"], [("search loop, growing stages", "src/solver/search.rs")], ["Solver::solve"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
