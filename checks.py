"""What each check executes, and within which bounds."""

COMMON = [
    "the LLVM IR emitted by rustc 1.99.1 (opt-level 1, debug assertions and overflow checks on) has the meaning of the source; "
    "optimised builds are only run to replay counterexamples",
    "the symbolic executor (/verif/symex) and Z3 4.8.12 are correct; sampled paths are re-run natively on every run and must "
    "produce the same trace",
    "allocation never fails; time, environment and standard output are stubbed (fixed clock, output discarded)",
]
DEF = "default cargo features of splr (others: S27); x86-64 layout"


def E(name, quick, bounds, thorough=None, **k):
    d = {"name": name, "quick": quick, "bounds": bounds}
    if thorough:
        d["thorough"] = thorough
    d.update(k)
    return d


CHECKS = {
    "S01": {
        "feature": "e2e,mix",
        "bounds": "whole runs (load, vivify, eliminate, search, extend, validate) on every formula of 3 arbitrary clauses (2,2,2 over 2 "
                  "variables; 3,2,1 over 3), 5 binary clauses over 3 variables, up to 7 three-literal clauses over 4 variables, and "
                  "pigeon-hole formulas with an arbitrary binary clause",
        "outside": "larger formulas; runs that reach a stage end of the search by themselves (32 conflicts) - their steps are decided in S20",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_e2e_any222", 20, "three arbitrary clauses of 2 literals over 2 variables", reach=[1, 2]),
            E("h_e2e_any321", 30, "three arbitrary clauses of 3, 2, 1 literals over 3 variables", reach=[1, 2]),
            E("h_e2e_b5", 30, "five binary clauses over 3 variables", reach=[1, 2]),
            E("h_e2e_t3", 20, "three-literal clauses over 3 variables", reach=[1, 2]),
            E("h_e2e_php", 30, "pigeon hole formula with an arbitrary binary clause", reach=[1, 2]),
            E("h_e2e_skel", 30, "64 formulas of 18-26 clauses over 7 variables, any of 7 signs", reach=[1, 2]),
            E("h_e2e_skel5", 30, "64 formulas of longer clauses over 8 variables, any of 7 signs", reach=[1]),
            E("h_e2e_skel_x", 100, "512 formulas of 20-29 clauses over 8 variables, any of 8 signs", 600, thorough_only=True),
            E("h_mix_r20e", 30, "pseudo-random 3-SAT of 20 variables with arbitrary signs, in-processing every other conflict", reach=[1, 2, 10, 11, 12]),
            E("h_e2e_t4", 60, "seven 3-literal clauses over 4 variables", 600, thorough_only=True),
        ],
    },
    "S02": {
        "feature": "load",
        "bounds": "sequences of 3 insertions (clauses of 1-3 literals, assumptions) with any literals over 2-3 variables; one arbitrary "
                  "32-bit literal through every insertion call",
        "outside": "longer clauses and sequences",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_load_221", 20, "clauses of 2, 1, 2 arbitrary literals over 2 variables", reach=[1]),
            E("h_load_3x", 40, "clauses of 1, 3, 2 arbitrary literals over 3 variables", 120, reach=[1]),
            E("h_load_mix", 30, "three clauses or assumptions in any order over 2 variables", reach=[1]),
            E("h_load_vec", 30, "three clauses of 3, 2, 1 literals through the constructor", reach=[1]),
            E("h_load_5", 30, "a clause of any five literals over 2 variables, after a fact", reach=[1]),
            E("h_load_skel", 30, "64 sequences of 7 clauses (1-6 literals, repetitions and opposites included) over 6 variables, any two literals", reach=[1]),
            E("h_load_skelv", 40, "32 formulas of 8 such clauses through the constructor", reach=[1]),
            E("h_load_bad", 20, "any 32-bit integer as a literal", reach=[1, 2]),
            E("h_load_mix3", 60, "three clauses or assumptions in any order over 3 variables", 200, reach=[1], thorough_only=True),
        ],
    },
    "S03": {
        "feature": "prop",
        "bounds": "formulas of 2-3 clauses (2-5 literals each) over 4-6 variables, every choice of variables and signs; every "
                  "sequence of up to 4 decisions (5 in thorough), normal and sandboxed propagation; one clause of 65544 literals",
        "outside": "longer clauses, more clauses and variables (up to renaming: the first clause uses variables 1..k, first decisions positive)",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_prop_233", 20, "clauses of 2, 3, 3 literals over 4 variables, 2 decisions", reach=[1]),
            E("h_prop_42", 15, "clauses of 4 and 2 literals over 4 variables, 4 decisions", reach=[1]),
            E("h_prop_333", 30, "three 3-literal clauses over 4 variables, 3 decisions", 120, reach=[1]),
            E("h_sandbox_23", 30, "sandboxed propagation, twice, 4- and 2-literal clauses over 4 variables", 120),
            E("h_prop_walk", 30, "128 formulas of 14 clauses (2-5 literals) over 9 variables with histories of 12 moves, any of 4 signs", reach=[1, 2, 3]),
            E("h_prop_walk2", 30, "128 formulas of longer clauses over 12 variables", reach=[1, 2, 3]),
            E("h_prop_huge", 50, "a clause of 65544 literals, falsified down to any of the last 15 in 4 orders; built without debug assertions", reach=[1],
              build="lean", opts={"max-steps": 500000000}),
            E("h_prop_walk_x", 60, "1024 formulas of 16 clauses over 10 variables", 300, thorough_only=True),
            E("h_prop_52", 40, "5- and 2-literal clauses over 5 variables, 4 decisions", 200, thorough_only=True),
            E("h_prop_62", 40, "6- and 2-literal clauses over 6 variables, 5 decisions", 300, thorough_only=True),
        ],
    },
    "S04": {
        "feature": "bt",
        "bounds": "formulas of 1-2 clauses (2-5 literals) over 4-5 variables; every sequence of up to 3-5 decisions, every backjump "
                  "level, then up to 2 further symbolic decisions and the solver's own decisions until all variables are assigned",
        "outside": "more than one symbolic backjump before completion (two occur when the continuation conflicts); larger formulas",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_bt_33", 25, "two 3-literal clauses over 4 variables, 3+1 decisions", 60, reach=[1, 2, 3]),
            E("h_bt_22", 40, "two binary clauses over 5 variables, 4+1 decisions", 120, reach=[1, 2, 3]),
            E("h_bt_long", 40, "one 5-literal clause, falsified from any side, backjump, falsified again in any order", 60, reach=[1]),
            E("h_bt_walk", 30, "128 formulas of 10 clauses over 9 variables with histories of 16 decisions and backjumps, any of 4 signs", reach=[1, 2, 3]),
            E("h_bt_walk2", 30, "128 formulas of longer clauses over 12 variables, 24 moves", reach=[1, 2, 3]),
            E("h_bt_saved", 60, "256 formulas of 12 binary and 6 ternary clauses over 12 variables, 24 moves: literals that were true before the backjump are decided again, or their negations", 100, reach=[1, 2, 4]),
            E("h_bt_saved_x", 60, "1024 formulas of 34 clauses over 20 variables, 40 moves", 300, reach=[1, 2, 4], thorough_only=True),
            E("h_bt_walk_x", 60, "1024 formulas of 12 clauses over 10 variables, 24 moves", 300, thorough_only=True),
            E("h_bt_long6", 60, "the same for 6 literals (fixed signs)", 300, reach=[1], thorough_only=True),
            E("h_bt_42", 40, "4- and 2-literal clauses over 4 variables, 3+2 decisions", 120, thorough_only=True),
            E("h_bt_5", 40, "one 5-literal clause over 5 variables, 5+2 decisions", 120, thorough_only=True),
            E("h_bt_233", 40, "clauses of 2, 3, 3 literals over 4 variables, 3+1 decisions", 300, thorough_only=True),
        ],
    },
    "S05": {
        "feature": "conflict",
        "bounds": "formulas of 2-5 clauses (2-9 literals) over 3-10 variables, decisions in variable order, up to 2-6 conflicts in a row",
        "outside": "larger formulas and longer runs; chronological backtracking (feature off)",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_cf_223", 20, "all formulas with clauses of 2, 2, 3 literals over 4 variables, 3 conflicts", reach=[3, 4, 6]),
            E("h_cf_2222", 20, "all formulas of four binary clauses over 3 variables, 6 conflicts", reach=[1, 3, 6]),
            E("h_cf_233", 20, "clauses of 2, 3, 3 literals over 4 variables, 2 conflicts", reach=[3, 4, 6]),
            E("h_cf_333", 20, "three 3-literal clauses over 4 variables, 2 conflicts", reach=[4, 6]),
            E("h_cf_chain", 40, "a fixed implication chain and two arbitrary 3-literal clauses over 7 variables", 200, reach=[3, 4, 6]),
            E("h_cf_deep", 20, "learnt clauses over 8 levels (deepened backtracking), an arbitrary 3-literal clause, 10 variables", reach=[4, 5, 6]),
            E("h_cf_wide", 20, "5-literal clauses and two arbitrary binary clauses over 6 variables", reach=[3, 4, 6]),
            E("h_cf_skel", 40, "256 formulas of 28 clauses over 9 variables, any of 5 signs, 10 conflicts", reach=[1, 3, 4, 6]),
            E("h_cf_skel2", 40, "256 formulas of clauses of 2-4 literals over 10 variables", reach=[1, 3, 4, 6]),
            E("h_cf_graph", 40, "128 implication graphs over 9 variables, any clash of three", reach=[3, 4, 6]),
            E("h_cf_graph_long", 20, "16 graphs of 59 implications on 3 levels, any two variables clashing", reach=[4]),
            E("h_cf_graph4", 40, "64 implication graphs over 12 variables, any clash of three", reach=[3, 4, 6]),
            E("h_cf_graph_x", 100, "1024 implication graphs over 11 variables", 600, thorough_only=True),
            E("h_cf_skel_x", 100, "1024 formulas of 36 clauses over 12 variables, 16 conflicts", 600, thorough_only=True),
        ],
    },
    "S06": {
        "feature": "elim",
        "bounds": "formulas of 1-4 clauses (1-4 literals) over 3-5 variables; any limits; one or two rounds; every model of the remainder",
        "outside": "larger formulas; the interruption of elimination by a time limit",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_elim_2222", 30, "four binary clauses over 3 variables", reach=[1, 2, 3]),
            E("h_elim_233", 20, "clauses of 2, 3, 3 literals over 4 variables", reach=[2]),
            E("h_elim_one", 20, "one variable with up to 6 clauses", reach=[2]),
            E("h_elim_unit", 30, "binary and 3-literal clauses and a fact", reach=[1, 2, 3]),
            E("h_elim_learnt", 20, "with learnt clauses", reach=[2]),
            E("h_elim_limits", 40, "any limits", reach=[2]),
            E("h_elim_twice", 20, "two rounds with clauses added in between", reach=[2, 3]),
            E("h_elim_skel", 20, "64 formulas of 9 clauses over 6 variables, any of 5 signs", reach=[2, 3]),
            E("h_elim_skel4", 20, "64 formulas of 10 longer clauses over 7 variables", reach=[2, 3]),
            E("h_elim_skel_x", 60, "512 formulas of 13 clauses over 8 variables", 300, thorough_only=True),
            E("h_elim_333", 40, "three 3-literal clauses over 4 variables", 200, reach=[2], thorough_only=True),
        ],
    },
    "S07": {
        "feature": "simp",
        "bounds": "formulas of 2-4 clauses (2-4 literals) over 3-5 variables with up to 2 facts; subsumption and strengthening of every pair",
        "outside": "larger formulas",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_simp_facts", 40, "clauses under two arbitrary facts", 120, reach=[1, 2]),
            E("h_simp_facts3", 20, "longer clauses under facts", reach=[2]),
            E("h_simp_sub", 20, "subsumption among short clauses", reach=[2]),
            E("h_simp_sub3", 20, "subsumption among longer clauses", reach=[2]),
            E("h_simp_str", 40, "strengthening down to facts", reach=[1, 2]),
            E("h_simp_learnt", 20, "with learnt clauses", reach=[2]),
            E("h_simp_learnt2", 20, "a learnt clause subsumes the clauses it stems from", reach=[2]),
            E("h_simp_skel", 20, "128 formulas of 9 clauses over 5 variables with learnt clauses and facts, any of 4 signs", reach=[1, 2]),
            E("h_simp_skel5", 20, "128 formulas of 10 longer clauses over 6 variables", reach=[1, 2]),
            E("h_simp_skel_x", 60, "1024 formulas of 11 clauses over 6 variables", 300, thorough_only=True),
        ],
    },
    "S08": {
        "feature": "viv",
        "bounds": "formulas of 3-7 clauses (2-5 literals) over 3-6 variables, given and learnt, with up to one waiting fact; one round",
        "outside": "larger formulas; the give-up limit of a round",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_viv_2233", 20, "clauses of 2, 2, 3 literals over 3 variables", reach=[2]),
            E("h_viv_2223", 30, "clauses of 2, 2, 2, 3 literals over 3 variables", reach=[2]),
            E("h_viv_333", 30, "three 3-literal clauses over 4 variables", reach=[2]),
            E("h_viv_42", 20, "clauses of 4, 2, 2 literals over 4 variables", reach=[2]),
            E("h_viv_433", 30, "clauses of 4, 3, 3 literals over 4 variables", reach=[2]),
            E("h_viv_learnt", 20, "given and learnt clauses with common beginnings", reach=[2]),
            E("h_viv_chain", 30, "a 5-literal clause over implications", reach=[2]),
            E("h_viv_fact", 20, "a fact waiting to be propagated", reach=[2]),
            E("h_viv_refute", 20, "short clauses and a fact, refutable", reach=[1, 2]),
            E("h_viv_skel", 20, "128 formulas of 10-15 clauses over 7 variables with learnt clauses, any of 4 signs", reach=[2]),
            E("h_viv_skel5", 20, "128 formulas of 14-19 longer clauses over 9 variables", reach=[2]),
            E("h_viv_skel_x", 60, "1024 formulas of 12-17 clauses over 8 variables", 300, thorough_only=True),
        ],
    },
    "S09": {
        "feature": "reduce",
        "bounds": "databases of 3-7 clauses (2-8 literals) over 8-10 variables, with up to two facts; all four modes with their parameters; any of three activities",
        "outside": "larger databases; activities other than 0, 0.5, 1 (in combination with every level structure)",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_reduce_modes", 20, "fixed clauses, any level structure, all modes", reach=[1, 2]),
            E("h_reduce_ranks", 40, "three clauses of any length, given or learnt", 120, reach=[1, 2]),
            E("h_reduce_facts", 40, "two variables fixed before the reduction, any of 8 level structures", reach=[1, 2]),
            E("h_reduce_reset", 20, "all learnt clauses deleted by reset, then two more clauses and a reduction", reach=[1, 2]),
            E("h_reduce_flags", 20, "any activities", reach=[1, 2]),
            E("h_reduce_again", 20, "clauses added after a first reduction", reach=[1, 2]),
            E("h_reduce_search", 20, "clauses learnt in 32 searches of 9 conflicts over 24 variables, any of 3 signs, all modes", reach=[1, 2]),
            E("h_reduce_search_x", 60, "256 searches", 300, thorough_only=True),
        ],
    },
    "S10": {
        "feature": "db",
        "bounds": "2-3 arbitrary edits (add, delete, shorten any clause of up to 3 literals) on stores of up to 4 clauses over 3-5 variables; "
                  "simplification under 2 facts; then propagation under every choice of decision signs",
        "outside": "longer edit sequences and clauses",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_db_ops2", 40, "two arbitrary edits", 120, reach=[1, 2, 3]),
            E("h_db_ops3", 60, "three arbitrary edits with binary clauses", 200, reach=[1, 2, 3], thorough_only=True),
            E("h_db_shrink", 20, "a clause shortened down to two literals", reach=[2, 3]),
            E("h_db_fact", 20, "clauses simplified under two facts", reach=[4, 5]),
            E("h_db_reuse", 40, "slots of one or two deleted clauses used again", 120, reach=[1, 3]),
            E("h_db_sandbox", 20, "temporary clauses", reach=[1, 3]),
            E("h_db_walk", 20, "128 sequences of 14 edits over 5 variables, any of 3 signs", reach=[1, 2, 3]),
            E("h_db_walk7", 20, "96 sequences of 20 edits with clauses up to 7 literals, any of 2 signs", reach=[1, 2, 3]),
            E("h_db_walk_x", 60, "1024 sequences of 24 edits over 6 variables", 300, thorough_only=True),
        ],
    },
    "S11": {
        "feature": "drat",
        "bounds": "whole runs with proof output on: binary clauses over 2-3 variables, 3-literal clauses over 3-4 variables, facts (all signs of the "
                  "symbolic clauses), pseudo-random 3-SAT formulas of 10-30 variables with two clauses of arbitrary signs and stage ends every 1-2 "
                  "conflicts; the file is checked line by line (RUP, or RAT on the first literal) by an independent checker",
        "outside": "larger formulas; formulas refuted while loading (no solver is returned; unit propagation alone refutes them); the flush of the "
                   "file when a program is killed",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_drat_b", 20, "binary clauses", reach=[1, 2, 4]),
            E("h_drat_t3", 20, "3-literal clauses over 3 variables", reach=[1, 2, 4]),
            E("h_drat_t4", 20, "3-literal clauses over 4 variables", reach=[2, 4]),
            E("h_drat_units", 20, "facts and binary clauses", reach=[1, 2, 3, 4]),
            E("h_drat_r10", 40, "10 variables, in-processing after every conflict", reach=[1, 2, 4]),
            E("h_drat_r20", 30, "20 variables, in-processing after every conflict", reach=[1, 2, 4]),
            E("h_drat_r20e", 30, "20 variables, with elimination", reach=[1, 2, 4]),
            E("h_drat_r30", 20, "30 variables", reach=[1, 2, 4]),
            E("h_drat_long", 40, "many literals and large variable numbers in the file"),
            E("h_drat_learnt", 20, "a learnt clause whose premise is gone, shortened by any two of: a fact, a given clause, a probe", reach=[1]),
            E("h_drat_skel", 40, "64 formulas of 12-17 clauses over 7 variables with chains of learnt clauses; any three steps of deletion, facts, elimination, vivification", reach=[1, 2]),
            E("h_drat_skel5", 40, "64 formulas of longer clauses over 9 variables", reach=[1, 2]),
            E("h_drat_skel_x", 100, "256 formulas over 8 variables, four steps", 600, thorough_only=True),
            E("h_drat_chain", 100, "three such steps on a longer clause", reach=[1], thorough_only=True),
        ],
    },
    "S12": {
        "feature": "valid",
        "bounds": "formulas of up to 3 clauses over 3-4 variables; every total and partial assignment, lists of up to 4 arbitrary literals; one "
                  "arbitrary 32-bit integer in the list",
        "outside": "larger formulas; injection into a solver that has already searched",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_valid_total", 20, "every total assignment", reach=[1, 2]),
            E("h_valid_partial", 20, "every partial assignment, strict or not", reach=[1, 2]),
            E("h_valid_inject", 20, "three arbitrary literals, established facts", reach=[1, 2, 3]),
            E("h_valid_inject4", 40, "four arbitrary literals, established facts", 120, reach=[1, 2, 3]),
            E("h_valid_bad", 20, "any 32-bit integers", reach=[1, 2]),
            E("h_valid_skel", 30, "every total assignment of 32 formulas of 14 clauses over 12 variables, with learnt clauses", reach=[1, 2]),
            E("h_valid_skelp", 30, "all but two variables assigned", reach=[1, 2]),
        ],
    },
    "S13": {
        "feature": "incr",
        "bounds": "up to 4 operations (add_var, add_clause of 1-2 literals, add_assignment) in any order on an empty or loaded formula of up to 3 "
                  "variables, then solving; up to 5 added variables",
        "outside": "adding to a solver after it has been run (not supported); longer sequences",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_incr_ops", 40, "any operations on a loaded formula", 120, reach=[1, 2, 3, 4, 5]),
            E("h_incr_var", 20, "a variable added, then used", reach=[1, 3]),
            E("h_incr_empty", 30, "any operations on an empty formula", 120, reach=[1, 2, 3, 4, 5]),
            E("h_incr_many", 20, "many added variables", reach=[1]),
            E("h_incr_walk", 30, "512 sequences of 14 operations up to 12 variables, any of 4 signs", reach=[1, 2, 3, 5]),
            E("h_incr_loaded", 60, "any operations on a larger loaded formula", 400, thorough_only=True),
        ],
    },
    "S14": {
        "feature": "dimacs",
        "bounds": "files of up to about 30 bytes: any one separator of any usual kind at any place of well-formed files (two in thorough), and two or three "
                  "arbitrary bytes (0-255) at every part of a file - header, numbers, comments, literals, line ends, end of file",
        "outside": "larger files and more arbitrary bytes at once; bytes beyond ASCII (only: no crash); files that cannot be read half-way",
        "assumptions": COMMON + [DEF, "file system calls are stubbed: the file has exactly the symbolic bytes"],
        "entries": [
            E("h_dimacs_layout", 20, "any separator at any place", reach=[1, 2]),
            E("h_dimacs_body", 30, "two arbitrary bytes among the clauses", reach=[1, 2, 3, 4]),
            E("h_dimacs_tail", 40, "arbitrary last bytes", 120, reach=[1, 2, 3]),
            E("h_dimacs_header", 20, "arbitrary bytes in the header", reach=[1, 3]),
            E("h_dimacs_numbers", 20, "numbers at the limits", reach=[1, 2, 3]),
            E("h_dimacs_start", 40, "arbitrary first bytes", 120, reach=[1, 3]),
            E("h_dimacs_none", 20, "no file, empty file"),
            E("h_dimacs_layout2", 60, "any separators at two places", 200, reach=[1, 2], thorough_only=True),
            E("h_dimacs_body4", 60, "more arbitrary bytes among the clauses", 300, reach=[1, 2, 3], thorough_only=True),
        ],
    },
    "S15": {
        "feature": "cnf",
        "bounds": "CNF values of up to 3 clauses of up to 3 literals (4 for the wide ones) over 2-4 variables, added one by one or given at once, any "
                  "nonzero 32-bit literal at one place; files of up to about 30 bytes with two or three arbitrary bytes (0-255) at every part, "
                  "any two separators of usual kinds",
        "outside": "larger values and files; bytes beyond ASCII (only: no crash); literals that are zero",
        "assumptions": COMMON + [DEF, "file system calls are stubbed: the file has exactly the symbolic bytes; a saved file is what was written"],
        "entries": [
            E("h_cnf_build", 20, "clauses added one by one", reach=[1, 2, 3, 4, 5]),
            E("h_cnf_mixed", 20, "clauses of different lengths in any order", reach=[1, 3, 4]),
            E("h_cnf_wide", 20, "longer clauses", reach=[1, 4]),
            E("h_cnf_extreme", 20, "any nonzero 32-bit literal", reach=[1, 3, 4]),
            E("h_cnf_body", 30, "arbitrary bytes among the clauses", reach=[6, 7, 8]),
            E("h_cnf_body4", 30, "more arbitrary bytes among the clauses", reach=[6, 7, 8]),
            E("h_cnf_tail", 30, "arbitrary last bytes", reach=[6, 7, 8]),
            E("h_cnf_header", 30, "arbitrary bytes in the header", reach=[6, 7, 8]),
            E("h_cnf_layout", 20, "any separators at two places", reach=[7]),
            E("h_cnf_over", 20, "a value saved over an existing file", reach=[1]),
        ],
    },
    "S16": {
        "feature": "lit",
        "bounds": "every integer, variable, literal and clause identifier of 32 bits (literals up to 2^30-1, the largest that can be represented); "
                  "pairs and triples of them; clauses of 3 literals; any flags",
        "outside": "nothing within 32 bits",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_lit_int", 20, "any literal, all conversions", reach=[1, 2]),
            E("h_lit_two", 20, "any two literals"),
            E("h_lit_cid", 20, "any clause identifier, literal and reserved value"),
            E("h_lit_index", 20, "indexing by any literal and clause identifier"),
            E("h_lit_flags", 20, "any flags"),
            E("h_lit_text", 20, "displayed literals"),
            E("h_lit_clause", 20, "clauses of any three literals"),
            E("h_lit_desc", 20, "any three 32-bit integers as a formula"),
        ],
    },
    "S17": {
        "feature": "sel",
        "bounds": "every order of the activities of up to 6 variables (7 in thorough; 64-bit floats as the solver compares them), any three of 17 variables; 3 (4 in thorough) "
                  "arbitrary operations (decide, backtrack, change an activity, rebuild, fix or eliminate a variable); then selecting until nothing is left",
        "outside": "more variables and operations; whether the best is selected when activities have changed since the last rebuild (not promised)",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_sel_order", 20, "any activities", reach=[1]),
            E("h_sel_order6", 20, "any activities, 6 variables", reach=[1]),
            E("h_sel_ops", 20, "three arbitrary operations", reach=[1]),
            E("h_sel_trail", 20, "saved assignments replayed after backtracking", reach=[1]),
            E("h_sel_trail5", 20, "more variables", reach=[1]),
            E("h_sel_twice", 40, "5 variables of any two activities, two backjumps in a row after up to 4 decisions each, any level, then the saved trail is dropped or used", reach=[1]),
            E("h_sel_root", 20, "facts and eliminated variables", reach=[1]),
            E("h_sel_newvar", 20, "a variable added", reach=[1]),
            E("h_sel_sls", 20, "phases given from outside", reach=[1]),
            E("h_sel_walk", 20, "128 formulas over 7 variables with histories of 24 operations, any phases and two activities", reach=[1, 3]),
            E("h_sel_walk12", 20, "96 formulas over 12 variables with histories of 40 operations", reach=[1, 3]),
            E("h_sel_walk_x", 60, "1024 formulas over 9 variables", 300, thorough_only=True),
            E("h_sel_big", 60, "17 variables, any activities of three", 120, reach=[1]),
            E("h_sel_order7", 60, "any activities, 7 variables", 150, reach=[1], thorough_only=True),
            E("h_sel_ops4", 60, "four arbitrary operations", 150, reach=[1], thorough_only=True),
        ],
    },
    "S18": {
        "feature": "luby",
        "bounds": "the first 1028 members of the series; three steps from any index below 2^8 (2^11 in thorough); 70 (520) stages with any unit of 16 bits and any "
                  "number of conflicts at each stage end",
        "outside": "larger indices; how the search uses the stages (S20)",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_luby_walk", 20, "the first members", reach=[1]),
            E("h_luby_jump", 30, "steps from any index below 2^8", reach=[2]),
            E("h_luby_stages", 30, "70 stages with any unit", reach=[3]),
            E("h_luby_again", 20, "restarted series", reach=[4]),
            E("h_luby_jump2", 60, "steps from any index below 2^11", 200, reach=[2], thorough_only=True),
            E("h_luby_stages2", 60, "520 stages with any unit", 200, reach=[3], thorough_only=True),
        ],
    },
    "S19": {
        "feature": "cfg,mix,e2e",
        "bounds": "every combination of the listed values of every tuning option (grouped: elimination; restarts; reduction; decay rates; output; all "
                  "together) on formulas of 5 clauses over 3-4 variables with arbitrary signs and on pseudo-random 3-SAT of 20 variables with a clause of "
                  "arbitrary signs and stage ends every 1-3 conflicts",
        "outside": "other values of the options (floating-point ones are chosen from lists that include the extremes 0, 1); larger formulas; options of disabled features",
        "assumptions": COMMON + [DEF, "STAGE_SIZE (hook) scales the length of a stage"],
        "entries": [
            E("h_cfg_elim", 40, "elimination options, short clauses over 3 variables", reach=[1, 2]),
            E("h_cfg_elim4", 30, "elimination options, clauses over 4 variables", reach=[1]),
            E("h_cfg_facts", 40, "elimination options with facts", reach=[1, 2]),
            E("h_cfg_limit", 20, "a limit on the number of clauses", reach=[1, 2, 4]),
            E("h_cfg_stages", 20, "elimination options in long searches", reach=[1, 2, 3]),
            E("h_cfg_restart", 20, "restart thresholds", reach=[1, 2, 3]),
            E("h_cfg_reduce", 20, "reduction parameters", reach=[1, 2, 3]),
            E("h_cfg_rates", 20, "decay rates", reach=[1, 2, 3]),
            E("h_cfg_show", 20, "output options", reach=[1, 2, 3]),
            E("h_cfg_all", 60, "unusual values at once", 120, reach=[1, 2, 3], thorough_only=True),
        ],
    },
    "S20": {
        "feature": "mix",
        "bounds": "searches over formulas of 4-8 clauses with a stage end of any kind (which of reduce, vivify, simplify run is symbolic) after "
                  "any of the first conflicts or decisions; whole runs on pseudo-random 3-SAT of 20-50 variables with two clauses of arbitrary signs and "
                  "stage ends every 1-2 conflicts; parity chains",
        "outside": "larger formulas; longer sequences of symbolic steps",
        "assumptions": COMMON + [DEF, "STAGE_SIZE (hook) scales the length of a stage; the code of the stages is the same"],
        "entries": [
            E("h_mix_steps", 20, "any steps between decisions and conflicts", reach=[1, 3, 4]),
            E("h_mix_dense", 30, "any steps, dense formula", reach=[1, 3, 4]),
            E("h_mix_deep", 20, "any steps at deeper levels", reach=[1, 3, 4]),
            E("h_mix_parity", 20, "parity chain, whole runs", reach=[1, 2, 10]),
            E("h_mix_r20", 30, "20 variables, whole runs", reach=[1, 2, 10, 11, 12]),
            E("h_mix_r20e", 30, "20 variables with elimination, whole runs", reach=[1, 2, 10, 11, 12]),
            E("h_mix_r30", 30, "30 variables, whole runs", reach=[1, 2, 10, 11, 12, 13]),
            E("h_mix_r50", 30, "50 variables, whole runs", reach=[1, 2, 10, 11, 12, 13, 14]),
            E("h_mix_skel", 30, "256 searches over 20-26 clauses and 8 variables, any of 4 signs, stage ends at any moment", reach=[1, 2, 3, 4]),
            E("h_mix_skel12", 30, "192 searches over 36-47 clauses and 12 variables", reach=[1, 2, 3, 4, 5]),
            E("h_mix_skel5", 30, "128 searches over longer clauses", reach=[1, 3, 4, 5]),
            E("h_mix_skel12_x", 100, "1024 searches over 44-57 clauses and 14 variables", 600, thorough_only=True),
            E("h_mix_deep2", 60, "any steps at deeper levels, more clauses", 200, reach=[1, 3, 4], thorough_only=True),
            E("h_mix_any", 60, "any steps, arbitrary clauses", 600, thorough_only=True),
        ],
    },
    "S21": {
        "feature": "robust,e2e",
        "bounds": "2 calls (3 in thorough) in any order with any 32-bit integers as literals, then solving or dropping; formulas of up to two clauses of any 32-bit "
                  "integers up to 3 in magnitude or above the largest possible variable; headers with declared counts around every limit; clauses of up to 42 literals",
        "outside": "numbers of variables between 4 and 2^30-1 (they are allocated); memory exhaustion; byte-level corruption of files (S14)",
        "assumptions": COMMON + [DEF],
        "entries": [
            E("h_robust_calls1", 20, "one call", reach=[1, 2, 4, 5, 6]),
            E("h_robust_calls2", 20, "two calls in any order", reach=[1, 2, 3, 4, 5, 6]),
            E("h_robust_calls3", 40, "three calls in any order", 100, reach=[1, 2, 3, 4, 5, 6]),
            E("h_robust_vec", 20, "formulas of any integers", reach=[1, 2]),
            E("h_robust_vec2", 20, "longer formulas of any integers", reach=[1, 2]),
            E("h_robust_counts", 20, "declared counts", reach=[1, 2]),
            E("h_robust_repeat", 20, "repeated literals and clauses", reach=[1]),
            E("h_robust_queries", 20, "validation and display at any time", reach=[1]),
        ],
    },
    "S22": {
        "feature": "cli",
        "bounds": "the program's main from its arguments to exit, its files in memory: three arbitrary binary clauses over 2 variables; up to 4 facts and "
                  "short clauses with arbitrary signs (the empty clause included) in each of 7 ways to call it; 280 pseudo-random formulas of 12-20 "
                  "clauses over 4-6 variables with two arbitrary signs; 7 limits times 4 jumps of the clock; 120 lengths of file names; a corrupted byte or a cut in a formula file",
        "outside": "SPLR_TIMEOUT (a thread that sleeps); I/O errors; larger formulas; file names that are not UTF-8",
        "assumptions": COMMON + [DEF, "src/bin/splr.rs is compiled as a module of the harness (a build script strips its inner attributes)",
                                 "files and the standard streams are modelled in memory (open, read, write, stat, truncate)"],
        "entries": [
            E("h_cli_any", 30, "three arbitrary binary clauses over 2 variables, two ways to call it", reach=[1, 2, 3]),
            E("h_cli_units", 20, "facts, contradictions, the empty clause; 7 ways to call it", reach=[1, 2, 3, 5, 6]),
            E("h_cli_skel", 20, "70 formulas of 16 clauses over 4 variables, any two signs, 7 ways", reach=[1, 2, 3, 5, 6]),
            E("h_cli_skel5", 30, "140 formulas of 20 clauses over 6 variables, any two signs, 7 ways", reach=[1, 2, 3, 5, 6]),
            E("h_cli_time", 30, "runs of 20 variables against limits and clock jumps", reach=[1, 2, 4, 5]),
            E("h_cli_name", 20, "file names of up to 94 bytes, with up to 29 letters outside ASCII, shown or not; four formulas", reach=[1, 2, 5, 6]),
            E("h_cli_bad", 20, "malformed or missing formula file", reach=[1]),
            E("h_cli_none", 20, "no formula file on the command line", reach=[1]),
        ],
    },
    "S23": {
        "feature": "cli",
        "bounds": "formulas of three clauses over 3 variables with arbitrary signs and up to three literals in the list; 24 formulas of 8 clauses over 5 "
                  "variables with an arbitrary total list; any byte of a result file replaced; the results of 70 runs of splr",
        "outside": "assignments on the standard input; larger formulas",
        "assumptions": COMMON + [DEF, "src/bin/dmcr.rs is compiled as a module of the harness", "files are modelled in memory"],
        "entries": [
            E("h_cli_dmcr", 20, "three clauses, any signs, any list of up to three literals", reach=[1, 2]),
            E("h_cli_dmcr_skel", 20, "24 formulas, any total list", reach=[1, 2]),
            E("h_cli_dmcr_text", 30, "any byte of the result file replaced", reach=[1, 2]),
            E("h_cli_pipe", 20, "70 results of splr", reach=[1]),
        ],
    },
    "S24": {
        "feature": "opt",
        "bounds": "any two options in any order, 256 sequences of four; integers of 1-5 arbitrary digits or bytes, reals of 1-2 digits with a point, "
                  "any byte in a number; 13 long names with two arbitrary bytes, every short name of 1-2 bytes",
        "outside": "longer numbers and names; exponents beyond e2; arguments that are not UTF-8",
        "assumptions": COMMON + [DEF, "the program's arguments are set through std's own start-up function"],
        "entries": [
            E("h_opt_pair", 20, "any two options", reach=[1]),
            E("h_opt_triple", 30, "any three options", reach=[1]),
            E("h_opt_three", 20, "256 sequences of four options", reach=[1]),
            E("h_opt_int", 20, "1-5 arbitrary digits", reach=[1]),
            E("h_opt_int_any", 30, "1-5 arbitrary bytes as a number", reach=[1]),
            E("h_opt_real", 20, "reals", reach=[1]),
            E("h_opt_real_any", 20, "any byte in a real", reach=[1]),
            E("h_opt_long_name", 20, "long names", reach=[1, 2]),
            E("h_opt_short_name", 20, "short names", reach=[1, 2]),
            E("h_opt_order", 20, "an option given twice", reach=[1]),
        ],
    },
    "S25": {
        "feature": "time",
        "bounds": "8 limits between 0 and 3.25 s; the clock stands at, or jumps at any of 12 readings to, any quarter of a second below 4 s (16 s for the queries); "
                  "pseudo-random 3-SAT of 20 variables with an arbitrary sign and stage ends after each learnt clause",
        "outside": "clocks that go backwards; other limits; the time one stage takes",
        "assumptions": COMMON + [DEF, "STAGE_SIZE (hook) scales the length of a stage"],
        "entries": [
            E("h_time_query", 20, "the state's answers", reach=[1]),
            E("h_time_still", 30, "the clock stands", reach=[1, 2, 3, 4]),
            E("h_time_jump", 60, "the clock jumps during the run", reach=[1, 2, 3]),
        ],
    },
    "S26": {
        "feature": "dump",
        "bounds": "clauses of 2, 1, 2 arbitrary literals over 3 variables; 64 formulas of 7 clauses over 6 variables with three arbitrary signs; two arbitrary "
                  "additions to a solver of 3 variables; the state after 64 runs over 7 variables and 12 runs out of time over 20; after variable elimination, 384 formulas over 7-8 variables",
        "outside": "larger formulas; elimination in the course of a run",
        "assumptions": COMMON + [DEF, "files are modelled in memory"],
        "entries": [
            E("h_dump_load", 30, "three arbitrary clauses", reach=[1]),
            E("h_dump_skel", 20, "64 formulas", reach=[1]),
            E("h_dump_incr", 30, "additions", reach=[1]),
            E("h_dump_solved", 30, "after a run", reach=[1]),
            E("h_dump_solved20", 50, "after a run of conflicts", reach=[1]),
            E("h_dump_late", 50, "after a run out of time", reach=[1, 2]),
            E("h_dump_elim", 20, "after variable elimination: 128 formulas of 14 clauses over 7 variables", reach=[1, 2]),
            E("h_dump_elim_fact", 40, "after elimination and a fact: 256 formulas of 22 clauses over 8 variables", reach=[1, 2]),
        ],
    },
    "S27": {
        "feature": "feat",
        "feature_by": {"fa": "feat,drat"},
        "bounds": "four builds: the default features plus bi_clause_completion, stochastic_local_search, just_used, assign_rate (fa); only the required ones plus no_IO (fb); "
                  "those with elimination, vivification, two-mode reduction, reason-side rewarding (fc); with trail saving, deepened backtracking, "
                  "bi_clause_completion and the schedules (fd). On each some of: 64 formulas of 18-27 clauses over 7 variables with 6 arbitrary signs, 8 pseudo-random "
                  "3-SAT formulas of 20 variables with 3, 12 satisfiable ones of 24 variables with 3, and stage ends after one or two conflicts",
        "outside": "other combinations of features (not all of them build: boundary_check, clause_rewarding, EVSIDS and others do not, chrono_BT is "
                   "marked NOT WORK); larger formulas",
        "assumptions": COMMON + ["x86-64 layout", "STAGE_SIZE (hook) scales the length of a stage", "the hash maps of std use a fixed seed in the symbolic run"],
        "entries": [
            E("h_feat_sls", 40, "1-4 steps of local search on 16 formulas with 6 arbitrary signs, then a run", reach=[1, 2], build="fa"),
            E("h_feat_sat", 50, "satisfiable formulas of 24 variables", reach=[1, 10, 11], build="fa", opts={"max-steps": 1000000000}),
            E("h_feat_skel", 30, "64 formulas", reach=[1, 2, 10], build="fa"),
            E("h_drat_skel", 30, "DRAT proofs of the entry in S11", reach=[1, 2], build="fa"),
            E("h_feat_r20", 30, "20 variables", reach=[1, 2, 10, 11], build="fb"),
            E("h_feat_incr", 20, "clauses and an assumption added one by one", reach=[1, 2], build="fb"),
            E("h_feat_r20", 30, "20 variables", reach=[1, 2, 10, 11], build="fc"),
            E("h_feat_skel", 30, "64 formulas", reach=[1, 2, 10], build="fc"),
            E("h_feat_r20", 30, "20 variables", reach=[1, 2, 10, 11], build="fd"),
            E("h_feat_b5", 40, "four binary clauses over 3 variables", reach=[1, 2], build="fd"),
            E("h_feat_skel8", 60, "128 formulas of 26-38 clauses over 9 variables", 200, reach=[1, 2, 10], build="fd", thorough_only=True),
            E("h_feat_skel8", 60, "128 formulas of 26-38 clauses over 9 variables", 200, reach=[1, 2, 10], build="fb", thorough_only=True),
            E("h_feat_any", 60, "clauses of 3, 2, 1 arbitrary literals", 200, reach=[1, 2], build="fa", thorough_only=True),
            E("h_feat_any", 60, "clauses of 3, 2, 1 arbitrary literals", 200, reach=[1, 2], build="fb", thorough_only=True),
            E("h_feat_r30", 60, "30 variables", 200, reach=[1, 2, 10, 11], build="fc", thorough_only=True),
            E("h_feat_r30", 60, "30 variables", 200, reach=[1, 2, 10, 11], build="fd", thorough_only=True),
        ],
    },
    "S28": {
        "feature": "stat",
        "bounds": "searches by single steps with stage ends of five kinds (reduction, vivification, elimination) at any moment: three clauses over 4 variables, seven over 5, "
                  "8 levels over 9, 96 formulas over 8 and 64 over 12 variables with three arbitrary signs; a learnt or given clause that subsumes learnt or given ones; elimination, "
                  "vivification and a fact in every order; given and learnt clauses of 3-5 literals shortened by facts in any order; loading clauses of 3, 2, 1 literals over 3 variables; three additions of variables, facts, clauses; "
                  "whole runs of 64 formulas over 10 variables and 16 over 20",
        "outside": "larger formulas; averages (LBD, rates), the number of propagations and learnt binary clauses, which only ever grow; the variables' numbers after a model was found "
                   "(the flags of eliminated variables are cleared then)",
        "assumptions": COMMON + [DEF, "STAGE_SIZE (hook) scales the length of a stage"],
        "entries": [
            E("h_stat_steps", 60, "three clauses, any decisions", reach=[1, 3, 4, 20, 21]),
            E("h_stat_dense", 120, "seven clauses, two stage ends", 300, reach=[1, 3, 4, 20, 21], thorough_only=True),
            E("h_stat_deep", 60, "8 decision levels", 120, reach=[1, 3, 4, 20, 21], thorough_only=True),
            E("h_stat_skel", 30, "96 formulas over 8 variables", reach=[1, 2, 3, 4, 20, 21, 22]),
            E("h_stat_skel12", 30, "64 formulas over 12 variables", reach=[1, 2, 3, 4, 5, 20, 21, 22]),
            E("h_stat_subsume", 20, "subsumption between learnt and given clauses", reach=[20, 21, 22, 25]),
            E("h_stat_elim", 60, "elimination, vivification and a fact in every order", reach=[20, 22]),
            E("h_stat_facts", 25, "given and learnt clauses of 3-5 literals shortened by facts in any order", reach=[1]),
            E("h_stat_load", 30, "after loading", reach=[22]),
            E("h_stat_grow", 40, "three additions", reach=[22]),
            E("h_stat_run", 60, "after runs over 10 variables", 150, reach=[22, 24]),
            E("h_stat_run20", 90, "after runs over 20 variables", 200, reach=[20, 21, 22, 23, 24], thorough_only=True),
        ],
    },
}

HOOK_COMMITS = ["ac83931", "68b520e"]
NA = {
    "N03": "termination for all inputs has no bound; the bounded checks do report a path that exceeds its step limit",
}
