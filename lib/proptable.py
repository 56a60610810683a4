HOOKS = dict(guard="none", enable="no hooks: the harness crates use the public interface of /repo's crates", source_commits=[])
PRG = ["programs", "configurations"]
P("C01", "Only what a solver proved is reported as proved",
  "The auto command reports a problem proved only if one of the solvers it ran on that problem's file, or a file that means the same, answered that it is unsatisfiable; with --lemmas it must hold of each lemma and the query. A timeout, an unknown, a satisfiable answer, an error, a killed solver or anything else a solver prints is never a proof, whichever solver ends first. If a solver proves the problem and no other fails or disagrees, it is reported proved.",
  ["configurations", "faults", "schedules"], "all answers, exit statuses and orders of termination of the solvers", "The tests start real solvers, which are not there, and can neither choose what they answer nor when.",
  ["runner/runners.rs", "runner/runner_helper.rs", "runner/runner.rs", "runner/vampire.rs", "runner/z3.rs", "lib.rs"], [("running the solvers at once and combining their answers", "runner/runners.rs"), ("reading a solver's answer", "runner/z3.rs"), ("exit codes", "runner/vampire.rs")], ("the result of the auto command",), TS,
  "Every answer of the families, every exit status and every order of the threads is decided; trusts the engine's model of threads and processes (each violation is replayed natively with scripts for solvers).")
P("C13", "What is learned from a solver's output stays sound",
  "After a try that timed out the tool looks in what vampire printed for terms to instantiate the cryptographic axioms with. Whatever was printed, the next problem is well-formed, has the same goal and assertions, and each of its axioms holds in every execution; no output makes the tool panic or report a proof.",
  PRG + ["inputs"], "all outputs of the families", "It takes a prover that times out with terms of interest in its output.",
  ["runner/vampire.rs", "runner/searcher.rs", "runner/tptp.rs", "problem/problem/mod.rs", "formula/base_formula/tmp_formula.rs"], [("finding terms in the output", "runner/searcher.rs"), ("parsing them", "runner/tptp.rs"), ("adding them to the problem", "runner/vampire.rs")], ("the file given to vampire on the second try",), TE, NT)
P("C14", "A Squirrel problem is translated to what it says",
  "With --input-format squirrel-json every problem of the dump (one per side of its diffs, in the order of the projections' names, each in its own file) is the one its actions, names, operators, macros and query describe. Tuples and their projections match (projecting element i of a tuple gives element i), defined operators and global macros denote their definitions with the inputs of the actions that receive them, updates, conditions and outputs are the action's, hypotheses and free variables are part of the query. An action comes after those its path extends; actions on different branches of a choice exclude each other; no other order is assumed. Hashes, signatures and encryptions get exactly the assumptions of their kind.",
  PRG + ["histories"], "all dumps of the families, all executions within the bounds", "The tests only parse two dumps; nothing checks what they are translated to.",
  ["squirrel/mod.rs", "squirrel/converters/mod.rs", "squirrel/converters/ast_convertion.rs", "squirrel/converters/convert_order.rs", "squirrel/converters/top_level_converter.rs", "squirrel/converters/helper_functions/convertion_functions.rs", "squirrel/json/mmacro.rs"], [("terms", "squirrel/converters/helper_functions/convertion_functions.rs"), ("actions", "squirrel/converters/ast_convertion.rs"), ("order and exclusion", "squirrel/converters/convert_order.rs"), ("operators, names and assumptions", "squirrel/converters/top_level_converter.rs")], ORA, TE, NT)
P("C02", "Lemmas are proved in order and used only once proved",
  "With --lemmas one problem is written per lemma of the source, in the order of the source, and a last one for the query: problem i has exactly lemma i (finally the query) as its goal and assumes, beyond the protocol's axioms, exactly the user's assertions and the lemmas before i. No problem assumes its own goal or a later one. Without --lemmas a lemma is neither assumed nor proved.",
  PRG, "all lists of lemmas, placements and options of the families", "The tests never look at which axioms and goal each file holds.",
  ["problem/problem/pbl_iterator.rs", "problem/problem/mod.rs", "lib.rs", "parser/parser"], [("sequencing of the lemmas", "problem/problem/pbl_iterator.rs"), ("writing one file per problem", "lib.rs")], ORA, TE, NT)
P("C03", "Every accepted protocol yields a well-formed SMT file, whatever the options",
  "For every accepted protocol and every combination of the options, the file written is a well-formed SMT problem: every sort, function and variable used is declared once and used with the right sorts, there is exactly one negated goal, and a satisfiability query follows it. Commands outside the SMT-LIB standard appear only when an option that announces them is given.",
  PRG, "all combinations of --symbolic, --eval-rewrite, --crypto-rewrite, --vampire-subterm, --no-preprocessing, --legacy-evaluate, --no-bitstring, --skolemnise, --cvc5, --assert-theory, --assert-ground on sources with every construct",
  "512 combinations; the tests use two or three of them and never re-read the file.",
  ["smt/smt.rs", "smt/smt/display.rs", "problem/general_assertions", "formula/function/inner"], [("printing of declarations and terms", "smt/smt/display.rs"), ("declarations of a problem", "problem/generator.rs")], ORA, TE, NT)
P("C04", "The emitted goal and assertions mean what the source says",
  "In every execution of the protocol the goal written to the file is true exactly when the source's query is, and each user assertion written is true exactly when the source's assertion is. This includes chains of infix operators, every one of whose operands counts, conditionals, searches, quantifiers and the step macros cond!, msg!, exec and input.",
  PRG + ["histories"], "all executions within the bounds, for every query and assertion of the families", TEST,
  ["parser/parser/parsable_trait.rs", "parser/parser/parsing_environement.rs", "smt/smt.rs", "problem/general_assertions/assertion_preprocessor.rs"],
  [("terms to formulas", "parser/parser/parsable_trait.rs"), ("evaluation pushed into formulas", "problem/general_assertions/assertion_preprocessor.rs")], ORA, TE, NT)
P("C05", "Bindings keep their scope: nothing is captured or freed",
  "A variable of a let, quantifier, search, step, or macro denotes its innermost enclosing binding wherever it is used. Instantiating a step or a macro with arguments never lets an argument's variable be captured by a binder of the body, nor frees a bound one, whatever names the source chooses.",
  PRG, "all clashes between the names of the families' binders", "The tests bind distinct names; a capture needs a clash between an argument and a bound variable of the body.",
  ["parser/parser/parsable_trait.rs", "formula/formula/formula.rs", "formula/manipulation", "formula/variable.rs"],
  [("substitution under quantifiers", "formula/formula/formula.rs"), ("lookup of bound variables", "parser/parser/parsable_trait.rs")], ORA, TE, NT)
P("C06", "The unfolding axioms equal the protocol's steps",
  "Under the unfolding assumption the axioms written for msg, cond and exec of each step hold in every execution, and together they give each step that happens exactly its message, its condition and, for exec, the conjunction of the conditions up to it. This holds with and without the direct option.",
  PRG + ["histories"], "all executions within the bounds and all step contents of the families", TEST,
  ["problem/crypto_assumptions/unfolding.rs", "formula/utils/formula_expander.rs", "problem/step.rs"], [("unfolding axioms", "problem/crypto_assumptions/unfolding.rs")], ORA, TE, NT)
P("C07", "Timestamp axioms hold in every execution and include the user's order",
  "Every axiom written about happens, pred, init and the order of timestamps holds in every execution of the protocol that satisfies the source's order declarations. Together they imply the theory of the order: it is strict, total on what happens, starts at init, pred steps through it, and steps with different names or indices differ. Each order declaration (before, after, exclusion, with its quantifiers and guard) is written with exactly its meaning.",
  PRG + ["histories"], "all executions within the bounds, all order declarations of the family", TEST,
  ["problem/general_assertions/order.rs", "parser/ast/ordering.rs"], [("order axioms", "problem/general_assertions/order.rs")], ORA, TE, NT)
P("C08", "Freshness axioms miss no occurrence of a name",
  "The nonce assumption's axioms let a message equal a fresh name only if that name occurs in the message, searching everything the message can depend on: nested terms, conditions, inputs and hence all earlier steps, memory cells, quantifiers, searches and let bindings. No axiom rules out an equality that an execution can exhibit.",
  PRG + ["histories"], "all executions within the bounds, all occurrences' positions of the families", TEST,
  ["problem/crypto_assumptions/nonce.rs", "subterm", "formula/utils/formula_expander.rs", "problem/cell_dependancies"], [("occurrence search", "subterm/mod.rs"), ("unfolding of macros in the search", "formula/utils/formula_expander.rs")], ORA, TE, NT)
P("C09", "Unforgeability axioms conclude only what EUF-CMA and PRF hashes allow",
  "When a hash or signature verifies under a key, the axioms written for the unforgeability assumptions conclude that the message was honestly authenticated under that key within what the verified terms depend on, or that the key occurs there outside key position. No honest computation and no leak of the key is missed, whether axioms are specialised to the protocol or general.",
  PRG + ["histories"], "all executions within the bounds for the families' verifications, computations and leaks", TEST,
  ["problem/crypto_assumptions/uf_cma.rs", "problem/crypto_assumptions/euf_cma.rs", "subterm"], [("axiom generation", "problem/crypto_assumptions/uf_cma.rs"), ("signatures", "problem/crypto_assumptions/euf_cma.rs")], ORA, TE, NT)
P("C10", "Ciphertext-integrity axioms conclude only what INT-CTXT allows",
  "When decryption under a key succeeds, the axioms written for the integrity assumption conclude that the ciphertext was honestly encrypted under that key within what it depends on, or that the key leaks there, or that an encryption's randomness is not a fresh name used exactly once. No honest encryption, leak or misuse is missed, in either mode.",
  PRG + ["histories"], "all executions within the bounds for the families' decryptions, encryptions and leaks", TEST,
  ["problem/crypto_assumptions/int_ctxt.rs", "subterm"], [("axiom generation", "problem/crypto_assumptions/int_ctxt.rs")], ORA, TE, NT)
P("C11", "Memory-cell axioms follow the assignments of the steps",
  "At a step that happens a cell holds what the step assigns to it, read with the values before the step, and otherwise what it held just before; every axiom written for memory cells holds in every execution, and together they determine it, whatever the indices of the cell and of the assignments; simultaneous assignments do not disturb each other.",
  PRG + ["histories"], "all executions within the bounds, all assignments of the families", TEST,
  ["problem/crypto_assumptions/cell.rs", "problem/cell"], [("cell axioms", "problem/crypto_assumptions/cell.rs")], ORA, TE, NT)
P("C12", "Evaluation axioms give symbolic terms their meaning",
  "In symbolic mode every evaluation axiom holds for all terms: evaluating a connective, equality, conditional, quantifier, search or user function gives the corresponding operation on the evaluated arguments, in both directions, and the congruence axioms of the legacy evaluation are sound. A goal or assertion that evaluates a term is equivalent to its source meaning.",
  PRG + ["inputs"], "all values of the terms' arguments, all constructs and signatures of the families", TEST,
  ["problem/general_assertions/evaluate.rs", "smt/writer/evaluate.rs", "formula/function/inner/evaluate.rs"], [("evaluation axioms", "problem/general_assertions/evaluate.rs")], ORA, TE, NT)
