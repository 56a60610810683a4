"""What each check runs. entry: harness function executed symbolically; secs: engine time; cover: least number of
solver judgements per class; paths: least number of completed paths."""
CRATES = {"pipe": "hpipe"}
def E(entry, paths, crate="pipe", reach=("translated",), **k):
    return dict(crate=crate, entry=entry, paths=paths, reach=list(reach), **k)
TV = "translation_validation"
OR = ("Every file the real translator produces on a feasible path is parsed and judged against the reference trace semantics of the same source "
      "(executions over an order of step instances, all inputs, all values of the primitives): z3 decides each query with the trace, the inputs and the primitives symbolic.")
INST = "two index values per sort (k=2: every step, name and cell instance over them), macros unfolded to depth 2, all orders of the resulting step instances and all subsets that happen"
PR = ("proved", "notproved")
PROPS = {
"C01": dict(level="fault_enumeration", entries=[E("h_run", 400, reach=PR), E("h_runz", 400, reach=PR), E("h_runl", 200, reach=PR), E("h_runf", 21, reach=("notproved",), cover={"query": 15, "cma": 200, "wf": 15})],
    explain="The auto command runs symbolically against model solvers: what each answers, its exit status (any code, or killed), and which of the threads waiting for them goes on first are symbolic; a report of success must come with an answer that says unsat, for every problem. The files the solvers are given are judged against the source's meaning.",
    bounds="vampire and z3 at once (four and eight answers, every exit status, every order in which their threads end); z3 alone with any ASCII answer of 4 to 8 characters; a lemma and the query (two problems, two calls, five answers each); one try per problem; the files given to both solvers in seven modes x three sources"),
"C13": dict(level=TV, entries=[E("h_disc", 1000, reach=("again",), cover={"cma": 200, "query": 10, "wf": 10}), E("h_discs", 300, reach=("again",), cover={"cma": 100, "ctxt": 150, "wf": 8})],
    explain=OR + " Here the file is the one of the second try, after a first try in which vampire timed out having printed clauses.",
    bounds="two literals out of fourteen (well and ill formed, well and ill sorted, with skolem symbols, quoted names) in one or two clauses x three modes for macs; two out of eight for signatures and for encryptions; k=1"),
"C14": dict(level=TV, entries=[E("h_sq", 484, cover={"query": 400, "unfold": 2000, "cell": 800, "unfold-all": 400, "cell-all": 400, "order": 7000, "user": 800}), E("h_sqo", 168, cover={"order": 2400, "user": 240}), E("h_sqd", 56, cover={"query": 40, "unfold": 180, "nonce": 1200}), E("h_sqc", 18, cover={"cma": 300, "ctxt": 200, "query": 18})],
    explain="Dumps in Squirrel's JSON format are built from symbolic choices and translated by the real front end; each file written is judged against the reference trace semantics of the same protocol written in the tool's own language (names as the front end forms them): z3 decides each query with the trace, the inputs and the primitives symbolic.",
    bounds="one index value per sort (k=1; two for the order of actions): eleven messages x eleven conditions x four queries and assignments (tuples and projections, conditionals, searches, defined operators, global macros with inputs of one or two actions, names outside the language's alphabet) x two modes; three of nine action paths (every ordered pair) for the order; diff in the message, condition, query, nested and repeated; hashes, signatures and encryptions x three payloads x two modes"),
"C02": dict(level=TV, entries=[E("h_lemma", 354, cover={"query": 900, "user": 3000, "nonce": 20000}), E("h_nolemma", 168, cover={"query": 160, "user": 160}), E("h_lemmac", 324, cover={"query": 900, "user": 1900, "cma": 15000, "wf": 900})],
    explain=OR + " One file per lemma and one for the query: each is judged as the problem with that lemma (or the query) as its goal and the earlier lemmas as assumptions.",
    bounds="one index value per sort (k=1); 0 to 3 lemmas out of six (of three when there are three) x three placements among the other declarations x options; every pair of six lemmas about macs, names and a cell x three messages x three modes; without --lemmas: one or two lemmas x placement x mode"),
"C03": dict(level=TV, entries=[E("h_wf", 512, cover={"wf": 60}), E("h_eval", 56, cover={"wf": 50})],
    explain="The translator runs symbolically with every combination of the options; each produced file is parsed and every term is sort-checked, every symbol resolved, and commands outside the standard are flagged unless an option asks for them.",
    bounds="one source using every construct x 512 option combinations; seven signatures of a user function x four option sets x two queries"),
"C04": dict(level=TV, entries=[E("h_qry", 768, cover={"query": 300}), E("h_asrt", 52, cover={"user": 40}), E("h_evals", 156, cover={"query": 60})],
    explain=OR + " Goal and assertions: the emitted formula and the source's formula are equivalent in every execution.",
    bounds=INST + "; 768 queries (binary connective x two atoms x quantifiers), 13 assertion shapes, both modes, 13 conditions with operator chains"),
"C05": dict(level=TV, entries=[E("h_let", 61, cover={"query": 50}), E("h_macro", 150, cover={"query": 100}), E("h_bind", 192, cover={"query": 90})],
    explain=OR + " Names bound by let, quantifiers, find, steps and macros, in every clash of the listed names.",
    bounds=INST + "; seven let/find shapes x nine name pairs, five macro bodies x five arguments x three indices x two prefixes, four conditions x four argument lists x modes"),
"C06": dict(level=TV, entries=[E("h_unf", 120, cover={"unfold": 300, "unfold-all": 120}), E("h_unf2", 54, cover={"unfold": 200, "unfold-all": 54})],
    explain=OR + " Unfolding axioms: each holds in every execution, and no step's content is missing.",
    bounds=INST + "; two steps, one or two indices, 120 + 54 contents"),
"C07": dict(level=TV, entries=[E("h_ord", 240, cover={"order": 1000, "order-all": 240}), ],
    explain=OR + " Timestamp axioms and the user's order declarations.",
    bounds=INST + "; order declarations: relation x quantifier x guard x arguments"),
"C08": dict(level=TV, entries=[E("h_nonce", 108, cover={"nonce": 1000}), E("h_nonce2", 96, cover={"nonce": 500}), E("h_nonce3", 486, cover={"nonce": 5000}), E("h_noncex", 624, cover={"nonce": 16000}), E("h_noncey", 416, cover={"nonce": 12000})],
    explain=OR + " Freshness axioms: whenever a name's value is taken by a term, the axiom's premises name a real occurrence; no occurrence is missed.",
    bounds=INST + "; six messages x three conditions x three queries x modes; cells: 4 x 4 x 3 x modes; two cells and the input feeding each other: 486 combinations to unfolding depth 3; 624 combinations of a context around the name, the place it appears in and the query; 416 chains of a read inside a context to another cell or the input, to depth 5 at k=1"),
"C09": dict(level=TV, entries=[E("h_mac", 64, cover={"cma": 90}), E("h_mac2", 54, cover={"cma": 500}), E("h_mac3", 162, cover={"cma": 2000}), E("h_sign", 72, cover={"cma": 500}), E("h_macx", 2560, cover={"cma": 40000}), E("h_macy", 416, cover={"cma": 13000}), E("h_signx", 1280, cover={"cma": 14000})],
    explain=OR + " Unforgeability axioms of keyed hashes and signatures: what they conclude from a verification is entailed by existential unforgeability.",
    bounds=INST + "; 4 verifications x 4 authenticated messages x key leaks x hmac flag; cells, also two feeding each other (162 combinations, depth 3), and --no-preprocessing; signatures x leaks x modes; every context x payload (key or honest use) x place x what it is verified against: 2560 for macs, 1280 for signatures"),
"C10": dict(level=TV, entries=[E("h_ctxt", 96, cover={"ctxt": 1500}), E("h_ctxtx", 912, cover={"ctxt": 4000})],
    explain=OR + " Ciphertext integrity axioms: what they conclude from a successful decryption is entailed by integrity of ciphertexts under proper use of randomness.",
    bounds="as k=2 in the default mode and k=1 in --symbolic; 3 decryptions x 4 encryptions x 4 leaks x 2 modes; every context x payload (key, randomness, encryption) x place at k=1: 912"),
"C11": dict(level=TV, entries=[E("h_cell", 80, cover={"cell": 200, "cell-all": 80}), E("h_cell2", 48, cover={"cell": 150, "cell-all": 48})],
    explain=OR + " Memory axioms: a step's assignments, and persistence of everything it does not assign.",
    bounds=INST + "; cells with 0, 1 and 2 indices, 20 + 28 combinations of assignments, both modes"),
"C12": dict(level=TV, entries=[E("h_eval", 56, cover={"eval": 400, "eval-all": 56}), E("h_evals", 156, cover={"eval": 800, "eval-all": 78})],
    explain=OR + " Evaluation axioms of connectives, conditionals, quantifiers, searches and user functions.",
    bounds=INST + "; seven signatures, 13 conditions x 3 messages x legacy evaluation"),
}
ASSUMPTIONS = [
 "rustc's optimised LLVM IR of the harness linked with /repo's crates (fat LTO, panic=abort) is what is executed; the interpreter's model of it is checked by replaying every counterexample natively",
 "formatting of floats, locale, environment variables and files other than the in-memory ones of the run are stubbed",
 "threads: one runs to its end where it is created, or where another waits for it or for a message, in every order; preemption between is not modelled (scoped threads only share channels). Processes: one writes its whole answer and ends; being killed while it writes is not modelled",
 "z3 4.8.12 answers are trusted; an unknown answer is reported as inconclusive, never as held",
 "reference trace semantics written from the language's documentation and the CryptoVampire paper",
]
