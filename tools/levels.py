"""the level, technique and note of every property in MANIFEST.json (mkmanifest.py)"""
DEFAULT_TECH = ("contract-based deductive verification: pyvc generates the obligations from the source in /repo on every run, "
                "z3 and exact algebra discharge them; the same contracts are evaluated at run time to find a failing input")
BASE = ("Every obligation is generated from the functions' current source and discharged for inputs of any size. Assumed: the verifier itself (vc/pyvc), "
        "machine numbers as exact reals/integers, the library contracts listed in the evidence's trusted_base. ")
RT = "Run-time contracts on the unmodified code (bounded, never counted as proved) search for failing inputs."
PROOF = dict(
    C01="Circuits of any length over arbitrary gates, and the embedding of a gate at every width and any distinct qubits.",
    C02="Every built-in gate, found by enumerating the module, for all real parameter values.",
    C03="Operators of any number of terms and qubits; powers by induction.",
    C04="Every view of the qubit order at any width; uses the contracts of C01, C09, C10, proved there.",
    C06="Every kind of parameter expression, class of gate and circuit length. sympy's simultaneous substitution is assumed.",
    C07="Each modifier over an arbitrary gate (structural induction), with the matrices' algebra. Two known findings: fractional powers with adjoints, T.exp.",
    C08="Circuits of any length and any sequence of qubits. One known finding: fractional powers.",
    C10="Any number of shots, bits and terms; both covariance denominators.",
    C12="Wavefunctions of any size; Dicke states of all n and w (bit vectors and exact arithmetic); files.",
    C14="Every runner entry point with any number of circuits and of service calls, services may fail at any call. Services satisfy only their interface.",
    C15="Any number of tasks, terms and qubits.",
    C16="Terms with any letters on any qubits, any number of terms and steps.",
    C17="Distributions of any number of keys and subsystems.",
    C18="Rules applied to circuits of any length, U3 rules for all angles. One known finding: controlled U3.",
)
OTHER = dict(
    C05="Deduction covers every gate kind (structural induction), definitions, circuits, circuit sets and files; `innermost_gate` is bounded to 4 nested modifiers, "
        "and that sympy's printed expressions parse back to themselves is checked at run time only. Two known findings: symbols named like constants, symbols with assumptions.",
    C09="Deduction covers sparse operators of any size, widths, conjugation, reversal, expectation; the expansion of a matrix into Pauli operators is "
        "proved for arbitrary entries of 1x1, 2x2 and 4x4 matrices only (bounded in the size), larger ones at run time.",
    C11="Deduction covers all dictionaries and files of artefacts of any size; that the printed text of an operator parses back is checked at run time only.",
    C13="Deduction covers expansion, batches and recombination for any number of circuits and results; the merge of two histograms of any size; "
        "scale_and_discretize and the distribution helpers are checked at run time only.",
    C19="Deduction covers the translators by structural induction over sympy nodes and neutral trees, refusals and natural keys; the order of names under the natural key and the foreign "
        "dialects end to end are checked at run time only.",
    C20="117 obligations of the other modules with a frame condition on every call (no write to an argument, receiver, anything they hold, or a memoised result); "
        "C05's and C11's functions are covered by run-time snapshots only.",
)
TECH = {}
LEVEL = {p: "proof" for p in PROOF}
NOTE = {p: BASE + t + " " + RT for p, t in {**PROOF, **OTHER}.items()}
THEOREMS = {}
DEFAULT_NOTE = ""
NOTES = "see DESIGN.md; no hooks in /repo are used"
