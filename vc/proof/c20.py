"""C20: objects behave as values.

The contracts of the other properties, with a frame condition added to every call: the arguments and the receiver, and everything they hold, are
not written (a write is a failed obligation), and what is memoised is not written after it was returned.  Functions are deterministic apart from
the random generators given to them, so that the same call on the same, unwritten arguments has equal results."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3

TRUSTED = ["functions of numpy, scipy, sympy and json do not write their arguments"]
ASSUMPTIONS = []

for mod, names in {
    "c01": ["unitary", "apply_gate", "concatenation", "appended", "default_width"],
    "c03": None,
    "c04": ["outcome_probabilities", "probabilities", "exact_distribution", "texts_to_tuples", "tuple_to_text", "samples"],
    "c06": ["free_symbols", "circuit_symbols", "circuit_bind", "circuit_matrix", "bind_gate", "bind_operation", "custom_gate"],
    "c08": ["inverse", "inverse_twice", "controlled", "ancilla"],
    "c09": None,
    "c10": ["parity_vector", "bit_matrix", "expectation", "counts", "values", "covariances", "distribution", "parity_values", "parity_correlations", "parity_scalar"],
    "c12": ["construction", "binding", "flipped", "saved_and_loaded", "amplitudes", "arrays_as_dictionaries"],
    "c13": ["expand_all_layout", "combine_counts_groups", "combine_bitstrings_groups", "combine_any_two", "batches"],
    "c15": ["split", "not_measured", "averaging", "exact", "binding", "basis_state", "exact_simulator", "constants"],  # real_part is in place by design
    "c16": None,
    "c17": None,
    "c18": None,
}.items():
    TRUSTED += borrow("C20", mod, names, frame=True)

TRUSTED += borrow("C20", "c10", ["counts_in"])  # freezes the counts; the receiver of add_counts is written by design
