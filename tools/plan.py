"""What each property runs, and what its evidence must say."""
FEATURES = {
    "short": [],
    "long": ["--no-default-features"],
    "legacy": ["--no-default-features", "--features", "short,legacy"],
    "cshort": [],
    "clong": ["--no-default-features", "--features", "parallel_syn"],
    "cserial": ["--no-default-features", "--features", "short"],
    "clegacy": ["--no-default-features", "--features", "short,legacy,parallel_syn"],
}
SYM = [
    "symcurves: the wrapper that stands in for halo2curves::bn256::Fr delegates concrete arithmetic to the real type and keeps a normal form for symbolic values (rust/symcurves)",
    "the independent Poseidon/Grain/sponge reference in rust/harness/src/spec.rs, itself checked against published vectors",
    "rustc, halo2curves' concrete BN254 arithmetic",
]
NZ = ["divisions: on each explored path the inverted forms are non-zero (recorded per path as notes)"]


def P(runs, level="proof", assumptions=(), bounds=(), trusted=SYM):
    return dict(runs=runs, level=level, assumptions=list(assumptions), bounds=list(bounds), trusted=list(trusted))


MOCK = SYM + [
    "rust/halo2mock: a recorder with halo2_proofs' front-end API (columns, gates, lookups, copies, constants, regions, selectors) that the unmodified circuit code is compiled against; keygen/prover/verifier are outside",
    "halo2's soundness theorem: a verifying proof implies an assignment satisfying gates, copies, lookups and fixed columns",
]
CS, CL, CX, CG = ("circ", "cshort"), ("circ", "clong"), ("circ", "cserial"), ("circ", "clegacy")
S, L, G = ("harness", "short"), ("harness", "long"), ("harness", "legacy")
PROPS = {
    "C01": P([S, L]),
    "C02": P([S], bounds=['harness: 0,1,2,3,10,56,57 partial rounds (symbolic states and constants, fixed matrices); the contracts cover every number of rounds and every matrix']),
    "C03": P([S, L]),
    "C04": P([S, L, G], bounds=["harness: message lengths 1..13 (thorough 1..40) with all contents, longer ones on samples"]),
    "C05": P([S], bounds=["harness: enumerated lengths, widths and rates with all contents"]),
    "C06": P([S, L], bounds=["call sequences of the harness are enumerated/sampled; threads are sampled"]),
    "C07": P([S], bounds=['harness: enumerated fields, widths, round counts and selection indices; the contracts cover every width, round count, index and field of up to 512 bits']),
    "C09": P([CS, CL], trusted=MOCK, bounds=["capacities 1..24 (thorough 1..80), degrees of parallelism 1,2,5,16 and serial; larger capacities by the fixed growth per entry"]),
    "C10": P([CS], trusted=MOCK, bounds=["harness: batches of the enumerated sizes, every cell symbolic; the contracts and permutation_sound / batch_forced cover every batch and every placement"]),
    "C11": P([CS], trusted=MOCK, bounds=["harness: batch sizes, thread counts and schedules are enumerated, inputs symbolic; the contracts and permutation_complete cover every batch, every number of threads and every placement"]),
    "C12": P([CL], trusted=MOCK, bounds=["harness: widths 2..5 and the listed round counts, every cell symbolic; the contracts and sound / add_sound cover every width, round count and assignment"]),
    "C13": P([CL], trusted=MOCK, bounds=["harness: widths 2..5 and the listed round counts, inputs symbolic; the contracts and complete / add_complete / start_row cover every width, round count and input"]),
    "C14": P([CS, CL, CG], trusted=MOCK, assumptions=["the permutation circuit's contract (final = P(initial)) as established by C10/C12"],
             bounds=['harness: tables of 1..6 rows with steps 1,2,3,62, every cell symbolic; the contract of configure_sub and the soundness theorem cover every step and every number of rows']),
    "C15": P([CS, CL, CX, CG], trusted=MOCK, bounds=['harness: request lists are enumerated (single requests, all pairs of kinds, longer samples) with symbolic words and domains; the contracts of load and the fill functions and the theorem cover every table and capacity']),
    "C16": P([CS, CL], trusted=MOCK, bounds=["harness: capacities up to 31 (thorough 100), degrees of parallelism 1,2,3,4,7,16,64, three fill orders; load's contract and the theorem cover every table, capacity and number of threads"]),
    "C17": P([CS], bounds=['harness: each call is checked from every state shape of up to 3 entries with up to 4 items; the contracts cover every sequence of calls']),
    "C18": P([CS, CL], trusted=MOCK, bounds=["harness: message lengths up to 9 (thorough 17), widths 2..5; the gadget's contracts cover every length, width and rate"]),
    "C08": P([S], bounds=['harness: widths 1..4, at most one coincidence per stream in quick tier; the contracts and the Lean lemma cover every width and stream'], assumptions=NZ),
}
TECHNIQUE = "contract-based deductive verification of the real code: postconditions discharged by Verus on mechanically extracted functions and by symbolic execution of the compiled code"
NOTE = "see DESIGN.md"
NOT_APPLICABLE = {}
NOTES = "DESIGN.md explains the layers; no hooks are needed in /repo."
