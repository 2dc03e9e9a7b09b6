"""Deductive layer: contracts/*.vx on functions mechanically extracted from /repo, decided by Verus.

run(pid, ...) extracts the functions of the property's templates from /repo's current tree, runs Verus on the
result, and classifies every function under contract:
  proved   all obligations of the function discharged (callees by their contracts)
  failed   the verifier refuses the contract of a function whose loop structure is the one the invariants were
           written for
  skipped  the function left the verifier's reach (an anchor of its proof text is gone, its loops were
           restructured, it uses a construct the extraction or Verus does not support): its contract is then
           assumed for callers and the property rests on the bounded layer for this function
"""
import fcntl, json, os, re, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

TOOLCHAIN = "nightly-2024-07-07"
VERUS_CONF = {"short": "short", "long": "", "legacy": "short,legacy", "par": "short,parallel_syn"}
PERM = ["permute.apply_mds", "permute.full_round", "permute.part_round", "permute"]
SPECS = ["P128Pow5T3::full_rounds", "P128Pow5T3::partial_rounds", "P128Pow5T3::sbox", "P128Pow5T3::constants", "Fr::partial_rounds"]
COMPACT = ["mat_mul", "vec_accumulate", "vec_remove_tail", "P128Pow5T3Compact::full_rounds", "P128Pow5T3Compact::partial_rounds",
           "P128Pow5T3Compact::sbox", "P128Pow5T3Compact::constants"]
CACHE = ["CONSTANTS__init", "HashSpec::cached_round_constants", "HashSpec::cached_mds"]
SPONGE = ["poseidon_sponge", "Absorbing<F,RATE>::init_with", "Sponge(absorbing)::new", "Sponge(absorbing)::update_capacity",
          "Sponge(absorbing)::absorb", "Sponge(absorbing)::finish_absorbing", "Sponge(squeezing)::squeeze", "Hash::init", "Hash::permute"]
dom = lambda d: [f"{d}::initial_capacity_element", f"{d}::padding", f"{d}::layout"]
HASHERS = ["Hashable::hasher", "MessageHashable::msg_hasher", "Hashable(Fr)::hasher", "MessageHashable(Fr)::msg_hasher"]
H3 = ["Hashable::hash", "Hashable(Fr)::hash_with_domain", "Hash(ConstantLengthIden3)::hash"]
H4 = ["MessageHashable(Fr)::hash_msg", "Hash(VariableLengthIden3)::hash_with_cap"]
H5 = ["Hash(ConstantLength)::hash"]
BASE, TABLE, GADGET, GRAIN, CTABLE = "base.vx", "table_top.vx", "gadget_top.vx", "grain_top.vx", "ctable_top.vx"
GEN = ["FieldType::tag", "SboxType::tag", "Grain<F>::new", "Grain<F>::load_next_8_bits", "Grain<F>::get_next_bit", "Iterator for Grain<F>::next"]
LFSR = ["first_is", "lfsr_shift", "le_update", "set_bit", "put_bit"]
HG = ["gadget poseidon_sponge"] + ["gadget Sponge(absorbing)::" + m for m in ("new", "absorb", "finish_absorbing")] + ["gadget Sponge(squeezing)::squeeze",
      "gadget Hash::init", "gadget Hash(ConstantLength)::hash"]
SEPT = "septidon_top.vx"
SEP_BOTH = ["round_constant", "mds", "Cell::configure", "Cell::new", "Cell::rotated", "SBox::configure", "FullState::configure", "SeptupleRoundChip::input", "TransitionRoundChip::input",
            "TransitionRoundChip::round_constant", "FullRoundChip::input_cells", "SeptidonChip::initial_state_cells", "SeptidonChip::final_state_cells", "SeptidonChip::final_offset", "SeptidonChip::height_per_permutation"]
SEP_GATES = ["pow_5__expr", "matmul__expr", "select__expr", "sbox__expr", "join_values", "split_values", "Cell::query", "SBox::input_expr", "SBox::rc_expr", "SBox::output_expr", "LoopChip::configure", "FullRoundChip::configure",
             "FullRoundChip::full_round_expr", "SeptupleRoundChip::configure", "SeptupleRoundChip::partial_round_expr", "TransitionRoundChip::configure", "TransitionRoundChip::first_partial_round_expr",
             "ControlChip::configure", "ControlChip::derive_selector", "SeptidonChip::configure", "SeptidonChip::chip_configure", "SeptidonChip::chip_construct"]
SEP_CELLS = ["pow_5__value", "matmul__value", "sbox__value", "Cell::region_offset", "Cell::assign", "SBox::assign", "FullRoundChip::assign", "SeptupleRoundChip::assign", "TransitionRoundChip::helper_cell",
             "TransitionRoundChip::assign_first_partial_state", "TransitionRoundChip::first_partial_round", "TransitionRoundChip::assign_final_state", "ControlChip::assign", "ControlChip::assign_with_offset",
             "SeptidonChip::assign_permutation", "SeptidonChip::assign_permutation_with_offset", "StateWord<F>::word_value", "SeptidonChip::instr_permute", "SeptidonChip::instr_permute_batch"]
POW5 = "pow5_top.vx"
P5_GATES = ["Pow5Chip::configure", "Pow5Chip::construct", "Pow5Chip::chip_config"]
P5_CELLS = ["StateWord<F>::word_value"] + ["Pow5State::" + m for m in ("load", "full_round", "partial_round_single", "partial_round")] + \
           ["Pow5Chip::" + m for m in ("instr_permute", "sponge_initial_state", "sponge_add_input", "sponge_get_output")]
# a function the property only leans on: broken, it is another property's violation
dep = lambda l: ["~" + x for x in l]
FILL = ["SpongeChip::" + m for m in ("load", "fill_hash_tbl_custom", "fill_hash_tbl_body", "fill_hash_tbl_body_partial")]
STACK = ["sin_cut", "stop_cut", "filled_cut", "unstack_is", "filled_moved", "hands_cut", "one_region", "piece_facts", "many_regions", "piece_words", "stacked_more"]
# property -> [(template, feature sets, functions, lemmas)]
PROPS = {
    "C01": [(BASE, ["short", "long"], PERM + SPECS + COMPACT + CACHE, ["compact_same", "same_rounds", "cached_is_published"])],
    "C02": [(BASE, ["short"], COMPACT + PERM, ["compact_same", "compact_len"])],
    "C03": [(BASE, ["short", "long"], H3 + dom("ConstantLengthIden3") + SPONGE, ["pair_digest", "digest_same", "sponge_same", "cached_is_published"])],
    "C04": [(BASE, ["short", "long", "legacy"], H4 + dom("VariableLengthIden3") + SPONGE, ["digest_same", "sponge_same", "cached_is_published"])],
    "C05": [(BASE, ["short"], H5 + H3[2:] + H4[1:] + dom("ConstantLength") + dom("ConstantLengthIden3") + dom("VariableLengthIden3") + SPONGE,
             ["after_full", "after_is_sponge"])],
    "C06": [(BASE, ["short", "long"], H3 + H4 + H5 + HASHERS + SPONGE + PERM + CACHE, [])],
    "C07": [(GRAIN, ["short"], GEN + ["Grain<F>::next_field_element", "Grain<F>::next_field_element_without_rejection", "generate_mds", "Spec::constants"],
             LFSR + ["acc_is", "sel_is", "passed_mono"])],
    "C08": [(GRAIN, ["short"], ["generate_mds.l", "generate_mds", "Grain<F>::next_field_element_without_rejection"] + GEN,
             LFSR + ["sel_is", "passed_mono", "dd_len", "halves", "negs_distinct"])],
    "C09": [(BASE, ["short", "long"], ["Hashable::hash_block_size", "PoseidonHashTable(rows)::minimum_row_require", "PoseidonHashTable::table_size"], [])],
    "C10": [(SEPT, ["short"], SEP_BOTH + SEP_GATES + dep(SEP_CELLS),
             ["marks", "switch", "seven", "first_half", "one_full", "middle", "second_half", "permutation_sound", "published", "chunk_size", "chunk_obeyed", "batch_obeyed", "block_forced", "batch_forced", "permute_forced"])],
    "C11": [(SEPT, ["short"], SEP_BOTH + SEP_CELLS + dep(SEP_GATES),
             ["parts_are", "part_row", "sum8", "marks_in", "marks_out", "full_cells", "part_cells", "chain_is", "mid_cells", "permutation_complete", "batch_laid", "published", "chunk_size"])],
    "C12": [(POW5, ["long"], P5_GATES + dep(P5_CELLS),
             ["lines_gate", "lines_push", "behind_step", "row", "one_row", "keyed_row", "inverse_undoes", "exchange", "sound", "add_keeps", "add_sound", "ready"])],
    "C13": [(POW5, ["long"], P5_CELLS + dep(P5_GATES),
             ["row_one", "one_round", "two_rounds", "row", "one_row", "keyed_row", "honest_row", "off", "inverse_undoes", "exchange", "complete", "feed_one", "add_all", "add_complete", "start_row", "ready"])],
    "C14": [(CTABLE, ["short"], ["SpongeConfig::configure_sub"],
             ["linked_at", "first_marked", "last_marked", "table_marks", "entry_sponge", "entry_index", "table_entries", "table_is_satisfied"])],
    "C15": [(CTABLE, ["par"], FILL + ["SpongeConfig::configure_sub"], STACK +
             ["holds_row_same", "stop_is", "row_is_linked", "body_row", "blank_row", "serial_is_accepted", "loaded_is_accepted"])],
    "C16": [(CTABLE, ["par"], FILL, STACK + ["one_row", "one_head", "word_rows", "same_circuit"])],
    "C18": [(GADGET, ["short"], HG + dom("ConstantLength") + ["Absorbing<F,RATE>::init_with"], ["after_full", "after_is_sponge", "after_front", "after_len", "pad_facts"])],
    "C17": [(TABLE, ["short"], ["PoseidonHashTable::" + m for m in ("constant_inputs", "constant_inputs_with_check", "fixed_inputs",
             "stream_inputs", "stream_inputs_with_check", "table_size")], [])],
}
# lemmas over the contracts that need polynomials: proved in Lean 4 with Mathlib
LEAN = {"C08": [("Cauchy.lean", "exact_inverse", "the matrices of generate_mds's contract are inverse to each other, for every width and field")]}
TRUSTED = {
    GRAIN: [
        "Verus 0.2026.09.13 with its bundled Z3 and vstd's specifications of Vec (push, clone, split_off), slices, arrays, Option",
        "field contracts (contracts/gprelude.vx): from_repr_vartime accepts exactly the little-endian numbers below the modulus; from_uniform_bytes reduces the little-endian number of 64 bytes; invert of a non-zero element; a - b = 0 only if a = b; negation is injective; a Repr has room for NUM_BITS bits and NUM_BITS <= 512",
        "bitvec: BitArr!(for 80, in u8, Msb0) is an array of 80 bits under indexing, get_mut and rotate_left; Repr::as_mut exposes the bytes",
        "std: sort_unstable permutes and groups equal elements; dedup removes every element equal to its predecessor; rotate_left; by_ref().take(n) calls next n times; iterator adaptors equal their definitional loops",
        "termination of the rejection loops is not claimed (partial correctness)",
        "machine integers are NOT treated as mathematical: shifts and usize arithmetic are checked on a 64-bit target; `as u16` truncates as in Rust",
    ],
    GADGET: [
        "Verus 0.2026.09.13 with its bundled Z3 and vstd's specifications of arrays, Option, Result, Into",
        "the chip's contract (contracts/gadget.vx: permute, initial_state, add_input, get_output constrain the cells they return): established for the row-per-round chip by the theorems of C12/C13 (contracts/pow5proof.vx) for every width and number of rounds",
        "halo2: a cell has one value in a satisfying assignment; converting a state word into its cell keeps the value; layouters and region names have no influence on values",
        "std: iterator adaptors and Result::map equal their definitions",
    ],
    CTABLE: [
        "Verus 0.2026.09.13 with its bundled Z3 and vstd's specifications of Vec, slices, arrays, Option, Result",
        "field axioms (contracts/cprelude.vx): commutative ring with 1 and no zero divisors; invert of a non-zero element; from_u128 maps integers homomorphically and is injective below the modulus",
        "halo2 (contracts/cprelude.vx): an Expression evaluates at a row as its definition says, a rotated query reads the neighbouring row, a circuit is satisfied iff every gate vanishes and every lookup input is found in its table, at every row",
        "the permutation chip's configure only adds its own constraints; that its output is the permutation of its input is C10/C12, and that its cells are copied to the table's state columns is C15/C16",
        "halo2 regions (contracts/region.vx): assign_advice/assign_fixed/enable set one cell of the region when they return Ok and the cell returned stands for it; cells not assigned hold zero; a word of the permutation circuit keeps the cell it was made from",
        "halo2 layouters (contracts/layouter.vx): regions are placed in the order they are assigned, one under the other when they use the same columns; a closure handed to assign_regions runs once for the shape and once to assign, on fresh regions; constrain_equal binds the two cells named; assign_table's closure fills the table columns",
        "the permutation chip's permute and permute_batch constrain the words they return to be the permutation of the words given (C10, C12) and leave the cells already placed alone",
        "Vec::into_iter yields the elements in order; a cloned word is equal; the environment variable and the number of threads are arbitrary",
        "Hash::permute is a function of the state (proved in base.vx for C01/C06); 2^128 < modulus",
        "(n+1) * step * 2^64 < modulus: the table is shorter than the field",
    ],
    SEPT: [
        "Verus 0.2026.09.13 with its bundled Z3 and vstd's specifications of Vec, slices, arrays, Option, Result",
        "field axioms (contracts/cprelude.vx, sepsound.vx): commutative ring with 1, 0 != 1 and no zero divisors; the operators compute it",
        "CachedConstants hands out 65 rows of round constants and the 3x3 matrix, the same on every call; that they are the published ones, and that partial rounds have constants in the first word only (premise `compacted`), is C01/C02/C07",
        "halo2 (contracts/cprelude.vx): an Expression evaluates at a row as its definition says, a rotated query reads the row at that distance, a circuit is satisfied iff every gate vanishes at every row",
        "halo2 regions (contracts/region.vx): assign_advice/assign_fixed set one cell of the region when they return Ok; copy_advice assigns the value and ties the two cells; fixed cells not assigned hold zero",
        "halo2 layouters (contracts/layouter.vx): a closure handed to assign_regions runs once for the shape and once to assign, on fresh regions numbered in order; tied cells hold one value; regions are placed on rows of their own",
        "slice::chunks, Iterator::flatten, map, collect, try_into equal their definitions; the number of threads is arbitrary; enable_equality is not modelled (the harness checks it)",
        "batches of fewer than 2^27 permutations (row offsets fit an i32)",
    ],
    POW5: [
        "Verus 0.2026.09.13 with its bundled Z3 and vstd's specifications of Vec, slices, arrays, Option, Result",
        "field axioms (contracts/cprelude.vx): commutative ring with 1, 0 != 1 and no zero divisors; the operators compute it; pow(5) is x^4 * x",
        "Spec hands out full_rounds + partial_rounds rows of constants and two matrices, the same on every call; an odd number of full rounds is refused by configure; that the constants are the published ones is C07, that the matrices are inverse to each other (premise `inverse`) is C08",
        "halo2 (contracts/cprelude.vx): an Expression evaluates at a row as its definition says, a rotated query reads the row at that distance, a circuit is satisfied iff every gate vanishes at every row",
        "halo2 regions (contracts/region.vx): assign_advice/assign_fixed/enable set one cell of the region when they return Ok; copy_advice assigns the value and ties the two cells; assign_advice_from_constant ties the cell to one that holds the constant; selectors not set hold zero; Value computes on what it holds, and a witness is known when the circuit is assigned",
        "halo2 layouters (contracts/layouter.vx): a closure handed to assign_region runs once for the shape and once to assign, on fresh regions numbered in order; tied cells hold one value; regions are placed on rows of their own",
        "the columns handed to configure are distinct and 2 <= WIDTH <= 2^30; fewer than 2^32 rounds of each kind; enable_equality, enable_constant and the conversion of a column to Any are not modelled (the harness checks them)",
        "map, fold, reduce, zip, chain, enumerate, collect, try_into equal their definitions",
    ],
    TABLE: [
        "Verus 0.2026.09.13 with its bundled Z3 and vstd's specifications of Vec (push, append, resize), slices, Option",
        "an argument `impl IntoIterator` is the finite sequence of items it yields; iter::successors, take, collect equal their definitional loops",
        "the derived Clone of a field element returns the value",
        "a failed assert! does not return",
    ],
    BASE: [
        "Verus 0.2026.09.13 with its bundled Z3 and vstd's specifications of Vec, slices, arrays, Option",
        "field axioms (contracts/prelude.vx): + * form a commutative ring with the named operators computing it; F::ZERO is its zero; From<u64>/from_u128 map integers homomorphically; pow_vartime(n) is n-fold multiplication",
        "published_rc / published_mds stand for the values of the tables in bn256/fp.rs (their values are compared with an independent Grain run by the harness)",
        "std: iterator adaptors equal their definitional loops; Vec::try_into of the right length; OnceCell/lazy_static return the initialiser's value; derived Clone of Hash returns an equal value",
        "machine integers are NOT treated as mathematical: usize arithmetic is checked for overflow on a 64-bit target",
    ],
}


def setup(repo, verif):
    return extractor(verif) is not None


def extractor(verif):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(verif, "build", "rust"), RUSTUP_TOOLCHAIN=TOOLCHAIN)
    e.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", f"+{TOOLCHAIN}", "build", "--offline", "-q", "-p", "extract"], cwd=os.path.join(verif, "rust"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    x = os.path.join(verif, "build", "rust", "debug", "extract")
    if r.returncode != 0 or not os.path.exists(x):
        print(r.stdout[-3000:])
        return None
    return x


class Session:
    """one template in one feature set"""

    def __init__(self, exe, repo, verif, template, feats, tmp):
        self.exe, self.repo, self.template, self.feats = exe, repo, os.path.join(verif, "contracts", template), feats
        self.out = os.path.join(tmp, f"vx{len(os.listdir(tmp))}.rs")
        self.solver, self.cmds = 0.0, []

    def extract(self, skip=(), probe=False):
        e = dict(os.environ)
        e.pop("EXTRACT_PROBE", None)
        if probe:
            e["EXTRACT_PROBE"] = "1"
        r = subprocess.run([self.exe, self.repo, self.template, self.out, self.feats, ",".join(skip)], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        if r.returncode != 0:
            raise RuntimeError("extractor: " + r.stderr[-800:])
        fns, lost, drop = {}, {}, []
        for l in r.stdout.splitlines():
            p = l.split("\t")
            if p[0] == "FN":
                fns[p[1]] = dict(first=int(p[2]), last=int(p[3]), mode=p[4], shape=p[5], file=p[6], hash=p[7])
            elif p[0] == "LOST":
                lost[p[1]] = p[2]
            elif p[0] == "DROP":
                drop.append(p[1])
            elif p[0] == "ITEMS":
                self.items = p[1]
        return fns, lost, drop

    def assume_lemmas(self):
        """the vacuity probe asks only about the functions: the lemmas, proved in the main run, are not proved again"""
        prev, out = "", []
        for l in open(self.out).read().split("\n"):
            m = re.match(r"(\s*)((pub(\([a-z]+\))? )?(broadcast )?proof fn .*)", l)
            if m and "external_body" not in prev + l and not l.rstrip().endswith(";"):
                l = m.group(1) + "#[verifier::external_body] " + m.group(2)
            if l.strip():
                prev = l
            out.append(l)
        open(self.out, "w").write("\n".join(out))

    def verus(self, budget, extra=()):
        cmd = ["verus", "--triggers-mode", "silent", self.out, "--output-json", "--time-expanded"] + list(extra)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget, cwd=os.path.dirname(self.out))
        except subprocess.TimeoutExpired:
            return None, [], "timeout"
        try:
            j = json.loads(r.stdout)
        except ValueError:
            j = {}
        errs = []
        for blk in re.split(r"\n(?=error|warning|note)", "\n" + r.stderr):
            b = blk.strip("\n")
            if not b.startswith("error"):
                continue
            lines = [int(x) for x in re.findall(r"--> [^\n:]*\.rs:(\d+):", b)] + [int(x) for x in re.findall(r"^ *::: [^\n:]*\.rs:(\d+):", b, re.M)]
            marks = [int(x) for x in re.findall(r"^(\d+) +\|", b, re.M)]
            if lines:
                errs.append(dict(line=lines[0], all=lines + marks, text=b[:1500]))
        t = j.get("times-ms") or {}
        self.solver += ((t.get("smt") or {}).get("total") or 0) / 1000.0
        return j, errs, r.stderr


def proof_fns(text):
    """name -> (first, last) of the proof functions written in the contracts"""
    out, cur = {}, None
    for n, l in enumerate(text.splitlines(), 1):
        m = re.match(r"\s*(?:pub(?:\([a-z]+\))? )?(?:broadcast )?(?:proof|axiom) fn (\w+)", l)
        if m:
            cur = m.group(1)
            out[cur] = [n, n, "axiom" in l]
        elif re.match(r"\s*(?:pub(?:\([a-z]+\))? )?(?:open |closed |uninterp )?(?:spec )?fn ", l) or l.startswith(("//@", "impl", "pub mod", "mod ")):
            cur = None
        elif cur:
            out[cur][1] = n
    return out


def baseline(verif, template, feats):
    p = os.path.join(verif, "contracts", "shapes.json")
    return json.load(open(p)).get(f"{template}:{feats}", {}) if os.path.exists(p) else {}


def decide(exe, repo, verif, template, feats, tmp, budget=240):
    """every function and lemma of one template -> (status, detail)"""
    s = Session(exe, repo, verif, template, feats, tmp)
    base = baseline(verif, template, feats)
    t_end = time.time() + budget
    skip, why, res = [], {}, {}
    verified = 0
    while True:
        fns, lost, drop = s.extract(skip)
        for k, w in lost.items():
            why.setdefault(k, w)
        j, errs, text = s.verus(max(20, t_end - time.time()), ["--rlimit", "30", "--no-auto-recommends-check", "--multiple-errors", "0"])
        vr = (j or {}).get("verification-results") or {}
        where = lambda n: next((k for k, f in fns.items() if f["first"] <= n <= f["last"]), None)
        if j is None or "verified" not in vr or (vr.get("verified", 0) == 0 and vr.get("errors", 0) == 0) or vr.get("encountered-vir-error"):
            # the text does not compile: the functions named by the messages leave the verifier's reach
            hit = set()
            for e in errs:
                k = where(e["line"]) or next((where(n) for n in e["all"] if where(n)), None)
                if k and fns[k]["mode"] == "verified":
                    hit.add(k)
                    why[k] = "outside the verifier's reach: " + e["text"].splitlines()[0][:200]
            hit -= set(skip)
            if not hit or time.time() > t_end:
                msg = (errs[0]["text"] if errs else text)[:400].replace("\n", " ")
                for k in fns:
                    res[k] = ("skipped", why.get(k, "extracted text not accepted by the verifier: " + msg))
                return dict(res=res, fns=fns, lost=why, drop=drop, verified=0, solver=s.solver, lemmas={}, why=msg)
            skip += sorted(hit)
            continue
        break
    verified = vr["verified"]
    src = open(s.out).read()
    lem = proof_fns(src)
    bad, lembad, other = {}, {}, []
    for e in errs:
        k = where(e["line"]) or next((where(n) for n in e["all"] if where(n)), None)
        if k:
            bad.setdefault(k, []).append(e["text"])
            continue
        l = next((n for n, r in lem.items() if r[0] <= e["line"] <= r[1]), None)
        (lembad.setdefault(l, []) if l else other).append(e["text"])
    for k, f in fns.items():
        outer = k.split(".")[0]
        newcl = [x for x in fns if x.startswith(outer + ".") and x not in base]
        if f["mode"] == "trusted":
            res[k] = ("trusted", "contract assumed")
        elif f["mode"] != "verified":
            res[k] = ("skipped", why.get(k, f["mode"]))
        elif k in bad:
            t = "\n".join(bad[k])
            if "Resource limit" in t or "rlimit" in t:
                res[k] = ("skipped", "solver resource limit: " + t[:300])
            elif k not in base or base[k][0] != f["shape"] or newcl:
                res[k] = ("skipped", "its loops were restructured; the invariants do not fit: " + f["shape"])
            elif base[k][1] == f["hash"] and base["#items"] == s.items:
                # neither this function nor any contract, type or constant it is checked against has changed:
                # the refusal comes from how the solver saw the rest of the file
                res[k] = ("skipped", "unchanged function not proved in this context: " + t[:300])
            else:
                res[k] = ("failed", t)
        else:
            res[k] = ("proved", "")
    if other:
        for k in list(res):
            if res[k][0] == "proved":
                res[k] = ("skipped", "verifier reported an error outside any function: " + other[0][:300])
    lemmas = {n: ("trusted" if r[2] else "failed" if n in lembad else "proved") for n, r in lem.items()}
    # vacuity probe: with `assert(false)` at its entry every verified function must be refused
    probe_ok = None
    pf, _, _ = s.extract(skip, probe=True)
    s.assume_lemmas()
    j2, e2, _ = s.verus(max(20, t_end - time.time()), ["--rlimit", "10", "--no-auto-recommends-check"])
    if j2 is not None:
        seen = set()
        for e in e2:
            for k, f in pf.items():
                if f["first"] <= e["line"] <= f["last"]:
                    seen.add(k)
        mute = [k for k, f in pf.items() if f["mode"] == "verified" and k not in seen]
        probe_ok = not mute
        for k in mute:
            if res[k][0] == "proved":
                res[k] = ("skipped", "vacuous: its precondition is contradictory (probe not refused)")
    return dict(res=res, fns=fns, lost=why, drop=drop, verified=verified, solver=s.solver, lemmas=lemmas, probe=probe_ok, why="")


def run(pid, tier, repo, verif):
    out = dict(obligations=[], notes=[], assumptions=[], trusted=[], bounds=[], functions=[], solver_s=0.0, checker_cmd="")
    parts = PROPS.get(pid, [])
    if not parts:
        return out
    with open(os.path.join(verif, "build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = extractor(verif)
        if exe is not None:
            own = os.path.join(verif, "build", f"extract.{os.getpid()}")
            subprocess.run(["cp", exe, own], check=True)
    if exe is None:
        out["notes"].append("extractor does not build; contracts not decided")
        out["obligations"].append(dict(name="extractor", status="error", backend="cargo", detail="extractor does not build"))
        return out
    for f, thm, what in LEAN.get(pid, []):
        st, why = lean(verif, f, thm)
        out["obligations"].append(dict(name=f"lemma {thm}: {what}", status=st, backend="lean 4 + Mathlib", detail=why))
        out["trusted"].append(f"Lean 4.33 kernel (axioms propext, Classical.choice, Quot.sound); contracts/lean/{f} states over a Mathlib field the same formulas as the Verus contracts over the field axioms")
    out["checker_cmd"] = "verus --triggers-mode silent <extracted>.rs (extracted by rust/extract from /repo with contracts/*.vx on this run)"
    try:
        with tempfile.TemporaryDirectory(prefix="vx.") as tmp:
            todo = [(t, c, keys, lemmas) for t, confs, keys, lemmas in parts for c in confs]

            def job(i):
                d = os.path.join(tmp, str(i))
                os.mkdir(d)
                try:
                    return decide(own, repo, verif, todo[i][0], VERUS_CONF[todo[i][1]], d)
                except Exception as ex:  # noqa: BLE001
                    return ex

            with ThreadPoolExecutor(3) as pool:
                for (t, c, keys, lemmas), d in zip(todo, pool.map(job, range(len(todo)))):
                    one(out, t, c, keys, lemmas, d)
    finally:
        os.unlink(own)
    out["solver_s"] = round(out["solver_s"], 2)
    return out


def lean(verif, f, thm):
    try:
        r = subprocess.run(["lean", os.path.join(verif, "contracts", "lean", f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
    except (OSError, subprocess.TimeoutExpired) as ex:
        return "skipped", str(ex)[:200]
    ok = r.returncode == 0 and f"'{thm}' depends on axioms: [propext, Classical.choice, Quot.sound]" in r.stdout
    return ("proved", "") if ok else ("skipped", r.stdout[:300])


def one(out, template, conf, keys, lemmas, d):
    if isinstance(d, Exception):
        for k in keys:
            out["obligations"].append(dict(name=f"[{conf}] contract of {k}", status="skipped", backend="verus", detail=f"not decided: {d}"[:300]))
        return
    out["solver_s"] += d["solver"]
    for k in keys:
        lean_on, k = k.startswith("~"), k.lstrip("~")
        st, why = d["res"].get(k, ("skipped", d["lost"].get(k, d["why"] or "not found in the source")))
        if lean_on and st == "failed":
            st, why = "skipped", "a contract this property leans on is not met (reported by the property it belongs to): " + why[:300]
        out["obligations"].append(dict(name=f"[{conf}] contract of {k}", status=st, backend="verus", detail=why))
        if st in ("proved", "failed"):
            f = f"{d['fns'][k]['file']}: {k}"
            if f not in out["functions"]:
                out["functions"].append(f)
    for l in lemmas:
        st = d["lemmas"].get(l)
        out["obligations"].append(dict(name=f"[{conf}] lemma {l}", status="proved" if st == "proved" else "skipped", backend="verus",
                                       detail="" if st == "proved" else f"lemma {st or 'not reached'}; " + d["why"]))
    out["notes"].append(f"[{conf}] {template}: Verus verified {d['verified']} functions and lemmas in all; vacuity probe {'ok' if d.get('probe') else 'not passed'}")
    assumed = sorted(k for k, (s, _) in d["res"].items() if s == "trusted") + sorted(n for n, s in d["lemmas"].items() if s == "trusted")
    for t in TRUSTED[template] + [f"assumed without proof in {template}: " + ", ".join(assumed)] + ["extraction: " + x for x in d["drop"]]:
        if t not in out["trusted"]:
            out["trusted"].append(t)


def write_shapes(repo, verif):
    """contracts/shapes.json: the loop structure the invariants were written for (run on the unchanged tree)"""
    exe = extractor(verif)
    r = {}
    with tempfile.TemporaryDirectory(prefix="vx.") as tmp:
        for parts in PROPS.values():
            for template, confs, _, _ in parts:
                for c in confs:
                    f = VERUS_CONF[c]
                    s = Session(exe, repo, verif, template, f, tmp)
                    fns, _, _ = s.extract()
                    r[f"{template}:{f}"] = {"#items": s.items, **{k: [v["shape"], v["hash"]] for k, v in sorted(fns.items())}}
    with open(os.path.join(verif, "contracts", "shapes.json"), "w") as fo:
        json.dump(r, fo, indent=0, sort_keys=True)


if __name__ == "__main__":
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if sys.argv[1] == "--shapes":
        write_shapes("/repo", here)
    else:
        o = run(sys.argv[1], "quick", os.environ.get("REPO", "/repo"), here)
        for x in o["obligations"]:
            print(x["status"], x["name"], x["detail"][:200])
        print(o["notes"], o["solver_s"])
