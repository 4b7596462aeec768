"""What each check runs. props: name -> {"quick": (cases, time cap s), "thorough": (...)}; the case count decides, the cap is a safety net."""

CRYPTO = ["shim"] + ["src/%s.cpp" % f for f in (
    "hash_t hash_512_t addr_t pubkey_t signature_t secp256k1 mnemonic wordlist_en sha256_64_x8 sha256_ni sha256_ni_rec sha256_avx2 "
    "sha256_arm sha256_arm_rec sha512 hmac_sha512").split()]


def b(quick, thorough, cap=60, tcap=900, what=""):
    return {"quick": (quick, cap), "thorough": (thorough, tcap), "what": what}

from vbuild import CORE, FULL

DB = ["shim", "iface", "gen_core", "mmx_db"]

SHIM_NOTE = "the vnx-base, uint128/uint256, bech32 and lexy submodules are absent; the stand-ins in /verif/shim replace them (validated on the mainnet transactions and binaries in the repository)"

CHECKS = {
    "C01": dict(level="exploration", rule="lengths concentrated on block/padding boundaries, random chunking and alignment; non-trivial: at least one byte hashed (one iteration for the recursive form)",
        assumptions=["reference SHA-2/HMAC in harness/ref_crypto.h (constants computed from primes, self-tested on FIPS vectors)", "x86 code paths only; the ARM variants cannot run here", SHIM_NOTE],
        parts=[dict(src="harness/crypto.cpp", sets=CRYPTO, profile="asan_ub", props={
            "sha256_oneshot": b(120000, 3000000), "sha256_lanes": b(60000, 2000000), "sha256_recursive": b(30000, 1000000),
            "sha512_stream": b(120000, 3000000), "hmac": b(60000, 2000000), "btree_hash": b(40000, 500000)})]),
    "C02": dict(level="exploration", rule="histories of up to 25 verify() calls over a pool of genuine, repeated, cross-matched and bit-flipped (signature, key, hash) triples; non-trivial: the history contains both an accepted and a rejected call",
        assumptions=["libsecp256k1's own ECDSA is the oracle, called directly on a separate context"],
        parts=[dict(src="harness/crypto.cpp", sets=CRYPTO, profile="asan_ub", props={"signature_history": b(60000, 1500000)})]),
    "C03": dict(level="exploration", rule="random, repeated-byte and sparse 256-bit values; 1..4 substituted characters; altered phrases; non-trivial: value not all zero / every case",
        assumptions=["the bech32 coder is a stand-in for the absent libbech32 submodule; what is under test is the 256-bit <-> 5-bit packing and the acceptance rules in addr_t"],
        parts=[dict(src="harness/crypto.cpp", sets=CRYPTO, profile="asan_ub", props={
            "address_text": b(60000, 2000000), "hex_and_integers": b(60000, 2000000), "mnemonic_words": b(12000, 300000)})]),
    "C04": dict(level="exploration", rule="symbol lists biased to long symbols, all bit offsets; random words for the decoder; non-trivial: more than one symbol / something decoded / at least one field",
        assumptions=["symbol code, line point and memory hash re-implemented in harness/pos.cpp from their definitions", SHIM_NOTE],
        parts=[dict(src="harness/pos.cpp", sets=CORE, profile="asan_ub", props={
            "symbol_codec": b(600000, 15000000), "decode_any": b(400000, 10000000), "bit_packing": b(300000, 9000000), "line_point": b(600000, 15000000), "mem_hash": b(40000, 1000000)})]),
    "C05": dict(level="exploration", rule="k=8..10 full tables with genuine, permuted, altered, resized and out-of-window proofs; generated plot files with k up to 17; non-trivial: at least one verification / one entry in the window / one verified proof",
        assumptions=["the matching rule (Y+1) and table hash are re-implemented from the code's own definition", "plots larger than k=17 are not generated", SHIM_NOTE],
        parts=[dict(src="harness/pos.cpp", sets=CORE, profile="fast", props={
            "pos_verify": b(2500, 60000, 120), "plot_lookup": b(2000, 40000, 120), "plot_proofs": b(900, 20000, 150)})]),
    "C06": dict(level="exploration", rule="main network and varied chain parameters, values at thresholds, caps and interval boundaries; non-trivial: non-zero difficulty, fees or iterations, more than one X value",
        assumptions=["formulas re-derived in exact arithmetic (boost cpp_int), hashes with the reference SHA-256", "values beyond 2^62 (iterations), 2^60 (rewards) and 2^56 (fees) are not generated", SHIM_NOTE],
        parts=[dict(src="harness/math.cpp", sets=CORE, profile="asan_ub", props={
            "space_and_time": b(400000, 10000000), "rewards_and_fees": b(400000, 10000000), "challenges": b(150000, 4000000), "implicit_deposit": b(50000, 1000000)})]),
    "C07": dict(level="exploration", rule="values around powers of two and ten, decimal text with fraction and exponent, doubles of every magnitude; non-trivial: non-zero value",
        assumptions=["the 128/256-bit integer classes are stand-ins for an absent submodule; conversions to and from them are what is tested", SHIM_NOTE],
        parts=[dict(src="harness/math.cpp", sets=CORE, profile="asan_ub", props={
            "uint128_text": b(200000, 5000000), "fixed_text": b(400000, 10000000), "amount_from_double": b(400000, 10000000)})]),
    "C10": dict(level="exploration", rule="histories of up to 120 inserts/commits/reverts/flushes/reopens over 1-3 tables with tiny blocks so that merging happens; non-trivial: more than one key and at least one revert or block file",
        assumptions=["explicit flush only directly after a commit or revert, as the database itself does", "thread pool replaced by inline execution", SHIM_NOTE],
        parts=[dict(src="harness/db.cpp", sets=DB, profile="asan_ub", props={"db_model": b(40000, 1500000, 120)})]),
    "C11": dict(level="fault_enumeration", rule="a history of up to 60 operations is run once to count its file-system effects, then again with the process killed at a drawn effect (the effect itself torn at a drawn byte), and up to two more times during recovery; non-trivial: the process died",
        assumptions=["process death only: what was written stays written, in order (no power-loss reordering)", "file layer is the stand-in in shim/, with drawn buffer sizes", SHIM_NOTE],
        parts=[dict(src="harness/db.cpp", sets=DB, profile="asan_ub", props={"db_crash": b(50000, 2000000, 120)})]),
    "C12": dict(level="exploration", rule="histories over nine key shapes with boundary integers and nearly equal hashes; non-trivial: at least two keys and a query that finds something",
        assumptions=["uncommitted data is not flushed explicitly", SHIM_NOTE],
        parts=[dict(src="harness/db.cpp", sets=DB, profile="asan_ub", props={"typed_tables": b(120000, 3000000, 120), "multi_tables": b(120000, 3000000, 120)})]),
    "C20": dict(level="exploration", rule="values of every type with boundary integers, strings, binaries, arrays, maps and references, flags and reference counts, plus random and mutated byte strings for the reader; non-trivial: value with content / mixed types compared / something decoded",
        assumptions=[SHIM_NOTE],
        parts=[dict(src="harness/vm.cpp", sets=CORE, profile="asan_ub", props={"value_codec": b(400000, 8000000), "value_order": b(400000, 8000000)})]),
    "C21": dict(level="exploration", rule="instruction sequences (structured ones that compute, store, nest containers, call and convert, wild ones with random operands, and loops that nest, double or accumulate), contexts with persisted storage, and transactions of several nested contract calls; non-trivial: at least ten instructions executed / storage written / a remote call made",
        assumptions=["reference interpreter in harness/vm_model.h written from docs and the instruction set's definition", "gas of a failing instruction is compared with a slack of 40000 because the C++ evaluation order of operands is not specified; whether it fails, and gas of everything that succeeds, is exact", SHIM_NOTE],
        parts=[dict(src="harness/vm.cpp", sets=CORE, profile="asan_ub", props={
            "engine_growth": b(5000, 200000, 150), "engine_model": b(14000, 500000, 150), "engine_model_wild": b(14000, 500000, 150), "engine_nested": b(8000, 200000, 150), "engine_nested_wild": b(8000, 200000, 150)})]),
    "C22": dict(level="exploration", rule="loops that nest, double or accumulate values until a limit stops them (memory held at the end is bounded by the gas used), mutated programs with hostile operands, and raw bytes given to the code reader, then run with a gas limit; each case has its own CPU-time and memory limit; non-trivial: at least one instruction executed",
        assumptions=["CPU and memory limits per case are several hundred times above what ordinary cases need"],
        parts=[dict(src="harness/vm.cpp", sets=CORE, profile="asan_ub", props={"engine_growth": b(6000, 200000, 150), "hostile_code": b(30000, 800000, 200), "hostile_bytes": b(40000, 1000000, 200)})]),
    "C25": dict(level="exploration", rule="instruction lists with every opcode, flag combination and operand size, and random or truncated byte strings; non-trivial: at least one instruction decoded",
        assumptions=[SHIM_NOTE],
        parts=[dict(src="harness/vm.cpp", sets=CORE, profile="asan_ub", props={"code_codec": b(120000, 3000000)})]),
    "C23": dict(level="exploration", rule="histories of blocks of transactions through nested caches (committed or dropped), commits, reverts, restarts and queries at every height, over contracts with nearly equal addresses; non-trivial: at least three stored values and two queries",
        assumptions=["keys are written once, as the engine does", "contracts whose addresses share the first 20 bytes are not generated (finding two takes 2^80 hashes)", SHIM_NOTE],
        parts=[dict(src="harness/storage.cpp", sets=CORE, profile="asan_ub", props={"storage_model": b(30000, 1500000, 150)})]),
    "C30": dict(level="exploration", rule="transactions, blocks, contracts, operations, solutions and proofs with random content, then single changes to one of ~60 fields; plus the eleven main network transactions shipped with the code; non-trivial: has inputs, operations or a contract",
        assumptions=["the canonical byte form is written down in harness/tx_gen.h, hashed with the reference SHA-256", SHIM_NOTE],
        parts=[dict(src="harness/tx.cpp", sets=CORE, profile="asan_ub", props={"transaction_id": b(50000, 1500000), "block_hash": b(30000, 1000000), "part_hash": b(100000, 3000000), "network_transactions": b(8000, 100000)})]),
    "C31": dict(level="exploration", rule="transactions, contracts and blocks that satisfy every static rule, under random fee parameters, then one of 21 faults (14 for blocks, 17 for contracts); non-trivial: a fault was applied",
        assumptions=["costs re-derived in exact arithmetic", SHIM_NOTE],
        parts=[dict(src="harness/tx.cpp", sets=CORE, profile="asan_ub", props={"static_rules": b(80000, 2000000), "contract_rules": b(80000, 2000000), "block_sums": b(30000, 1000000), "tx_totals": b(60000, 2000000)})]),
    "C32": dict(level="exploration", rule="owners and solutions over six keys: genuine, of another transaction, by another key, corrupted, missing, misplaced and foreign signatures, both rule versions; non-trivial: a solution of a known type is present",
        assumptions=["ECDSA itself is covered by C02"],
        parts=[dict(src="harness/tx.cpp", sets=CORE, profile="asan_ub", props={"authorization": b(200000, 6000000)})]),
    "C33": dict(level="exploration", rule="random objects of every kind that is stored or sent; non-trivial: every case",
        assumptions=["the wire and JSON primitives are stand-ins (the vnx submodule is absent); what is tested is the repository's generated per-class code and its own field types", SHIM_NOTE],
        parts=[dict(src="harness/tx.cpp", sets=CORE, profile="asan_ub", props={"object_roundtrip": b(40000, 1000000)})]),
}

NODE_SETS = FULL + ["src/Node_tests.cpp"]
SIM = "the world is simulated in one process: virtual clock, small plots (k=8) and short VDFs made by the harness, parameters scaled down accordingly; messages reach nodes through their own handlers, one at a time"


def node(cases, tcases, rule, assumptions, **props):
    from vbuild import POS_WRAP
    return dict(level="exploration", rule=rule, assumptions=[SIM] + assumptions + [SHIM_NOTE],
        parts=[dict(src="harness/node.cpp", sets=NODE_SETS, profile="fast", libs=POS_WRAP, props={n: b(*v) for n, v in (props or {cases: tcases}).items()})])

CHECKS.update({
    "C40": node(0, 0, "chains of 4..20 blocks, filled from a pool of ~25 kinds of transaction (valid, invalid, conflicting, failing, underpaid), by farmers of differing luck; non-trivial: transactions were included", ["contract code is taken from the VM's result (C21 covers the VM)"], ledger=(400, 12000, 200)),
    "C41": node(0, 0, "two chains of different length and content from a common ancestor, delivered to a third node in drawn order with restarts; non-trivial: the node really switched chains", ["answers compared are those of the public query interface"], reorganization=(500, 15000, 200)),
    "C42": node(0, 0, "one of 65 defects built into a genuine block, the block completed and signed again; non-trivial: a defect was applied", ["proofs of space cannot be forged by the generator beyond altering genuine ones"], tampered_blocks=(1000, 30000, 250)),
    "C43": node(0, 0, "two nodes making blocks in turn with up to 40 waiting transactions of ~25 kinds; non-trivial: more than two blocks made", [], production=(1200, 30000, 250)),
    "C44": node(0, 0, "two or three nodes grow chains of their own from a common one and hear of parts of each other's; then all, and two fresh ones, hear of everything in drawn order; non-trivial: more than one competing chain", ["no votes are delivered, so the longest-chain rule decides"], agreement=(1200, 30000, 250)),
    "C45": node(0, 0, "a growing chain in which altered proofs of time (9 kinds), responses (16 kinds) and votes (4 kinds) arrive before the genuine ones; non-trivial: something altered was sent", [], tampered_inputs=(800, 20000, 250)),
})
