#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run `python3 lib/props.py` after editing (and commit the results)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
from registry import CHECKS

P = []
def prop(id, title, statement, over, quant, why, files, mech, level_note="", observe=None, technique="property-based testing", state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state or [], observe_at=observe or [], hook_needed=None),
        technique=technique, level_note=level_note))

prop("C01", "Hash functions equal the standard for every input and code path",
    """SHA-256 (one-shot, 64-byte batch forms of every width, and the recursive form used by the proof of time), SHA-512 (however the input is
    split) and HMAC-SHA-512 return exactly the standard digest for every input, length and alignment. The binary hash tree used for address lists
    depends on every leaf and its order.""",
    ["inputs"], "every byte string, length (all block/padding boundaries), alignment, chunking of the input, lane content and iteration count",
    "The repository has a handful of fixed vectors; only a small part of lengths, chunkings and lanes is touched and most SIMD lanes never are.",
    ["src/hash_t.cpp", "src/hash_512_t.cpp", "src/sha256_ni.cpp", "src/sha256_ni_rec.cpp", "src/sha256_avx2.cpp", "src/sha256_64_x8.cpp", "src/sha512.cpp", "src/hmac_sha512.cpp", "include/mmx/utils.h"],
    [("run-time dispatch between SHA-NI, AVX2 and portable code", "src/hash_t.cpp"), ("streaming buffer", "src/sha512.cpp")],
    "Differential against an independent SHA-2/HMAC implementation under ASAN+UBSAN; ARM code paths cannot run here.")
prop("C02", "Signatures are accepted exactly when they are valid, whatever came before",
    """Verifying a (signature, key, message hash) triple gives the same verdict as plain ECDSA over secp256k1 for that triple alone, no matter which
    triples were verified earlier, from which thread or how often. Keys derived from a secret verify what the secret signed and nothing else.""",
    ["inputs", "histories"], "every history of genuine, repeated, cross-matched, bit-flipped and all-zero triples",
    "Tests verify a fresh valid signature; acceptance of a wrong triple depends on the history stored in the signature cache.",
    ["src/signature_t.cpp", "src/pubkey_t.cpp", "include/mmx/skey_t.hpp", "src/secp256k1.cpp"],
    [("signature cache keyed by all of key, hash and signature", "src/signature_t.cpp")],
    "Oracle is libsecp256k1 called directly on its own context.", technique="stateful property-based testing of verification histories")
prop("C03", "Text forms of addresses, keys, hashes and seeds round-trip and catch corruption",
    """Printing and re-reading an address, hash, key or signature gives the value back, and text that is malformed (wrong length, alphabet, or an
    address with one to four substituted characters) is refused rather than read as another value. A seed phrase maps to its 256-bit seed and back,
    and a phrase with a word changed is refused or maps to a different seed that itself round-trips, with the BIP-39 checksum enforced.""",
    ["inputs"], "every 256-bit value (random, sparse, repeated), every 1-4 character substitution, every altered phrase",
    "Tests cover a few literal addresses; error detection is a property of all corrupted strings.",
    ["src/addr_t.cpp", "src/hash_t.cpp", "src/pubkey_t.cpp", "src/signature_t.cpp", "src/mnemonic.cpp", "include/mmx/bytes_t.hpp"],
    [("bech32m packing and checksum", "src/addr_t.cpp"), ("BIP-39 checksum word", "src/mnemonic.cpp"), ("hex parser", "include/mmx/bytes_t.hpp")],
    "The bech32 coder itself is a stand-in for the absent submodule.")
prop("C04", "Plot data encodings are exact for every stream",
    """Any sequence of deltas the plot format can express decodes to itself, from any bit offset and with any data following; bit fields, line points
    and the memory-hard hash equal their definitions for every input. Streams that do not contain the requested symbols are refused; none is
    decoded to symbols its bits do not spell.""",
    ["inputs"], "every symbol sequence, bit offset, field width, X pair and key",
    "The one existing test encodes short symbols only; long symbols that straddle words never occur in it.",
    ["src/pos/encoding.cpp", "src/pos/mem_hash.cpp", "include/mmx/pos/encoding.h", "include/mmx/pos/mem_hash.h", "include/mmx/pos/util.h"],
    [("two-bit group code with a 64-bit refill buffer", "src/pos/encoding.cpp"), ("triangular line point", "include/mmx/pos/encoding.h")],
    "Reference bit stream, line point and hash written from the format; ASAN+UBSAN.")
prop("C05", "Proofs of space are accepted exactly when they re-derive, and plots yield all of theirs",
    """A proof is accepted exactly when its X values, in canonical order, lead through all nine tables to a single output whose Y lies in the
    challenge's window and passes the post filter, and the resulting proof hash is the one defined for it. A plot lookup returns every stored entry in the
    window, and a full proof taken from a plot is the proof of that entry and verifies.""",
    ["inputs", "configurations"], "every X list, challenge, plot id, k size, filter and plot layout (park sizes, compression, with and without meta data)",
    "No test builds a plot or a proof; acceptance must hold for every forged list.",
    ["src/pos/verify.cpp", "src/pos/verify_full.cpp", "src/pos/Prover.cpp", "src/pos/encoding.cpp"],
    [("table-by-table recomputation", "src/pos/verify_full.cpp"), ("park walk and decoding", "src/pos/Prover.cpp")],
    "Independent plotter and verifier (k = 8..17); the plotting table rule is written from the code's definition. CPU path only.")

prop("C10", "Versioned tables always return the newest value not newer than asked",
    """After any history of inserts, commits, reverts, flushes and clean restarts, a lookup returns the newest value written to that key at or below
    the requested version, and iteration in either direction (including any seek and change of direction) visits exactly the live keys in order with their
    latest values. A revert removes exactly the entries of that version and later; a clean restart keeps exactly what was committed, at the committed version.""",
    ["histories", "configurations"], "every operation history, key set, block size, merge factor and flush threshold",
    "The existing database test (not part of the stable suite) runs a few fixed sequences; block merging, rewriting on revert and iterator direction changes interact over long histories.",
    ["src/DataBase.cpp", "include/mmx/DataBase.h"],
    [("newest block first search with in-memory overlay", "src/DataBase.cpp Table::find"), ("block rewrite and merge", "src/DataBase.cpp Table::rewrite, check_rewrite, revert"), ("merged iteration", "src/DataBase.cpp Table::Iterator")],
    "Model: ordered map of key to version to value. Single-threaded histories.", technique="stateful model-based testing")
prop("C11", "A database survives being killed at any point",
    """If the process dies at any moment (also in the middle of a write, during a flush, a merge or a revert, or again while recovering), the restarted database
    has all tables at one version and contains exactly what was committed up to it. That version is the last completed commit, or the one that was being
    committed or reverted to when the process died.""",
    ["crash_points", "histories"], "every history and every file-system effect in it, including torn writes and repeated crashes during recovery",
    "No test kills the process; the state space is history x crash point x torn length.",
    ["src/DataBase.cpp", "include/mmx/DataBase.h"],
    [("checksummed write log replayed on open", "src/DataBase.cpp Table::Table"), ("temporary files renamed into place", "src/DataBase.cpp Table::rename"), ("common version of all tables", "src/DataBase.cpp DataBase::recover")],
    "Every crash is simulated at the file layer; recovery is compared with the model at the recovered version.", technique="fault injection at generated crash points against a model")
prop("C12", "Typed tables answer point, range and multi-value queries exactly",
    """For every key type used by the node (integers, hashes, balances and their combinations) lookups, first/last, ascending and descending range queries
    with limits, scans and multi-value lists return exactly what an ordered map with the key's natural order would, through commits, reverts, flushes and restarts.""",
    ["histories", "inputs"], "every history and key set, with integers around byte and word boundaries and nearly equal hashes",
    "No test covers the typed layer's key encodings and range boundaries.",
    ["include/mmx/table.h", "include/mmx/multi_table.h", "src/DataBase.cpp"],
    [("big-endian key encoding", "include/mmx/table.h"), ("running index per key", "include/mmx/multi_table.h")],
    "Model: std::map keyed by the typed key.", technique="stateful model-based testing")

prop("C06", "Consensus arithmetic is exact",
    """Difficulty, netspace, plot and proof thresholds, challenges, space forks, proof chain, block weight, base reward, fee burn, project reward, fee buffer
    and cost/fee conversions equal their definitions in exact arithmetic for every header history and chain parameter set. Nothing wraps around: results that do not fit are
    refused, difficulty never reaches zero, the paid out reward plus the project's share never exceeds the reward plus the fees, and hard-fork rules apply from exactly the configured height.""",
    ["inputs", "configurations"], "every header value, difficulty, vote state, fee and parameter set within the range the chain can reach",
    "Tests do not cover these functions; an off-by-one at a threshold or fork height shows on a few values only and splits the network.",
    ["include/mmx/utils.h", "src/BlockHeader.cpp", "src/ChainParams.cpp"],
    [("proof threshold and space difficulty", "include/mmx/utils.h check_proof_threshold, calc_new_space_diff"), ("challenge infusion", "include/mmx/utils.h calc_next_challenge"), ("reward formulas", "include/mmx/utils.h")],
    "Differential against exact arithmetic and an independent SHA-256.", technique="differential property-based testing")
prop("C07", "Amounts keep their value through text, decimals and floating point",
    """Converting amounts and prices between integers, decimal text, hexadecimal text, variants, fixed point and floating point keeps the value: every
    value prints to text that reads back as itself, decimal text reads as its exact value (digits beyond 15 are dropped), and anything malformed, negative, not finite or
    too large for 128 bits is refused. No amount ever wraps around to a different one.""",
    ["inputs"], "every 128-bit value, decimal text with fraction and exponent, decimals 0..18, every double including NaN and infinities",
    "No test covers fixed128 or to_amount; users type these amounts and the RPC passes them as text.",
    ["src/fixed128.cpp", "include/mmx/fixed128.hpp", "src/uint128.cpp", "include/mmx/uint128.hpp", "include/mmx/utils.h"],
    [("decimal parser", "src/fixed128.cpp"), ("range checks", "src/uint128.cpp"), ("double to amount", "include/mmx/utils.h to_amount")],
    "Differential against boost cpp_int; rounding tolerance of one unit plus the double's own rounding.", technique="round-trip and differential property-based testing")

prop("C20", "Contract values serialize, order and compare exactly",
    """Every value a contract can hold (nil, booleans, integers, strings, binaries, arrays, maps, references, with any flags) is written to storage form and read
    back as the same value with nothing left over, within the space the writer declared. Comparison of two values is a total order that agrees with the
    definition (by type, then content), equality holds exactly for equal values, and reading arbitrary or truncated bytes is refused or yields a value that serializes again, without touching memory outside.""",
    ["inputs"], "every value of every type incl. boundary integers and empty content, every pair and triple of values, every byte string",
    "The storage tests use a few literals; map keys and storage identity depend on order and equality of all pairs of values.",
    ["src/vm/var_t.cpp", "include/mmx/vm/var_t.h"],
    [("variable-length integer form", "src/vm/var_t.cpp serialize, deserialize"), ("comparison used as key order", "src/vm/var_t.cpp compare")],
    "Round trip, reference comparison, fuzzed reader under ASAN+UBSAN.", technique="round-trip property-based testing and fuzzing of the reader")
prop("C21", "The contract engine computes what its instruction set defines, with exact gas",
    """Running any program leaves memory, storage, outputs, logs, events and return value exactly as the instruction set defines, charges exactly the defined gas,
    and fails exactly where it is defined to fail (bounds, types, overflow flag, constant or foreign memory, out of gas). Reference counting never frees what is still
    reachable nor lets a name keep a dead object. This includes values reloaded from storage in later calls, nested calls into other contracts, copies across engines, and commit of what was changed.""",
    ["inputs", "histories"], "every program, operand, storage content, call nesting and gas limit",
    "The engine tests run a few hand-written sequences; results differ only for particular operand kinds, aliasing or gas limits, and every node must compute the same.",
    ["src/vm/Engine.cpp", "src/vm/StorageCache.cpp", "src/vm/StorageRAM.cpp", "include/mmx/vm/Engine.h"],
    [("dispatch and gas", "src/vm/Engine.cpp exec, step"), ("reference counting", "src/vm/Engine.cpp assign, clear, erase"), ("lazy load and commit", "src/vm/Engine.cpp read, commit"), ("remote calls", "src/vm/Engine.cpp rcall; src/vm_interface.cpp")],
    "Differential against an independent reference interpreter; ASAN+UBSAN.", technique="differential model-based testing of generated programs")
prop("C22", "No contract can crash the node or outrun its gas",
    """Whatever code a contract consists of and whatever arguments it is called with, execution ends in a result or an ordinary error, without touching memory
    it does not own, and uses time and memory bounded by its gas limit. The same holds for loading the binary and for converting its results for display.""",
    ["inputs"], "every binary, argument list and gas limit",
    "Tests run well-formed contracts only; every node executes whatever is deployed on the network.",
    ["src/vm/Engine.cpp", "src/vm/instr_t.cpp", "src/vm_interface.cpp"],
    [("memory bounds", "src/vm/Engine.cpp"), ("gas metering", "src/vm/Engine.cpp check_gas"), ("result conversion", "src/vm_interface.cpp read, convert")],
    "Fuzzing with ASAN+UBSAN and CPU-time and memory limits per case.", technique="structured fuzzing under sanitizers with resource limits")
prop("C25", "Contract binaries encode and decode without loss",
    """Every instruction list encodes to bytes that decode to the same list, for every opcode, flag and operand, and the disassembly lists every instruction. Any byte
    string is either refused or decodes to instructions whose own encoding decodes to the same; decoding never reads outside its input.""",
    ["inputs"], "every instruction list and every byte string",
    "Only compiler output is ever decoded in tests.",
    ["src/vm/instr_t.cpp", "include/mmx/vm/instr_t.h"],
    [("varying operand count and width", "src/vm/instr_t.cpp serialize, deserialize")],
    "Round trip and fuzzing under ASAN+UBSAN.", technique="round-trip property-based testing and fuzzing")

prop("C23", "Contract storage reads back what was written, at every height",
    """After any history of transactions, blocks, reverts and restarts, reading a contract's variable or container entry (through any stack of caches, now or as of any
    earlier height) gives exactly the value last written at or before that point, key lookup finds exactly the keys that exist, and listing a range, a container or an array
    gives exactly the live values in address order. Dropping a cache leaves no trace; committing it makes all of it visible at once. The database and the in-memory backend answer alike, and contracts never see each other's data.""",
    ["histories"], "every history of writes, erasures, key creation, cache nesting, commit, drop, revert, restart and query height",
    "The storage tests run one short history; reverts and queries at past heights interact with caching and key encodings.",
    ["src/vm/StorageDB.cpp", "src/vm/StorageCache.cpp", "src/vm/StorageRAM.cpp", "include/mmx/vm/StorageDB.h"],
    [("key encoding and iteration", "src/vm/StorageDB.cpp"), ("overlay of a cache", "src/vm/StorageCache.cpp")],
    "Model: maps with a snapshot per height; the database backend runs on the repository's own DataBase.", technique="stateful model-based testing")

prop("C30", "Ids and hashes commit to the whole content and never change meaning",
    """The id of a transaction is the SHA-256 of a fixed canonical byte form of everything that decides its effect (version, expiry, fee limits, note, nonce, network, sender, inputs,
    outputs, operations, deployed contract), so any change to one of them gives another id, while signatures and execution results do not touch it; the content hash commits to those too.
    The same holds for block hashes (every header field), contracts, operations, solutions, proofs of space and time, and votes. The hashes are those every other node computes: the main network's own transactions keep their ids.""",
    ["inputs"], "every transaction, block, contract, operation, solution, proof and vote, and every single-field change",
    "Tests check a few fixed ids; a field dropped from one class's serialization in one version goes unnoticed until somebody forges a transaction.",
    ["src/Transaction.cpp", "src/BlockHeader.cpp", "include/mmx/write_bytes.h", "src/contract/Executable.cpp", "src/operation/Execute.cpp", "src/operation/Deposit.cpp", "src/solution/MultiSig.cpp", "src/ProofOfTime.cpp", "src/ProofOfSpaceNFT.cpp", "src/exec_result_t.cpp"],
    [("hash_serialize / calc_hash", "src/Transaction.cpp"), ("write_bytes", "include/mmx/write_bytes.h")],
    "Independent canonical serializer; metamorphic single-field changes.", technique="property-based testing (differential and metamorphic)")
prop("C31", "Static rules and costs of transactions, contracts and blocks",
    """A transaction, contract or block is statically valid exactly when every documented rule holds (versions, sizes, JSON-only arguments, no duplicate or unused solutions, fee ratio, network, ids, sums),
    and its cost is exactly the sum of its parts' costs, with nothing free and nothing counted twice. A finalized block's sums are those of its transactions, and the list of what it spends and pays names
    every input, output, fee and reward exactly once, none of a failed transaction.""",
    ["inputs"], "every transaction, contract and block, fee parameter set, and single violation of a rule",
    "Tests build a handful of valid transactions; every rule needs a violation of just that rule, in every kind of object.",
    ["src/Transaction.cpp", "src/Block.cpp", "src/BlockHeader.cpp", "src/contract/TokenBase.cpp", "src/contract/Executable.cpp", "src/contract/Binary.cpp", "include/mmx/txio_t.hpp", "src/utils.cpp"],
    [("is_valid / calc_cost", "src/Transaction.cpp"), ("block input and output lists", "src/Block.cpp")],
    "Reference rules and exact costs.", technique="property-based testing with fault injection into valid objects")
prop("C32", "Only the owners' signatures over this very transaction authorise it",
    """A single-key contract accepts exactly a valid signature of its key over the transaction id. A multi-signature contract accepts exactly when enough distinct owners signed the id, each with their own key
    (and, under the newer rules, nothing else is attached and the stated threshold matches). Anything else - missing, foreign, replayed from another transaction, corrupted, wrongly filed - is refused.""",
    ["inputs"], "every owner set and threshold, and every combination of genuine, replayed, swapped, corrupted, missing and foreign signatures",
    "Tests cover a few accepting and refusing combinations of one contract.",
    ["src/contract/PubKey.cpp", "src/contract/MultiSig.cpp"], [("validate", "src/contract/MultiSig.cpp")],
    "Decision re-derived from how each signature was made.", technique="property-based testing")
prop("C33", "Stored and transmitted objects read back unchanged",
    """Every block, header, transaction, contract, operation, solution, proof and vote written in binary form, JSON form or as a generic object, or cloned, reads back with every field unchanged, and objects
    written one after another in a stream read back one by one.""",
    ["inputs"], "every object of these kinds, including optional fields, nested contracts, non-ASCII and empty text, and extreme integers",
    "Tests round-trip one or two objects; a field missing from one class's reader shows only when it is set.",
    ["generated/src/Transaction.cpp", "generated/src/BlockHeader.cpp", "generated/src/Block.cpp", "include/mmx/bytes_t.hpp", "include/mmx/uint128.hpp"],
    [("generated read/write/from_object", "generated/src")],
    "Compared by an independent dump of every field.", technique="property-based testing (round trip)")

NODE = "property-based testing (stateful, model-based; simulated network of real nodes)"
prop("C40", "The ledger follows from the blocks",
    """After every block, each balance, the balance of every contract, the supply of every token, the number and state of contracts, and the fees and rewards paid are what follows from applying the chain's
    transactions in order: every transaction moves exactly the amounts it states, a failed one moves nothing but its fee, nothing is created except by block rewards, VDF and project rewards, mints by a token's
    contract, and nothing is lost except what is burned. No balance is ever used twice, and each included transaction carries the result it really had.""",
    ["inputs", "histories"], "every history of blocks with spends, fees, contract deployments, calls that succeed or fail, offers, swaps, mints, escrows and time locks, under every fee rule",
    "Tests apply a few fixed transactions; conservation must hold for every mixture of transactions in a block, in every order.",
    ["src/Node.cpp", "src/Node_validate.cpp", "src/Node_execute.cpp", "src/Node_update.cpp", "src/Node_api.cpp"], [("apply", "src/Node.cpp"), ("validate", "src/Node_validate.cpp"), ("execute", "src/Node_execute.cpp")],
    "Independent ledger fed with the chain's blocks (harness/ledger.h).", technique=NODE)
prop("C41", "Switching to another chain leaves no trace of the old one",
    """A node that heard of blocks of several competing chains, in any order, with restarts in between, is, once it has settled on a chain, in exactly the state of a node that only ever saw that chain:
    balances, contract state, supply, history, offers, farmer ranking, transaction look-ups and every other answer about the chain.""",
    ["histories", "schedules"], "every pair of chains up to the finality depth, every order of delivery, every mixture of transactions in common and of their own",
    "Tests never switch chains; leftovers need a table that is not reverted and a query that shows it.",
    ["src/Node.cpp", "src/Node_update.cpp", "src/Node_api.cpp", "include/mmx/DataBase.h"], [("fork_to / revert / apply / commit", "src/Node.cpp")],
    "Differential against a fresh node fed the final chain only.", technique=NODE)
prop("C42", "A block that breaks any rule is never taken",
    """A block that violates one of the consensus rules - proof of space or time missing, weak, foreign, reused or for another height; wrong difficulty, weight, time stamp, reward, VDF reward or project reward; wrong
    signature, hash, cost or sum; transactions invalid, in wrong order, repeated, over the limits, unfunded, with another result than they really have - is never part of a node's chain, even when signed by a farmer
    who has a genuine proof for it. Hearing of it leaves the node's state as it was, and the genuine block is accepted afterwards.""",
    ["inputs", "histories"], "every rule, at every kind of block, alone and followed by further blocks",
    "Tests accept a few good blocks; each rule needs a block that violates only that rule and is otherwise flawless.",
    ["src/Node_validate.cpp", "src/Node_verify.cpp", "src/Node.cpp", "src/BlockHeader.cpp", "src/Block.cpp"], [("validate", "src/Node_validate.cpp"), ("verify_proof", "src/Node_verify.cpp")],
    "One defect at a time is built into a genuine block, which is then completed and signed correctly (harness/node_tamper.h).", technique="property-based testing with fault injection into genuine blocks")
prop("C43", "A farmer's node always makes blocks that others accept",
    """Whatever valid, invalid, conflicting, failing, underpaid or expired transactions are waiting, a node that has an unused proof for the next VDF height makes a block with it, within the limits and with a proof
    for just that VDF height; every other node accepts it, and nodes that know the same blocks agree.""",
    ["inputs", "histories"], "every pool of waiting transactions, including dependent and conflicting ones and ones that fail or exceed their limits, under every fee rule, with restarts",
    "Tests never fill a block; one transaction that makes blocks invalid stops the chain.",
    ["src/Node_update.cpp", "src/Node_validate.cpp", "src/Node.cpp"], [("make_block / validate_for_block", "src/Node_update.cpp")],
    "Two nodes in turn; acceptance by the other is the oracle.", technique=NODE)
prop("C44", "Nodes that know the same blocks agree",
    """Nodes that have heard of the same blocks, in whatever order, repeated or not, with the proofs of time before or after, across restarts, settle on the same chain within the finality depth: the longest one,
    and of equally long ones the one whose peak has the lowest hash.""",
    ["schedules", "histories"], "every set of competing chains and every order of delivery",
    "Tests have one node and one chain; agreement is about all orders of arrival.",
    ["src/Node.cpp", "src/Node_update.cpp"], [("find_best_fork / add_fork", "src/Node.cpp")],
    "Explicit fork-choice rule computed over all blocks.", technique=NODE)
prop("C45", "Only genuine proofs and votes count",
    """A node acts only on proofs of time, proofs of space and validator votes that are genuine: computed as the rules say, for the place they claim, signed by who they say. Anything else is neither passed on
    nor used, and does not keep the genuine one, arriving later, from being used.""",
    ["inputs", "histories"], "every single defect in a proof of time, a proof of space or a vote, at every point of a chain's growth",
    "Tests verify a few good proofs; a hostile peer sends the others.",
    ["src/Node_verify.cpp", "src/Node_update.cpp", "src/Node.cpp", "src/ProofOfTime.cpp", "src/ProofResponse.cpp", "src/ValidatorVote.cpp"], [("verify_vdf / verify_proof", "src/Node_verify.cpp"), ("verify_votes", "src/Node_update.cpp")],
    "Genuine inputs are computed independently; each is sent after altered copies.", technique="property-based testing with fault injection into genuine inputs")

def main():
    known = {p["id"]: p for p in P}
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks = []
    for p in P:
        if p["id"] in CHECKS:
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
                evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=CHECKS[p["id"]]["level"], level_note=p["level_note"]))
    na = [dict(property=p["id"], reason="not built yet") for p in P if p["id"] not in CHECKS]
    man = dict(version=1, setup_cmd="python3 lib/selfcheck.py", checks=checks, not_applicable=na,
        notes="No hooks in /repo: harnesses include the repository's sources and headers and supply stand-ins for the absent submodules (shim/).")
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks" % (len(P), len(checks)))

if __name__ == "__main__":
    main()
