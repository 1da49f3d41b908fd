#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
G="circuits/gadgets/"; U="common/utils/"; CP="common/proof/"

p("C01","Limb re-grouping is exact and admits exactly one witness",
 "For every input value and limb layout, splitting, merging, re-splitting and rotating limbs yields the exact big-endian regrouping of the input bits. A prover cannot satisfy the constraints with any other limb values: everything advised from outside the constraint system is range-bound to its limb size and recomposed to the input.",
 ["inputs","configurations"],"all field values (also adversarial hint outputs), all limb sizes / counts / rotations",
 "Tests run the honest hint only, on one 24-bit example; uniqueness quantifies over all dishonest witnesses.",
 [G+"limbs/limbapi.go",G+"limbs/utils.go"],[("hint + recomposition constraint",G+"limbs/limbapi.go Split"),("regrouping",G+"limbs/limbapi.go Merge, Resplit, Lrot, LrotMerge")])
p("C02","Conversions between native and emulated field elements preserve the value",
 "Converting packed native variables to an emulated field element and back preserves the represented integer, limb for limb and in the documented endianness. This holds for every value and for each supported limb configuration.",
 ["inputs","configurations"],"all element values, all supported packing sizes",
 "Tests convert a handful of fixed values; limb order or width errors show only on values with distinct limbs.",
 [G+"emulated/element.go"],[("FromElement/ToElement",G+"emulated/element.go")])
p("C03","Selection gadgets return the indexed entry and reject any other index",
 "Every multiplexer, decoder and lookup gadget returns exactly the table entry at the selected index, in every position of the table. If the selector is not one of the table's indexes the circuit is unsatisfiable; no prover can obtain zero or a mixture of entries.",
 ["inputs"],"all selector field values, including out-of-range, and all table contents and sizes",
 "Tests feed in-range selectors with honest witnesses; the rejecting constraints can vanish without any test noticing.",
 [G+"mux/multiplexer.go",G+"rlp/util.go"],[("one-hot mask + success assertion",G+"mux/multiplexer.go decode; "+G+"rlp/util.go Decoder, Multiplexer, EscalarProduct")])
p("C04","Shift, slice and compare helpers select exactly the requested window",
 "Shifting, sub-array extraction, ordering, equality and array equality gadgets produce exactly the window or verdict their arguments describe, for every position and content. Positions or lengths outside the declared bounds make the circuit unsatisfiable instead of yielding some other window.",
 ["inputs","configurations"],"all contents, shift amounts, [from,to) pairs and lengths, over the array shapes the library uses",
 "Unit tests use a few fixed vectors; off-by-one widths and missing bound constraints appear only at other positions or for dishonest provers.",
 [G+"rlp/util.go",G+"rlp/rlp.go"],[("ShiftLeft, ShiftRight",G+"rlp/rlp.go"),("SubArray, ArrayEqual, LessThan, Equal, LogCeil",G+"rlp/util.go")])
p("C05","RLP list checks accept only correctly framed lists",
 "The in-circuit RLP decoders report success only if the list prefix, every field prefix and every field length are consistent and the field lengths add up to exactly the announced payload length. Prefix decoding follows the RLP specification for every first byte (single byte, short/long string, short/long list), and the returned field contents are exactly the bytes between the decoded positions.",
 ["inputs"],"all byte contents (honest or malformed) and field counts",
 "Tests decode a few well-formed mainnet objects; malformed framings chosen by a dishonest prover are never exercised.",
 [G+"rlp/rlp.go"],[("prefix decoding",G+"rlp/rlp.go RlpArrayPrefix, RlpFieldPrefix"),("list checks",G+"rlp/rlp.go RlpArrayCheck, RlpNestArrayCheck, BlkHeaderRlpCheck, DecodeTxLeafRlp")])
p("C06","Merkle-Patricia inclusion verdict is sound at every level",
 "The trie-inclusion gadgets output 1 only if the first node hashes to the claimed root, every lower node's hash equals the full 32-byte reference taken from its parent at the next key nibbles (a branch consuming one nibble, an extension its whole path), the key fragments start at the first nibble and consume exactly the claimed key, and the last node holds the claimed value. A storage proof may instead show absence, only for the value that encodes zero and only if the last node is a well-formed node of the proof at which the key leaves the trie (an empty branch slot, or a differing leaf or extension path). If any single one of these checks fails, at any level, the output is 0 or the circuit is unsatisfiable; if all hold, the output is 1.",
 ["inputs"],"all node contents, key fragments, depths and node kinds, for each maximal depth analysed",
 "Tests run honest mainnet proofs and expect 1; dropping one of the dozens of per-level checks leaves them green.",
 [G+"mpt/mpt.go",G+"mpt/mpt_util.go"],[("verdict accumulation",G+"mpt/mpt.go CheckMPTInclusionFixedKeyLength, CheckMPTInclusionNoBranchTermination"),("node checks",G+"mpt/mpt_util.go")])
p("C07","Account, storage and block-hash proofs are bound to each other",
 "The Ethereum state-proof gadgets report success only if the block header hashes to the claimed block hash, the account is proven under the state root taken from that very header, and the storage slot is proven under the storage root taken from that very account. Substituting any of the three links makes the result 0 or the circuit unsatisfiable, and the reported block number, account fields and slot value are exactly those encoded in the proven header, account and value.",
 ["inputs"],"all headers, accounts, slots and proofs, including ones that are individually valid but unrelated",
 "No stable test covers the composition; honest data cannot reveal a link that is no longer compared.",
 [G+"mpt/eth_proof.go"],[("CheckEthBlockHash, CheckEthAccountProof, CheckEthStorageProof, CheckEthAddressStorageProof",G+"mpt/eth_proof.go")])
p("C08","Keccak gadgets absorb exactly the padded message and output that digest",
 "For every number of rate blocks and every selected final block, each Keccak gadget absorbs the given blocks in order into a zero state with the standard permutation between them, and outputs the digest of the state after the selected block. Every variant uses the same lane, nibble and bit order, and data of an impossible length is refused.",
 ["inputs","configurations"],"all message contents, block counts and round indexes, for each gadget variant",
 "Tests hash a few messages; the variants for longer inputs and non-final round indexes are reached by few or none.",
 [G+"keccak/keccak256.go",G+"keccak/keccak256_bits.go",G+"keccak/keccak256_bits_optimized.go",G+"keccak/periphery.go",G+"rlp/util.go"],[("sponge",G+"keccak/keccak256.go"),("bit-level sponge",G+"keccak/keccak256_bits.go"),("lane conversion",G+"keccak/periphery.go")])
p("C09","Keccak padding is correct for every message length",
 "For every message length, the padding helpers (host and in-circuit, byte, nibble and bit level) append the single leading 1 bit, zeros and the single trailing 1 bit so that the result is the message followed by pad10*1 and is a whole number of rate blocks. The announced number of blocks or round index matches the padded length, and the caller's message is not modified.",
 ["inputs"],"all message lengths modulo the rate, all contents",
 "Tests pad a few lengths; boundary lengths (rate-1, rate, short remainders) are where padding breaks.",
 [G+"keccak/periphery.go",G+"keccak/pad.go","common/circuits/keccak.go"],[("Pad101*, PadBits101, GetRoundIndex",G+"keccak/periphery.go; common/circuits/keccak.go")])
p("C10","SHA-256 gadget computes FIPS 180-4 SHA-256 for every message",
 "For every message length and content, the SHA-256 gadget outputs the FIPS 180-4 SHA-256 digest of the message, and its word-level helpers compute the exact 32-bit operation. Every intermediate is range-constrained so that no other digest is provable.",
 ["inputs"],"all message contents, for each message length analysed (covering every padding case)",
 "No stable test covers the gadget at all; vectors could not settle soundness of the intermediate decompositions.",
 [G+"sha256/sha256.go",G+"sha256/sha256block.go",G+"sha256/uint32api.go",G+"sha256/uint8api.go"],[("compression",G+"sha256/sha256block.go"),("word arithmetic",G+"sha256/uint32api.go"),("padding",G+"sha256/sha256.go")])
p("C11","SHA-512 gadget computes FIPS 180-4 SHA-512 for every message",
 "For every message length and content, the SHA-512 gadget outputs the FIPS 180-4 SHA-512 digest of the message, and its word-level helpers compute the exact 64-bit operation. Every intermediate is range-constrained so that no other digest is provable.",
 ["inputs"],"all message contents, for each message length analysed (covering every padding case)",
 "No stable test covers the gadget at all; vectors could not settle soundness of the intermediate decompositions.",
 [G+"sha512/sha512.go",G+"sha512/sha512block.go",G+"sha512/uint64api.go",G+"sha512/uint8api.go"],[("compression",G+"sha512/sha512block.go"),("word arithmetic",G+"sha512/uint64api.go"),("padding",G+"sha512/sha512.go")])
p("C12","Ed25519 gadget accepts exactly the cofactored verification equation",
 "The signature gadget is satisfiable only if the supplied public key equals the claimed key bytes, the challenge is SHA-512 over R, the key and the message in that order, and 8(S*B - h*A) equals 8R. R and the key must be canonical encodings of points of the curve, key and message must consist of bytes and words of the declared widths, and each of these bindings is enforced by constraints for every message and key, not merely computed.",
 ["inputs"],"all signatures, keys and messages, including adversarial witnesses",
 "No stable test covers the gadget; positive vectors cannot reveal a missing binding.",
 [G+"ed25519/ed25519.go",G+"ed25519/point.go"],[("Verify",G+"ed25519/ed25519.go"),("double-base scalar multiplication",G+"ed25519/point.go")])
p("C13","Ed25519 gadget group arithmetic is the curve's group law",
 "Point addition, doubling, negation, scalar multiplication and the on-curve assertion of the Ed25519 gadget implement the group law of -x^2+y^2=1+d x^2 y^2 for every pair of points and every scalar, with the standard field, order, base point and coefficients.",
 ["inputs","configurations"],"all points and scalars",
 "No stable test covers the gadget; a wrong coefficient or an unused scalar bit affects most inputs but none that is tested.",
 [G+"ed25519/point.go",G+"ed25519/curve.go",G+"ed25519/params.go",G+"ed25519/twistededwards.go"],[("group law",G+"ed25519/point.go"),("parameters",G+"ed25519/twistededwards.go")])
p("C14","BLS12-381 tower-field gadgets implement the tower arithmetic",
 "Every addition, multiplication, squaring, sparse multiplication, inversion, conjugation and Frobenius gadget over Fp2, Fp6 and Fp12 computes exactly the corresponding operation of the BLS12-381 extension tower for all operands, division by zero is unprovable, and the exponentiations, up to the final exponentiation x^(3(p^12-1)/r), raise to exactly their exponent. Results advised by hints are constrained to the unique correct value.",
 ["inputs"],"all field elements",
 "Tests reach only the operations used by one final exponentiation with honest hints; sparse products and several Frobenius powers are untested.",
 [G+"pairing_bls12381/tower.go",G+"pairing_bls12381/g2.go",G+"pairing_bls12381/gt.go"],[("tower arithmetic",G+"pairing_bls12381/tower.go")])
p("C15","BLS12-381 G2 arithmetic, Miller loop and hash-to-curve are the standard ones",
 "G2 addition, doubling, negation, conversions, endomorphisms, cofactor clearing and the Miller loop compute the BLS12-381 formulas for all points (including the Jacobian special cases), with the standard loop digits and constants. Hash-to-field, sqrt_ratio, sgn0, the SSWU map, the 3-isogeny and the composition into hash_to_curve and encode_to_curve follow RFC 9380; equality and zero tests hold modulo p, and no element a deferred multiplication check refers to is overwritten.",
 ["inputs","configurations"],"all points, field elements and messages; all digits of every constant",
 "Tests that would exercise these take too long and are not part of the stable suite; they use a handful of points and never the exceptional cases or a dishonest representative.",
 [G+"pairing_bls12381/g2.go",G+"pairing_bls12381/hash2curve.go",G+"pairing_bls12381/pairing.go",G+"pairing_bls12381/params.go"],[("formulas",G+"pairing_bls12381/g2.go"),("Miller loop",G+"pairing_bls12381/pairing.go"),("hash to curve",G+"pairing_bls12381/hash2curve.go")])
p("C16","Merkle and sparse-Merkle root gadgets bind leaf, path and position",
 "Every Merkle-root gadget recomputes the root by hashing the node with its sibling in the order given by the position bit of each level, starting from the leaf and using every level of the path exactly once. Position bits are constrained to be 0 or 1, the result is compared with or returned as the root, and a path with fewer position bits than siblings is refused.",
 ["inputs"],"all leaves, siblings, position bits and depths",
 "Tests use one honest tree per gadget; swapped siblings at one level, an unused level or a non-boolean bit are not tried.",
 [G+"merkle/mimc_root.go",G+"merkle/emulated_mimc_root.go",G+"merkle/keccak_root.go",G+"smt/smt.go"],[("RestoreMimcRoot, MimcRoot, KeccakMerkleRoot",G+"merkle"),("CheckSMTInclusion",G+"smt/smt.go")])
p("C17","MiMC gadget matches the curve's MiMC permutation and hashes each input once",
 "The MiMC gadgets use, for each supported curve, that curve's round constants and S-box exponent, and hash exactly the sequence of written elements in Miyaguchi-Preneel mode from a zero state. After a sum or a reset the data hashed so far is never hashed again.",
 ["inputs","histories","configurations"],"all inputs, write/reset/sum histories and supported curves",
 "Tests hash single inputs on one or two curves; stale state across hashes or a curve/exponent mismatch is invisible there.",
 [G+"emulated/mimc/mimc.go",G+"emulated/mimc/encrypt.go"],[("constants and exponent per curve",G+"emulated/mimc/encrypt.go"),("state handling",G+"emulated/mimc/mimc.go")])
p("C18","Transaction/receipt index encodes to the unique RLP key and nothing else",
 "For every index up to 65535 the index gadget outputs exactly the RLP nibbles of that index, and for any larger value the circuit is unsatisfiable. No prover can obtain the key of a different index.",
 ["inputs"],"all field values as index",
 "Tests evaluate honest indexes below 10000 and never check that the encoding is constrained above the supported range.",
 [G+"index-proof/core/circuit_index_mpt.go"],[("CalTxOrReceiptIndexRlp",G+"index-proof/core/circuit_index_mpt.go")])
p("C19","Bit, byte, nibble and word conversions are exact and order-consistent",
 "Every conversion between bits, nibbles, bytes, 64-bit lanes and field elements - in circuits and on the host - places each input bit at exactly the documented output position, covers all input bits, and round-trips. Chunks packed into a field element always stay below the modulus, so that packing is injective.",
 ["inputs","configurations"],"all contents, all lengths (multiples of the unit and remainders) and chunk sizes",
 "Tests check single vectors, often palindromic or all-zero; several helpers have no test.",
 [G+"conv/bits.go",G+"keccak/periphery.go",G+"utils/slice.go",U+"binary.go",U+"compose.go",U+"utils.go"],[("packing",U+"binary.go, "+U+"compose.go, "+U+"utils.go"),("in-circuit conversions",G+"conv/bits.go, "+G+"keccak/periphery.go")])
p("C20","Circuit construction is deterministic and free of shared mutable state",
 "Building a gadget's constraints depends only on its arguments: it uses no clock, randomness, environment, map iteration order or mutable package state, so that proving and verifying keys always match the circuit. Gadgets never modify slices owned by their caller.",
 ["histories","schedules","inputs"],"all construction histories: repeated, interleaved or concurrent circuit builds",
 "Tests build each circuit once per process; dependence on history or iteration order needs two builds to show.",
 [G+"...","circuits/fabric/smt/utils.go"],[("gadget entry points","circuits/gadgets/**")])
p("C21","Every value used as a bit or advised by a hint is constrained",
 "No gadget uses an unconstrained witness: every hint output is tied to its inputs by constraints, every value used as a bit is constrained to 0 or 1, and every decomposition is checked for range. No gadget passes a container where a single circuit variable is expected.",
 ["inputs","programs"],"all gadgets and all dishonest witnesses",
 "Honest-prover tests satisfy the constraints whether or not they are present.",
 [G+"..."],[("hints and decompositions","circuits/gadgets/**")])

p("H01","Errors are never swallowed on proof, storage and network paths",
 "Whenever a step of building a proof, hashing inputs, reading or writing key, witness, circuit or proof files, or talking to a node or object store fails, the caller gets an error (or the process stops, or an operation without an error result returns its documented zero failure value). No exported operation reports success after one of its steps failed. Lenient byte conversions that are documented as such (hex helpers) and plain exports of already parsed proofs are outside this statement.",
 ["fault_sequences","inputs"],"every failing step of every exported operation",
 "Tests exercise the success path only.",
 [CP,U+"pk-vk-utils.go","common/eth/client.go","common/s3api/client.go","circuits/fabric/smt/utils.go"],[("error returns","common/**")])
p("H02","File helpers leave no open handle and never report an unwritten file as written",
 "Every helper that opens a file or network body closes it on every path, including error paths. A write helper returns success only if creating, writing and closing the file all succeeded, and read helpers open for reading only what they return.",
 ["fault_sequences"],"every error path of every file or network helper",
 "No test makes a write or close fail, and leaks do not fail tests.",
 [U+"pk-vk-utils.go",U+"utils.go",CP+"util.go","common/eth/client.go"],[("Write*/Read* helpers",U+"pk-vk-utils.go")])
p("H03","Malformed node responses are failures, never panics or made-up answers",
 "Whatever a remote node or index service answers - HTTP failure, invalid JSON, missing fields, wrong types, empty lists - the client functions report failure: an error where they have an error result, otherwise the failure value (false or zero). They never panic, and what they return as an answer is exactly the member of the decoded response that was asked for, after a successful status.",
 ["fault_sequences","inputs"],"all response bodies and transport failures",
 "No test runs the client against any server.",
 ["common/eth/client.go"],[("GetSlot, GetBlock","common/eth/client.go")])
p("H04","Transaction and receipt proofs are returned only if they match the block",
 "A transaction or receipt inclusion proof is returned only if the trie built from all of the block's items has the root stated in the block header, and its nodes, key and leaf belong to the requested index. Otherwise an error is returned; transactions and receipts are treated alike.",
 ["inputs"],"all blocks, receipts lists and indexes",
 "Needs a live node; no stable test covers it.",
 [CP+"tx_merkel_proof.go"],[("GetTransactionProof, GetReceiptProof",CP+"tx_merkel_proof.go")])
p("H05","Transaction signer recovery hashes exactly the signed payload of each type",
 "For every supported transaction type the unsigned payload contains exactly the fields that the type's signature covers, in order, with the type prefix, and the recovered signer is derived from the keccak hash of that payload with the normalised recovery id. Unsupported types and invalid signatures yield an error.",
 ["inputs"],"all transactions of every type, protected or not",
 "No stable test covers it.",
 [CP+"util.go"],[("PrepareUnsignedTransactionRlp, RecoverTransactionSignerAddress",CP+"util.go")])
p("H06","Query-input hashes commit to every field at a fixed position",
 "The hashed preimage of a query input is the fixed-width sequence of its committed fields: block number (32 bits) and base fee (128), then for a receipt its MPT key and per log the contract address, log index, first six bytes of topic 0, value-source flag, value index and value; for a storage slot the account address, slot and value; for a transaction its MPT key and leaf hash; then block time. All packed words are hashed in order, and negative, malformed or over-long values are refused rather than truncated.",
 ["inputs"],"all field values and all numbers of fields up to the maximum",
 "No stable test covers these hashes.",
 [CP+"query_id.go"],[("MiMCHashReceiptCustomInputs, MiMCHashStorageCustomInputs, MiMCHashTxCustomInputs",CP+"query_id.go")])
p("H07","Exported proofs and public inputs keep the verifier's order",
 "Exporting a proof or aggregated public inputs yields exactly the sequence the on-chain verifier expects: A, B with swapped extension coordinates, C, commitment, then the public values high half before low half. Every word of the binary encoding is 32 bytes and every field of the proof appears exactly once.",
 ["inputs"],"all proof and public-input values",
 "One stable test compares a single example; other exporters have none.",
 [CP+"types.go",CP+"agg_exports.go",U+"groth16_util.go"],[("EncodeABI, AsBigInts, ExportProof, public-input export",CP+"types.go; "+U+"groth16_util.go; "+CP+"agg_exports.go")])
p("H08","Verifying-key hashes bind every component of the key",
 "The application verifying-key hash absorbs every component of the key that determines verification - domain size, generator, commitments, selector and permutation polynomials and KZG data - once and in the published order, with fixed-width encodings. Changing any one of them changes the hashed preimage, and folding the 48-byte hash absorbs both of its 24-byte halves, left-padded to a block, in order.",
 ["inputs"],"all verifying keys",
 "No stable test covers it.",
 [U+"plonk_util.go"],[("CalculateAppVkHash*",U+"plonk_util.go")])
p("H09","Contract codec and hex helpers are inverse and reject malformed data",
 "Encoding then decoding call or return data gives back the same values, with the right argument list (inputs for calldata, outputs for return data). Unknown methods, wrong argument counts and unusable targets (not a pointer, nil, or of another type) are reported as errors, and padding helpers left-pad to the exact width and refuse longer input.",
 ["inputs"],"all methods, values and byte strings",
 "No stable test covers them.",
 [U+"contract_codec.go",U+"hex.go"],[("codec",U+"contract_codec.go"),("hex and padding",U+"hex.go")])
p("H10","Object-store client reports the outcome of the object it was asked for",
 "Each object-store operation addresses exactly the requested bucket and key (with the documented prefix) and returns the store's error unchanged in effect: 'exists' is true only if the store confirmed it, and data is returned only after a complete download. No operation hides a failure as 'not found' or success, and listing reports the objects of the page the store answered.",
 ["fault_sequences","inputs"],"all keys and store failures",
 "No stable test covers it.",
 ["common/s3api/client.go"],[("client","common/s3api/client.go")])
p("H11","Key, proof, witness and circuit files are complete and read back",
 "Every helper that writes a proving key, verifying key, witness, constraint system or proof file leaves, when it reports success, exactly the serialised object in the file of the name it was given: nothing of an older, longer file remains, nothing stays in a buffer, no second write follows. Every matching reader hands its object the whole content of the named file from the first byte, in the form the writer produced; the open-or-create helper never empties an existing file.",
 ["inputs","fault_sequences"],"all objects, names, former file contents and write or read failures",
 "No stable test covers these helpers; an older longer file or an unflushed buffer does not show with small fresh files.",
 [U+"plonk_util.go",U+"pk-vk-utils.go",U+"groth16_util.go",U+"utils.go"],[("file helpers",U+"pk-vk-utils.go, "+U+"plonk_util.go; CreateOrOpenFile in "+U+"utils.go")])
p("H12","Host hash helpers absorb exactly the documented encoding of their data",
 "The host helpers that prepare or hash data for circuits (block-hash halves, the bit encoding, padding and round index of header RLP, MiMC leaf hashes and roots, the BLS12-377 and Poseidon BN254 byte hashes) absorb every bit of their input exactly once, in order, split and zero-filled as documented, reduced modulo the field of the hash they feed. Data of a length they do not support is refused, a failure of the underlying encoder or hash is reported, and repeated use of a hasher starts from the state its reset defines.",
 ["inputs","configurations"],"all contents, all lengths and list sizes of a declared grid",
 "No stable test covers these helpers; wrong moduli, dropped bits and boundary lengths show only on particular contents.",
 ["circuits/fabric/smt/utils.go",U+"utils.go",U+"poseidon_bn254.go"],[("header encoding and MiMC root","circuits/fabric/smt/utils.go NewHash, EncodeHeaders, GenHeaders, MimcRoot, MimcHashBytes32"),("byte hashes",U+"utils.go GenerateBls12377Hash; "+U+"poseidon_bn254.go PoseidonBn254Hasher")])
p("H13","Lookup, naming, collection and conversion helpers answer exactly",
 "The small host helpers that choose data give the documented answer for every input. The start-block table gives each listed chain its block, block/128 as first index and the chain itself, any other chain block 0. Membership tests are true exactly when an entry equals the target; partitioning lists under each key, in input order, exactly the values its predicate accepts. An object key is prefix, slash, decimal slot, .json; sub-proof paths name every receipt, storage slot and transaction, in that order. Hex lists, decimal numbers and times convert exactly over their range.",
 ["inputs"],"all chain ids, lists, keys, predicates, texts and times (list loops followed for a bounded number of rounds; times within the int64 nanosecond range)",
 "No stable test covers these helpers; a wrong table row, a skipped last entry or a narrowed number shows only for particular inputs.",
 [U+"const.go",U+"utils.go",U+"string.go",U+"time.go","common/circuits/smt.go","common/s3api/utils.go",CP+"types.go"],[("table",U+"const.go GetStartBlockInfo"),("collections",U+"utils.go Contains, Partition, Convert2DimensionalByteArrayToString; common/circuits/smt.go ChunkIndexFound"),("names","common/s3api/utils.go ObjectKey; "+CP+"types.go GetSubProofS3Path"),("conversions",U+"string.go; "+U+"time.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
