TECH = "contract-based deductive verification (weakest-precondition style symbolic execution of the real Go source against contracts, SMT-discharged)"
LEVEL_NOTE = ("Every obligation generated from the current source of the functions under contract is discharged by an SMT solver, "
 "for all inputs and iterations. Trusted: the gvc verifier and its Go semantics, z3/cvc5, assumed contracts on standard-library "
 "functions listed in the evidence file, at most 2^47 elements per slice, partial correctness (termination not proved), no data races.")
def P(id, title, statement, q, why, files, mech, over=("inputs",), note=""):
    return dict(id=id, title=title, statement=statement, q=q, why=why, files=list(files), mech=mech, over=list(over), note=note)
PROPS = [
P("C01", "Fixed-size identifiers are built from bytes losslessly and canonically",
  "An identifier built from a byte string of its own length holds exactly those bytes, a longer string keeps its last bytes and a shorter one is right-aligned with leading zeros, and the slice view of an identifier gives those bytes back without aliasing surprises. Encoding an identifier or a chain id to bytes and decoding it again yields the same value, and distinct identifiers have distinct encodings.",
  "every byte string of every length, including nil, shorter, exact and longer than the identifier",
  "tests use a few literals; the claim is over all byte strings and all lengths",
  ["basic.go", "chaininfo.go"],
  [("BytesTo*/SetBytes/Bytes/Slice", "basic.go"), ("ChainID.Bytes", "chaininfo.go")]),
P("C02", "Height, epoch and block-number arithmetic is exact and invertible",
  "Splitting a height into epoch and block number and recombining gives the same height, comparison and distance agree with integer order, and the nil sentinel never takes part in arithmetic silently. The byte form of heights, epochs, eras and block numbers round-trips for every value.",
  "every 64-bit height and 32/64-bit epoch, era and block number, every epoch length the configuration admits",
  "tests try single-digit heights with the default epoch length; overflow and sentinel boundaries are never reached",
  ["basic.go", "consts.go"], [("Height/EpochNum/BlockNum/EraNum methods", "basic.go")]),
P("C03", "Comparison methods are total orders with nil smallest and agree with equality",
  "Comparing heights, epochs, eras, chain ids, node ids and addresses is reflexive, antisymmetric and transitive, orders nil before everything and returns zero exactly when the values are equal; node ids, addresses and hashes are ordered by their first different byte. Data servers are ordered by chain and then by node, data nodes genesis first and then by node. Identifiers, identifier lists and repetition records are equal exactly when they hold the same values in the same places.",
  "all pairs and triples of values, including nil pointers and differing lengths",
  "tests compare a few pairs; transitivity and totality quantify over all triples",
  ["basic.go", "chaininfo.go", "utils.go"], [("Compare/Equal methods", "basic.go, chaininfo.go")]),
P("C04", "Checked arithmetic reports every overflow and gas is conserved",
  "Checked 64-bit addition, subtraction and multiplication return the exact result modulo 2^64 and flag overflow exactly when the mathematical result does not fit. A gas pool never creates or loses gas: a failed withdrawal changes nothing, a successful one removes exactly the amount, and a deposit that would overflow is refused.",
  "every pair of 64-bit operands, every sequence step of the gas pool",
  "tests sample a table of values; the flag must be right on all 2^128 operand pairs",
  ["math/integer.go", "gaspool.go", "version.go"], [("SafeAdd/SafeSub/SafeMul", "math/integer.go"), ("GasPool.AddGas/SubGas", "gaspool.go"), ("Version", "version.go")]),
P("C15", "Sharding sends every account to exactly one shard, decided by its leading bits",
  "For any set of shard chains the shard of an account is a member of that set (the parent when the set is empty), depends only on the leading mask bits of the address, and is the same for every order and duplication in which the set is given. The position of a chain in the sharding is the index under which it is stored, and bit and prefix queries on addresses look at exactly the bits they name.",
  "all addresses, all shard sets up to the admitted size, all bit positions and lengths",
  "the unit test looks at bits of one byte string and never at the mapping from accounts to shards",
  ["shardinfo.go", "consts.go"], [("AccountShards.index/shardTo/pos, NewShardInfo", "shardinfo.go"), ("BitIndex, Bits, AddressShard", "shardinfo.go")]),
P("C17", "Byte-string utilities compute the stated slices without aliasing or panics",
  "Copying, cloning, padding, reversing, splitting, joining, comparing and bit-shifting byte strings return exactly the bytes their documentation states, for nil, empty and arbitrarily long inputs. Copies never share memory with their input, in-place operations change nothing else, and no input makes them panic.",
  "all byte strings of any length including nil, all offsets and sizes",
  "tests use a few short strings; index arithmetic at the boundaries is not sampled",
  ["bytes.go", "utils.go"], [("CopyBytes, LeftPadBytes, SplitBytes, ConcatenateBytes, SubBytes ...", "bytes.go"), ("ReverseBytes", "utils.go")]),
P("C11", "Trie keys and node headers convert to and from nibbles losslessly",
  "A key expands to two nibbles per byte, the high one first, and contracts back to the same key. The compact prefix of a node header and its hexadecimal form decode to exactly the prefix that was encoded, whatever its length and parity. The common prefix of two nibble strings is the longest one, and a node header states exactly the kind, prefix and children of its node.",
  "all keys and prefixes of every length and parity, all nodes",
  "tests use a few short keys; parity and length combine freely in a real trie and a lossy prefix loses or merges keys",
  ["trie/utils.go", "trie/node.go"],
  [("keyToPrefix/prefixToKey, keystringToPrefix", "trie/utils.go"), ("NodeHeader, newNodeHeader, ntype", "trie/node.go")]),
P("C12", "A change in the trie leaves no stale hash behind and is saved completely",
  "Whenever an insertion, deletion, merge, prefix change, child change or value change modifies a trie node or something below it, that node is marked dirty and its cached hash is dropped, so the root of a changed trie is always dirty and hashed anew. Only a clean node is ever folded away, a node merges with its child only when it has no value and that is its only child, and a commit that could not save a node reports it and otherwise leaves the root clean.",
  "all nodes, keys, values and trie shapes, every step of the recursion over the tree, every failure of the node store",
  "a stale hash shows only after a particular sequence of commits and edits along one path; tests hash fresh tries",
  ["trie/node.go", "trie/trie.go"],
  [("setPrefix/setChild/setValue/chopPrefix*", "trie/node.go"), ("Trie.insert/delete/removeValue, mergeTheLastChild", "trie/trie.go, trie/node.go"), ("iterateSave/commitLocked, collapse", "trie/trie.go, trie/node.go")]),
P("C19", "Database wrappers act exactly like the store they wrap",
  "A prefixed adapter reads, writes, deletes and batches exactly the keys carrying its prefix and no others. A read-only database refuses every write and leaves the underlying store untouched. The memory database returns what was last put under a key, a batch applies its commands in order, and neither keeps the caller's slices. A temporary database never writes to its base and shows its own changes over it, and a cached database always answers like the database below it. Writing in batches writes every element exactly once and reports every error.",
  "every key, value, prefix and batch, every state of the underlying store (including a failing one) and of the overlay or cache",
  "tests put a few keys into a healthy store; coherence must hold after every history of puts, deletes, batches, misses and failures",
  ["db/adapters.go", "db/cacheddb.go", "db/memdb.go", "db/readonly.go", "db/types.go"],
  [("keyPrefixedDataAdapter", "db/adapters.go"), ("readonlyDB", "db/readonly.go"), ("MemDB/memBatch", "db/memdb.go"), ("temporaryDB", "db/readonly.go"), ("cachedDB", "db/cacheddb.go"), ("BatchWrite", "db/types.go")]),
P("C16", "Hexadecimal strings decode to exactly what was encoded",
  "Encoding a byte string as 0x-prefixed lower-case hexadecimal and decoding it gives the same bytes, and text or JSON marshalling of byte strings agrees with it. Decoding accepts exactly the strings of even length made of hexadecimal digits (with the 0x prefix where required) and never panics; a fixed-length decode succeeds only for its exact length and leaves the target untouched on failure. A 64-bit quantity is written without leading zeros, reads back as itself, and a malformed, oversized or zero-padded quantity is refused.",
  "every byte string and every text, including empty, odd-length, upper-case, unprefixed, zero-padded and non-hexadecimal ones; every 64-bit quantity",
  "tests use tables of a few dozen literals; the claim is over every text and every byte string",
  ["hexutil/hexutil.go", "hexutil/json.go"],
  [("Encode, Decode, EncodeUint64, DecodeUint64", "hexutil/hexutil.go"), ("Bytes, Uint64, Uint text and JSON methods, UnmarshalFixedText", "hexutil/json.go")]),
P("C05", "The raw RLP layer is canonical and splitting accepts exactly canonical input",
  "In the raw layer of the rlp package (headers, sizes, unsigned integers, splitting a buffer into values) every size and every integer has exactly one encoding, the size functions state its exact length, and what was written is read back. Splitting a buffer gives the kind and content of the first value and the bytes after it, and counting counts each value once. Non-canonical sizes, leading zeros, single bytes in long form, integers beyond 64 bits and truncated input are refused, and no input makes it panic or read outside its buffer.",
  "every byte string offered to be split, every size and 64-bit integer to be written",
  "tests use tables of literals; canonicity and the bounds of every read quantify over all byte strings",
  ["rlp/raw.go", "rlp/encode.go", "rlp/encbuffer.go", "rlp/iterator.go"], [("encBuffer.writeUint64, encodeStringHeader, list, listEnd", "rlp/encbuffer.go"), ("listIterator.Next", "rlp/iterator.go"), ("Split, SplitString, SplitList, SplitUint64, CountValues, readKind, readSize, AppendUint64, the size functions", "rlp/raw.go"), ("headsize, puthead, putint, intsize", "rlp/encode.go")]),
P("C08", "The Merkle root fixes every leaf and every proof leads back to the root",
  "The Merkle root of a list of hashes is a function of all leaves and their order, and a proof made for a leaf recomputes to exactly that root, for every list length and leaf position. A proof made for one leaf does not verify for another.",
  "every number of leaves, every leaf position, every proof",
  "tests use short lists; the tree shape changes at every length",
  ["hash.go"], [("MerkleHash, MerkleHashComplete, MerkleProofs.Proof", "hash.go")]),
P("C10", "Merkle proofs survive serialization unchanged",
  "A Merkle proof that is written and read back equals the original, and reading malformed or truncated bytes gives an error instead of a wrong proof or a panic.",
  "all proofs, all byte streams including short reads",
  "tests read back a few proofs from memory buffers that never give short reads",
  ["hash.go"], [("MerkleProofs.Serialization/Deserialization, writeArray/readArray", "hash.go")]),
P("C13", "A node proof leads to the trie root exactly when the key or value is there",
  "The proof chain of a key in a trie recomputes to the root hash of the trie, and no proof chain for another key, value or root verifies.",
  "all tries, all keys, all proof chains",
  "tests prove a few keys of fixed tries",
  ["trie/proof.go", "trie/trie.go", "trie/node.go"], [("NodeHasher, NodeProof, ProofChain", "trie/proof.go")]),
P("C14", "The history tree is an append-only list with a proof for every element",
  "Appending to the history tree stores the value under its index, never changes an earlier value, and its root and proofs are those of the complete tree over all values appended so far.",
  "all append sequences and all indexes",
  "tests append a fixed sequence",
  ["trie/historytree.go"], [("HistoryTree.Append/Get/Has/MergeProof", "trie/historytree.go")]),
P("C18", "Big-integer helpers are exact at the 256-bit boundaries",
  "Parsing, padding, two's complement conversion, byte access and exponentiation of big integers return the exact result of their definition, leave their operands alone and refuse values beyond 256 bits where stated.",
  "all integers, in particular around 2^63, 2^64, 2^255 and 2^256",
  "tests use tables; the claim is over all integers",
  ["math/big.go", "basic.go"], [("U256, S256, Exp, PaddedBigBytes, ParseBig256", "math/big.go")]),
P("C21", "Services change state only along their life cycle",
  "A service can be started only after it was initialised and stopped only after it was started, each transition happens at most once, and a transition whose hook fails leaves the service where it was.",
  "all sequences and interleavings of Init, Start and Close",
  "tests run one order of calls in one goroutine",
  ["types.go"], [("ServiceStatus, AbstractService", "types.go")]),
P("C22", "Shared maps and compare-and-set cells are linearizable",
  "Concurrent operations on the shared last-block map, the LRU map and the routine pool take effect one at a time, and a compare-and-set succeeds only from the value it names.",
  "all interleavings of concurrent callers",
  "tests run few goroutines and see few schedules",
  ["basic.go", "types.go", "routinepool.go"], [("LastBlockMap.CAS, LruMap, RoutinePool", "basic.go, types.go, routinepool.go")], over=("schedules",)),
P("C24", "ABI packing and unpacking are inverse to each other",
  "Packing arguments by an ABI method and unpacking the result gives the same arguments, with every static word 32 bytes long and every offset and length within the data, and unpacking malformed data gives an error and never panics.",
  "all types, values and byte strings",
  "tests use tables of types and literals",
  ["abi/pack.go", "abi/unpack.go", "abi/type.go"], [("Arguments.Pack/Unpack, toGoType, lengthPrefixPointsTo", "abi/")]),
]
CLAIMED = {"C05", "C16", "C19", "C01", "C15", "C02", "C03", "C04", "C17", "C11", "C12"}
NA_REASON = {
"C08": "The root is built from hashes of hashes: stating that it fixes every leaf needs collision resistance as an axiom and an induction over a tree kept in one slice whose length changes in the loop; contracts for the loop over levels were not completed, so nothing is claimed.",
"C10": "Writing and reading go through io.Writer/io.Reader and binary buffers of arbitrary implementations (short reads); gvc has no model of a byte stream as a sequence, so the round trip cannot be stated as a contract here.",
"C13": "Rests on C08 and on collision resistance of the hash over unbounded proof chains serialised by reflection (go-rtl); the hash and the serialiser can only be assumed, which leaves nothing of the property to prove.",
"C14": "A recursive heap tree whose shape encodes the index; the contracts would need recursive heap predicates (tree-shaped ownership), which gvc does not have, and the values are hashed and serialised by reflection.",
"C18": "All results are math/big integers; gvc models neither big.Int arithmetic nor its memory, and contracts assumed for it would assume the property itself.",
"C21": "The life cycle is guarded by a mutex and function fields; the interesting part (interleavings of Init, Start and Close) is outside a sequential verifier, and the sequential part alone is what the code spells out line by line.",
"C22": "Linearizability quantifies over schedules; gvc verifies sequential code and has no concurrent separation logic, so the property cannot be decided by contracts here.",
"C24": "Packing and unpacking are driven by reflect.Value and reflect.Type over types known only at run time; gvc has no contracts for package reflect.",
}
