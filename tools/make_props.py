"""Writes /verif/properties.jsonl (kept as data here so that it diffs readably)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop("P01", "Running a traced graph computes exactly its dataflow",
     "Executing a program graph returns, for every declared output, the value obtained by applying each operation once to the values its inputs denote, whatever the graph's shape, sharing, multi-result operations, repeated outputs or unused operations. Re-running the same graph on other inputs gives the results of those inputs, and a failing operation surfaces its own error without corrupting later runs.",
     ["programs", "inputs"], "every well-formed graph of bounded size, every assignment of operation semantics (uninterpreted) and of input values",
     "Tests run a handful of fixed graphs on fixed numbers; wrong wiring that only shows with sharing, dead operations or repeated outputs needs a graph they never build.",
     ["mplang/runtime/interpreter.py", "mplang/edsl/graph.py"],
     [("graph execution loop with last-use freeing", "runtime/interpreter.py evaluate_graph"), ("graph construction and finalisation", "edsl/graph.py Graph")])

prop("P02", "Asynchronous execution never changes a result",
     "Executing a graph with some operations scheduled asynchronously terminates and returns the same outputs as synchronous execution, for every order in which the pool starts and finishes work. An operation that fails makes the whole execution fail with that operation's error instead of hanging or returning values.",
     ["schedules", "programs"], "every graph of bounded size, every choice of which operations are asynchronous, every order of task starts and completions, every failing operation",
     "The operating system's scheduler shows tests one benign order; a lost wake-up, a value freed too early or an error swallowed needs a specific completion order.",
     ["mplang/runtime/interpreter.py"],
     [("ready-queue scheduling with futures", "runtime/interpreter.py asynchronous graph evaluation")])

prop("P03", "Multi-party operations do at run time what their semantics say",
     "When every party runs the same program, a party-local call runs exactly on its parties with their own inputs, a shuffle delivers to each target the value of its declared source (including swaps, cycles and self-sends), converge merges disjoint owners, a uniform conditional or loop agrees on one decision, and every other party sees an explicit hole. Every party terminates.",
     ["programs", "schedules", "inputs"], "every routing table, party mask and predicate value for up to four parties, every interleaving of the parties' steps, symbolic payloads",
     "Tests use a few routings in which no two parties send to each other at the same step, on a benign schedule.",
     ["mplang/backends/simp_worker/ops.py", "mplang/backends/simp_worker/comm_context.py", "mplang/backends/simp_worker/mem.py", "mplang/dialects/simp.py"],
     [("per-party kernels", "backends/simp_worker/ops.py"), ("scoped message keys", "backends/simp_worker/comm_context.py")])

prop("P04", "Messages between parties are delivered once, in order, to their receiver",
     "For every interleaving, the k-th message a party sends to a peer within a communication scope is what that peer's k-th receive from that party in the same scope returns, exactly once; messages of different scopes, jobs or senders never satisfy each other's receives. A duplicate delivery is reported instead of overwriting a pending message.",
     ["schedules", "histories"], "every interleaving of bounded send/receive/spawn histories between up to three parties with symbolic payloads",
     "Key collisions and lost messages depend on the order in which scopes are opened and on simultaneous traffic in both directions; tests use one-directional, serial traffic.",
     ["mplang/backends/simp_worker/base.py", "mplang/backends/simp_worker/mem.py", "mplang/backends/simp_worker/comm_context.py", "mplang/backends/simp_worker/http.py"],
     [("mailbox", "backends/simp_worker/base.py"), ("scoped key derivation", "backends/simp_worker/comm_context.py")])

prop("P05", "Static party types predict where values live at run time",
     "If a multi-party program type-checks with a value typed as living at a set of parties, then at run time exactly those parties hold that value and all others hold none; programs whose operands cannot be co-located, whose routing names a missing party, or whose merged values overlap are rejected at trace time.",
     ["programs", "configurations"], "every party set, mask and routing over up to four parties, every composition of party-local call, shuffle, converge, conditional and loop within bounds",
     "Tests check a few masks; a wrong set operation shows only for particular overlaps of three or more sets.",
     ["mplang/dialects/simp.py", "mplang/edsl/typing.py"],
     [("party-set inference", "dialects/simp.py abstract evaluation"), ("multi-party type", "edsl/typing.py MPType")])

prop("P06", "Collective operations are correct for every party set",
     "Broadcast, scatter, gather, all-gather, all-to-all, permute, transfer, reduce and all-reduce over any subset and ordering of parties give every participant exactly the value the collective defines, gathered values in ascending party order, and non-participants nothing.",
     ["configurations", "inputs", "schedules"], "every ordered subset of up to four parties as participants and root, symbolic payloads",
     "Tests use the natural order 0..n-1 with all parties participating.",
     ["mplang/libs/collective.py", "mplang/backends/simp_worker/collectives.py", "mplang/backends/simp_worker/collective_algorithms.py"],
     [("frontend collectives", "libs/collective.py"), ("worker-level algorithms", "backends/simp_worker/collective_algorithms.py")])

prop("P07", "Tracing a function and running the trace equals calling it",
     "For every composition of operations, tracing a function and then executing the trace gives the same nested result as executing it eagerly on the same arguments, with constants, captured outer values, argument reordering, nested containers and duplicated or unused arguments preserved.",
     ["programs", "inputs"], "every bounded straight-line program over pytree arguments with captures and nested regions, symbolic argument values",
     "Tests pick a few structures; index mix-ups between dynamic arguments, constants and captures need particular argument layouts.",
     ["mplang/edsl/tracer.py", "mplang/utils/func_utils.py", "mplang/dialects/func.py", "mplang/backends/func_impl.py", "mplang/runtime/interpreter.py"],
     [("tracing and reconstruction", "edsl/tracer.py"), ("argument flattening", "utils/func_utils.py")])

prop("P08", "Serialisation round-trips every value, type and program graph",
     "Every supported value, type and program graph survives encoding to JSON text and back unchanged in content, structure and type, independently of how often or in which process it is decoded.",
     ["inputs", "programs"], "every supported value kind with symbolic scalars/bytes of bounded size, every type term of bounded depth, every bounded graph",
     "Tests round-trip a few examples; failures sit at particular values (bytes, NaN-like, reserved keys, empty containers, nested regions).",
     ["mplang/edsl/serde.py", "mplang/edsl/typing.py", "mplang/edsl/graph.py"],
     [("tagged JSON encoding", "edsl/serde.py to_json/from_json")])

prop("P09", "Type equality, hashing and compatibility are lawful",
     "Type equality is an equivalence relation, equal types hash equally, distinct data layouts are never equal, and the front end's signature checks on conditional branches and loop state accept exactly equal types.",
     ["inputs", "programs"], "every pair/triple of types of bounded depth with symbolic dimensions and attributes",
     "Laws quantify over pairs and triples of types; tests compare a few hand-picked pairs.",
     ["mplang/edsl/typing.py"], [("type classes' equality and hash", "edsl/typing.py")])

prop("P10", "A stored program artifact is exactly the compiled program or is rejected",
     "Packing a compiled program to its artifact form and unpacking it restores a program with the same graph, structure and signature, and an artifact changed in any way that would alter the unpacked program's graph, digest, version, signature or opcode list is rejected on unpacking (purely descriptive fields such as name and creation time are not protected).",
     ["inputs", "programs"], "every bounded program; every modification of a protected field",
     "Tests tamper one byte at one place.",
     ["mplang/tool/program.py", "mplang/edsl/program.py"], [("pack/unpack with digest", "tool/program.py"), ("program validation", "edsl/program.py")])

prop("P11", "The object store returns what was stored and never leaves its root",
     "For every history of puts, gets, overwrites, deletes and listings across the in-memory and file-system stores, a handle returns the last value stored under it until deleted and nothing afterwards, different keys never collide (keys naming the same normalised path are the same handle), a failed put changes nothing, and no object key or relative upload path - whatever its text - reads, writes or deletes outside the store's root. (Absolute local paths given to upload and download are used as given.)",
     ["histories", "inputs"], "every bounded operation history over symbolic values and every key text of bounded length over path characters",
     "Containment quantifies over key texts and histories; tests try one '../'.",
     ["mplang/runtime/object_store.py", "mplang/backends/store_impl.py"], [("backend key resolution", "runtime/object_store.py")])

prop("P12", "Structural tensor operations rearrange data exactly as typed",
     "Slicing, elementwise application, transpose, reshape, concatenation, gather, constants and byte reinterpretation produce a tensor of exactly the statically predicted shape and type whose every element is the source element the operation's definition names; ill-typed uses over known shapes are rejected before execution.",
     ["inputs", "programs"], "every shape up to rank 3 with small extents, every legal attribute value, symbolic element values",
     "Off-by-one and axis mix-ups show only for particular shapes, negative axes, strides or empty extents.",
     ["mplang/dialects/tensor.py", "mplang/backends/tensor_impl.py"], [("shape inference", "dialects/tensor.py"), ("kernels", "backends/tensor_impl.py")])

prop("P13", "Tables are read, converted and written without losing or reordering rows",
     "Reading a stored table in any batch size yields every row exactly once, in order, with the declared columns and types; writing one or several tables stores every row of every column under its own name, or fails leaving no file; tables and tensors convert into each other cell by cell; a SQL query reads exactly the tables bound to its names, whatever queries came before or after.",
     ["inputs", "histories"], "every split of rows into files, chunks and batches up to small sizes, symbolic cell values",
     "Row loss depends on how chunk, file and batch boundaries interleave; tests use one chunk.",
     ["mplang/backends/table_impl.py", "mplang/dialects/table.py"], [("batched readers", "backends/table_impl.py"), ("table/tensor conversion", "backends/table_impl.py")])

prop("P14", "Element-type conversions between libraries are consistent",
     "Mapping an element type between MPLang and the array, table and device libraries and back is the identity wherever both sides support it, never maps two different types to one, and preserves signedness and width (object columns stand for text and date types carry no unit: documented many-to-one mappings); types the other side lacks are refused.",
     ["inputs"], "every supported element type with symbolic width/sign parameters",
     "Tests sample a few types.", ["mplang/dialects/dtypes.py"], [("conversion tables", "dialects/dtypes.py")])

prop("P15", "Finite-field kernels implement the field",
     "The GF(2^128) multiplication, in the Python fallback and in the native kernel, is the polynomial product modulo x^128 + x^7 + x^2 + x + 1 for all operands, element by element and in the shape of the operands; the sparse-matrix syndrome (field.ldpc_encode), in both implementations, is for every row the sum of exactly the elements that row selects, empty rows included. Memory accesses of the native kernels stay inside their arrays.",
     ["inputs"], "all 2^256 operand pairs (every bit unknown), bounded array shapes and batch sizes, every bounded sparse matrix",
     "Random vectors cannot cover carries and reductions for all operands.",
     ["mplang/kernels/gf128.cpp", "mplang/kernels/ldpc.cpp", "mplang/kernels/py_kernels.py", "mplang/backends/field_impl.py", "mplang/dialects/field.py"],
     [("carry-less multiply and reduction", "kernels/gf128.cpp"), ("python fallback", "kernels/py_kernels.py")])

prop("P16", "Oblivious key-value stores decode what was encoded",
     "For every set of distinct keys, all values, every store size and seed, decoding an encoded store at the encoded keys, in any order and number, returns their values, with the Python fallback and with the native kernel; when the keys cannot be placed, encoding reports the failure rather than returning a wrong store; what a key reads is linear in the store. (The binned native kernels for 200000 keys and more are not covered.)",
     ["inputs"], "every row of hash positions a key can have and all values and store contents symbolically, up to 3 keys and 6 positions",
     "Tests use random keys; a mismatch between the encoder's and decoder's position derivation or combination needs particular rows.",
     ["mplang/kernels/okvs.cpp", "mplang/kernels/py_kernels.py", "mplang/backends/field_impl.py"],
     [("solve/decode kernels", "kernels/okvs.cpp"), ("python fallback", "kernels/py_kernels.py")])

prop("P17", "Oblivious transfer delivers the chosen message and only it",
     "In base, extended and correlated oblivious transfer the receiver obtains exactly the message selected by each choice bit for every choice vector and message vector, the sender's view is independent of the choices, and the unchosen message stays masked by a key the receiver does not hold.",
     ["inputs"], "all choice bits and messages symbolically, batch sizes within bounds, ideal group and hash",
     "Tests compare a few random vectors and cannot see dependence of a view on a secret.",
     ["mplang/libs/mpc/ot/base.py", "mplang/libs/mpc/ot/extension.py", "mplang/libs/mpc/ot/silent.py"],
     [("base OT", "libs/mpc/ot/base.py"), ("extension", "libs/mpc/ot/extension.py")])

prop("P18", "Vector OLE correlations satisfy their linear relation",
     "The Gilboa and the silent vector-OLE constructions hand the two parties vectors satisfying w = v + u * delta in GF(2^128), element by element, for all secrets and all randomness, at the requested length, each vector only to its party; what the sender receives tells it nothing of delta and what the receiver receives nothing of u. (Silver is documented as an incorrect demonstration and is not covered.)",
     ["inputs"], "all secret and random field elements symbolically at bounded length, ideal OT/hash",
     "Tests check random instances of one size.",
     ["mplang/libs/mpc/vole/gilboa.py", "mplang/libs/mpc/ot/silent.py", "mplang/libs/mpc/ot/extension.py"],
     [("Gilboa products", "libs/mpc/vole/gilboa.py"), ("silent expansion", "libs/mpc/ot/silent.py")])

prop("P19", "Private set intersection returns exactly the intersection",
     "For every pair of input sets, the intersection protocols report exactly the common items at their input positions, no item is missed or falsely matched given ideal hashing, and parties other than the entitled one learn only masked data.",
     ["inputs"], "every equality pattern between the two parties' items at bounded set sizes, symbolic masks and seeds",
     "Tests use a few overlapping ranges; misalignment appears for particular positions, sizes and multiplicities.",
     ["mplang/libs/mpc/psi/rr22.py", "mplang/libs/mpc/psi/unbalanced.py", "mplang/libs/mpc/psi/oprf.py", "mplang/libs/mpc/psi/cuckoo.py"],
     [("OPRF-based matching", "libs/mpc/psi/rr22.py, unbalanced.py")])

prop("P20", "Secure permutation and group-by match their plain counterparts",
     "Securely permuting one party's items by another party's permutation gives exactly the permuted items, to the permutation's owner only, and a secure switch gives both items in the order its control bit selects; both secure group-by sums equal the plain sum of each group, at the receiver only; for all data, all permutations and all group assignments. The data owner learns nothing of the permutation; of the groups the data owner decrypts whole-group sums only; the helper learns nothing of the data, the receiver nothing but the group sums.",
     ["inputs"], "all data values and coins symbolically; all permutations up to 4 items, 8 items by the 0-1 principle, all group assignments of up to 5 items (16 slots)",
     "Tests use one permutation or grouping per test.",
     ["mplang/libs/mpc/analytics/permutation.py", "mplang/libs/mpc/analytics/groupby.py"],
     [("switching network", "libs/mpc/analytics/permutation.py"), ("oblivious group-by", "libs/mpc/analytics/groupby.py")])

prop("P21", "Homomorphic packing and aggregation sum every element exactly once",
     "Rotating and summing packed ciphertexts produces, in every slot that the routine declares meaningful, the exact sum of the selected input slots, for all slot contents, window sizes, strides, bucket counts and sparse source/target plans, whichever of the two slot rows they touch; sparse sums leave all other slots zero.",
     ["inputs", "configurations"], "all slot contents symbolically; every window up to 4096 slots, every stride, bucket count and sparse plan on a bounded slot count",
     "Tests use constant or sequential vectors and power-of-two sizes.",
     ["mplang/libs/mpc/analytics/aggregation.py", "mplang/dialects/bfv.py"],
     [("rotate-and-sum", "libs/mpc/analytics/aggregation.py")])

prop("P22", "Homomorphic-encryption operators compute on plaintexts faithfully",
     "For every key, plaintext and operation tree, decrypting the result of homomorphic operations equals the same operations on the plaintexts under the scheme's declared encoding (BFV: slots modulo the plaintext modulus; PHE: signed numbers), with operand order and tensor shape preserved, zero operands and zero results included, and operands of different schemes rejected. Public, relinearisation and Galois keys and ciphertexts, as values and as sent, carry no secret key, and keys are generated for the parameters asked for.",
     ["inputs", "programs"], "all plaintext values symbolically over an ideal scheme, bounded operation trees and tensor shapes",
     "Tests use a few small positive numbers.",
     ["mplang/backends/phe_impl.py", "mplang/dialects/phe.py", "mplang/backends/bfv_impl.py", "mplang/dialects/bfv.py"],
     [("additive HE kernels", "backends/phe_impl.py"), ("BFV kernels", "backends/bfv_impl.py")])

prop("P23", "Key exchange and symmetric encryption agree between the two ends",
     "The two ends of a key exchange derive the same secret and other pairs of keys derive other ones; keys derived by hkdf agree exactly for the same secret and purpose; decryption inverts encryption for every key and message, rejects any modified ciphertext and any other key, and no nonce is used twice; curve operations are the group's for all scalars (negative, zero and beyond the order) and points, the identity included, and points survive being written out and read back; hashing matches SHA-256 per row.",
     ["inputs"], "all scalars, keys, nonces and ciphertext bytes symbolically over an ideal group and cipher, every short sequence of point operations",
     "Tests use fresh random keys and one message, never special scalars or identity points.",
     ["mplang/backends/crypto_impl.py", "mplang/dialects/crypto.py"], [("group and KEM kernels", "backends/crypto_impl.py")])
prop("P24", "Attestation yields exactly the key and curve the quote was issued for",
     "Attesting a quote yields exactly the public key bytes and the curve it was issued for, whichever way the quote travelled (as a value, as JSON, as bytes), for keys of every length; a quote over a key of another curve than the one expected is refused; and the channel derived from an attested key is shared with the issuing enclave and nobody else.",
     ["inputs"], "all key bytes symbolically, key lengths, curves, expected curves and ways of travelling",
     "Tests attest one freshly generated 32-byte key.",
     ["mplang/backends/tee_impl.py", "mplang/dialects/tee.py"], [("quote issuing, transport and attestation", "backends/tee_impl.py")])

prop("P25", "Device programs place data where declared and compute the same result",
     "Moving values between plain devices, secure (SPU) devices and trusted (TEE) devices and computing on them, with positional, keyword and nested arguments, gives results with the value the plain program computes, marked with the declared or inferred device and held by that device's parties only; each member of a secure device holds its own share, wherever in the cluster it and the data sit, and a function over operands on several devices runs on the device the documented inference picks or is refused when that is ambiguous. (Moves between two secure or two trusted devices are refused as not implemented; fetching a secure object without moving it is not covered.)",
     ["programs", "configurations", "inputs"], "every bounded chain of puts, moves and calls over every ordered device pair, symbolic data, ideal secure backends",
     "Tests walk a few device pairs with fixed numbers.",
     ["mplang/libs/device/api.py", "mplang/libs/device/cluster.py"], [("placement and conversions", "libs/device/api.py")])

prop("P26", "Private data leaves its party only encrypted or shared",
     "When a device program moves private data to a secure or trusted device, computes there and moves results on, what any other party receives in the clear, and what the shares it receives tell it, depends only on values the program itself moved to that party's plain devices; data sent to or from a trusted device is encrypted on the way with keys of an attested exchange and no private or session key is ever sent.",
     ["inputs", "programs"], "all secret inputs symbolically, bounded device programs, ideal cipher/sharing; non-interference as a two-run query",
     "Independence of a view from a secret is a relation between two runs that no single test execution observes.",
     ["mplang/libs/device/api.py", "mplang/backends/spu_impl.py", "mplang/backends/tee_impl.py"],
     [("device transfer protocols", "libs/device/api.py")])

prop("P27", "Concurrent jobs on one worker never mix their state or messages",
     "For every interleaving of jobs submitted to the same workers, each job gets the results it would get alone, each party's answer is attributed to that party, and a job's failure is reported to its submitter and leaves other jobs unaffected.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of two or three bounded jobs with symbolic payloads, every failing party",
     "Tests run one interleaving chosen by the OS.",
     ["mplang/backends/simp_worker/infra.py", "mplang/backends/simp_worker/request.py", "mplang/backends/simp_driver/mem.py", "mplang/backends/simp_driver/ops.py", "mplang/backends/spu_state.py"],
     [("per-request interpreters", "backends/simp_worker/request.py"), ("driver dispatch", "backends/simp_driver/ops.py")])

prop("P28", "Packed vector columns survive conversion, slicing and storage",
     "Building a vector column from nested data, slicing, concatenating, storing and reading it back, and applying element-wise or reduction functions give the same values as the plain nested data, for every length, null pattern and nesting.",
     ["inputs", "histories"], "every bounded shape and null pattern, symbolic values",
     "Tests use short null-free columns.",
     ["mplang/extend/arrow/vector.py", "mplang/extend/arrow/compute.py"], [("extension arrays", "extend/arrow/vector.py")])

prop("P29", "Network endpoints reject what they must not accept",
     "Job and object identifiers received from the network are accepted only if they cannot name anything outside their namespace, undecodable or mistyped requests are answered with an error rather than executed, and every accepted message reaches exactly the job it names.",
     ["inputs", "histories"], "all identifier texts of bounded length symbolically, bounded message histories",
     "Quantifies over arbitrary identifier texts.",
     ["mplang/backends/simp_worker/http.py", "mplang/backends/channel.py"], [("request validation", "backends/simp_worker/http.py")])

prop("P30", "Gradient-boosting statistics and trees equal their plain definitions",
     "Bucketing, histogram accumulation, split selection, leaf weights and tree prediction in the secure boosted-tree library equal their plain definitions for all data within the declared numeric range.",
     ["inputs"], "all bounded data sets with symbolic features, gradients and bucket edges",
     "Tests compare accuracy on one random data set.",
     ["mplang/libs/ml/sgb.py"], [("histogram and split kernels", "libs/ml/sgb.py")])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
