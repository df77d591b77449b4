#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os
M='src/merkle.rs'; P='src/proof.rs'; H='src/hash.rs'; HI='src/hash_impl.rs'
S='src/store/mod.rs'; V='src/store/vec.rs'; D='src/store/disk.rs'; L='src/store/level_cache.rs'; MM='src/store/mmap.rs'
def A(files, mech, state=(), obs=()):
    return {"files":files,
            "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
            "mechanism":[{"name":a,"where":b} for a,b in mech],
            "observe_at":list(obs),"hook_needed":None}
props=[]
def add(id,title,statement,over,text,why,anchors):
    assert len(title)<=80,(id,len(title))
    props.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":anchors})

add("C01","A built tree is exactly the complete b-ary hash tree of its leaves",
 "A tree built over n leaves with base arity b (b a power of two, at least 2; n = b^k with k >= 1) holds exactly the nodes of the complete b-ary hash tree, in row order: the leaves first, in input order, then row by row the hash of each consecutive group of b nodes of the row below, computed with that row's height (0 for the nodes directly above the leaves), and the root last. The root, leaf count, node count and row count it reports, and every node read one at a time, by range or into a buffer, agree with that definition. This holds for every element size and every hash algorithm, including algorithms that depend on the height and leaves that are equal or all zero.",
 ["inputs","configurations"],"all arities, leaf counts, element widths, leaf values and algorithms, on every backing store",
 "The tests compare a few roots for fixed sizes and two algorithms that ignore the height; interior nodes, element sizes and size thresholds (1024, 4096, 262144 nodes) are sampled at best once.",
 A([M,S,D,L],[("build / build_small_tree / process_layer",S),("DiskStore::build, process_layer",D),("LevelCacheStore::build, front_truncate",L),("populate_data, populate_data_par",M)],
   [("data","flat array of all nodes, row after row",M),("leafs,len,row_count,root","cached shape of the tree",M)],
   ["MerkleTree::{root,len,leafs,row_count,read_at,read_range,read_into}"]))
add("C02","Every constructor and every backing store yields the same tree",
 "The same sequence of leaves gives the same root, node contents and sizes whichever constructor is used (sequence of hashes, hashable objects, fallible iterator, parallel iterator, raw leaf bytes, bytes of a complete tree, an already filled store, each with or without a persistent configuration) and whichever backing store holds it (memory, disk, memory map, or, with a configuration, level cache). The constructors that take hashes or objects apply the algorithm's leaf hash exactly once to each item, in order and with a fresh hasher state; the ones that take raw bytes store the leaves as given.",
 ["inputs","configurations"],"all pairs of constructor and store, for all leaf sequences and sizes",
 "Tests build with one constructor and one store at a time and check a root or a length; equality of all nodes across the whole constructor x store matrix is never asserted.",
 A([M,S,V,D,L,MM],[("try_from_iter(_with_config), from_par_iter(_with_config), from_byte_slice(_with_config), from_tree_slice(_with_config), from_data(_with_config), from_data_store",M),("Store::new*, new_from_slice*",S)],
   (),["all constructors of MerkleTree"]))
add("C03","The built tree does not depend on threads or schedule",
 "The nodes, root and on-disk bytes produced by a build are the same for every number of worker threads and every order in which the workers read, hash and write their chunks. No worker's result is lost, overwritten or placed elsewhere, and a row is only hashed once the row below is complete.",
 ["schedules","configurations"],"all interleavings of chunk workers, all thread-pool sizes, for sequential and parallel population and for every store's layer processing",
 "The tests run on whatever schedule rayon happens to pick, and almost only on trees that fit in one chunk.",
 A([M,S,D,L],[("process_layer (RwLock + par_iter over BUILD_CHUNK_NODES chunks)",S),("process_layer over a shared mmap",D),("process_layer over a shared mmap",L),("populate_data_par (RwLock, BUILD_DATA_BLOCK_SIZE chunks)",M)],
   [("data_lock","the store shared by the chunk workers",S)],["tree contents after construction under a given schedule"]))
add("C04","Every leaf has an inclusion proof that is exact and validates",
 "For every leaf index i < n of a tree, the generated proof lists the leaf, then row by row the b-1 siblings of the node on the path from left to right, then the root; its path lists the base-b digits of i starting with the least significant; its item and root are that leaf and the tree's root. The proof validates under the tree's algorithm, whether or not the algorithm depends on the height. An index i >= n is refused.",
 ["inputs","configurations"],"all arities, sizes, leaf indices, algorithms, stores",
 "Tests validate proofs only with algorithms that ignore the height and never compare lemma or path with an independent definition.",
 A([M,P],[("gen_proof",M),("Proof::new / validate",P)],[("lemma, path","proof contents",P)],["MerkleTree::gen_proof","Proof::{lemma,path,item,root,validate}"]))
add("C05","A proof validates only if its hash chain reproduces its root",
 "For an algorithm without collisions, validation of a proof over a single tree succeeds exactly when the lemma has one leaf, b-1 siblings for each path entry and one root, every path entry is below b, and hashing the leaf with the siblings, placed as the path says, row by row with the row's height gives the root. Replacing, swapping, dropping, adding or reordering any element of the lemma or of the path of an honest proof, or moving it to another leaf, root or algorithm, never yields a proof that validates unless that condition still holds. A malformed proof makes validation return false or an error.",
 ["inputs"],"all proofs over all arities, including adversarial ones that no tree generated",
 "Tests only overwrite one random lemma element of an honest proof with a random value; shapes, paths, truncations and splices are not tried.",
 A([P],[("Proof::validate",P),("Proof::new",P),("get_merkle_proof_lemma_len",M)],[("lemma, path","proof contents",P)],["Proof::new","Proof::lemma_mut","Proof::validate"]))
add("C06","Validation with data accepts exactly the leaf's own data",
 "For every honest proof of a tree built from hashable objects (single or compound), validating it together with the original object of that leaf succeeds. Validating it with data whose leaf hash differs from the proved leaf fails, and so does validating any proof that would not validate on its own.",
 ["inputs","configurations"],"all leaves, all data, honest and tampered proofs, all tree shapes",
 "Tests call it for a handful of single-tree proofs with matching data only.",
 A([P],[("Proof::validate_with_data, item",P)],(),["Proof::validate_with_data"]))
add("C07","A compound tree is the ordered composition of its sub-trees",
 "A compound tree made of s base trees (or t groups of s base trees), by whichever constructor, addresses leaf i as leaf i mod m of base tree i div m in the order given, where m is the leaf count of one base tree. Its root is the hash of the ordered roots of its parts with height 1, at each of its layers; its leaf count is the sum over its parts, its node count is the sum over its parts plus one, its row count is that of a part plus one. It is not empty, and parts of different size, or a number of parts other than the declared arity, are refused.",
 ["inputs","configurations"],"all base/sub/top arities, part sizes, constructors and stores",
 "Tests check leaf counts, lengths and some proofs for a few fixed shapes; order of addressing, root composition and agreement between constructors are not asserted.",
 A([M],[("from_trees, from_sub_trees, from_sub_trees_as_trees, from_slices*, from_stores, from_store_configs*, from_sub_tree_store_configs*",M),("read_at, len, is_empty",M),("get_merkle_tree_len_generic",M)],
   [("Data::{SubTree,TopTree}","parts of a compound tree",M)],["MerkleTree::{root,len,leafs,row_count,read_at,is_empty}"]))
add("C08","Compound proofs are complete and sound at every layer",
 "For every leaf of a compound tree the generated proof nests the proof of the leaf in its part and lists, per layer, the roots of the other parts in order and then the compound root, with the index of the part as path; it names the leaf and the compound root and validates, whether or not the algorithm depends on the height. A compound proof validates only if the inner proof validates, the layer lists exactly arity-1 other roots and one root, the path is one index below the arity, and the hash of the inner proof's root placed among the other roots gives the layer's root; changing any element, order, index or inner proof at any layer makes it fail. An out-of-range leaf index is refused.",
 ["inputs","configurations"],"all base/sub/top arities and sizes, every leaf, honest and adversarial proofs",
 "Tests overwrite one random element of the innermost layer; splices between layers, wrong indices, extra or missing roots and height-dependent algorithms are not tried.",
 A([M,P],[("gen_sub_tree_proof",M),("validate_sub_tree_proof",P)],[("sub_tree_proof","inner proof",P)],["MerkleTree::gen_proof","Proof::validate"]))
add("C09","A proof from a partial cache equals the proof from the full tree",
 "For every leaf and every number of discarded rows the configuration allows, the proof generated with cached rows and a rebuilt segment is identical (leaf, siblings, path, root, nesting) to the proof the complete tree would give. This holds for complete disk stores, for version 1 and version 2 compacted files opened as a level cache, and for compound trees over them; out-of-range indices are refused, and a row number that is too large is replaced by the default for the tree.",
 ["inputs","configurations"],"all arities, sizes, numbers of discarded rows, leaf indices, store kinds and tree shapes",
 "Tests check that some cached proofs validate for a few sizes; equality with the full proof over all indices and row numbers is not asserted.",
 A([M,L,D,S],[("gen_cached_proof, gen_proof_with_partial_tree, build_partial_tree, gen_cached_sub_tree_proof, gen_cached_top_tree_proof",M),("default_rows_to_discard",S),("read_range_into",L)],(),["MerkleTree::gen_cached_proof"]))
add("C10","Compaction keeps exactly the configured rows, or changes nothing",
 "Compacting a persisted tree for r discarded rows leaves a file that holds, byte for byte, the leaves (version 1 only) followed by the rows above the discarded ones up to the root, and nothing else. A compaction that is refused because the configuration keeps nothing or does not fit the tree leaves the file and every value readable from the tree as they were. Building a level-cache tree directly leaves the same file as building the full tree and compacting it to version 2.",
 ["inputs","configurations","histories"],"all arities, sizes, numbers of discarded rows, versions, element sizes, and repeated or refused compactions",
 "Tests check file sizes and a few proofs after compaction; contents of the file and the refusal cases are not compared.",
 A([D,L,M],[("DiskStore::compact",D),("LevelCacheStore::build, front_truncate",L),("get_merkle_tree_cache_size",M)],[("file","on-disk rows",D)],["bytes of the data file","MerkleTree::compact"]))
add("C11","A level-cache read returns the true node or is refused",
 "With its base layer available (in the file for version 1, from an attached reader for version 2), every read of a level-cache store or of a tree over it returns exactly what the complete tree holds at those positions, or is refused. Single reads and ranges are refused whenever they touch a discarded row, and answered whenever they lie entirely in the base row or entirely in the cached rows.",
 ["inputs","configurations"],"all positions and ranges, arities, sizes, numbers of discarded rows, versions, and every reading call",
 "Tests read through proofs only; positions at the boundaries of the discarded region and ranges that cross them are not tried.",
 A([L],[("read_at, read_into, read_range, read_range_into, store_read_range, store_read_into",L)],[("data_width, cache_index_start","limits of the discarded region",L)],["LevelCacheStore reads","MerkleTree::{read_at,read_range,read_range_into,read_into}"]))
add("C12","A persisted tree reopens as the same tree",
 "After a tree has been built with a persistent configuration, the file named sc-02-data-<id>.dat in the configured directory holds the elements of the tree back to back, and opening it again, in any later history of closing and reopening and by any opening constructor, gives the same root, nodes, sizes and proofs. Opening with a leaf count whose size does not match the file is refused, a read-only file can still be opened by the disk-based stores, and the consistency queries answer true exactly when the file has the size the configuration requires.",
 ["histories","configurations","inputs"],"all histories of build, drop, reopen, compact, reopen over several ids, stores, sizes and element widths",
 "Tests reopen once right after building and compare a root; longer histories, mismatching sizes and all opening calls are not covered.",
 A([D,L,MM,S,M],[("new_with_config, new_from_disk, new_from_disk_with_path, is_consistent",D),("new_from_disk, new_from_disk_with_reader, is_consistent, is_consistent_v1",L),("new_from_disk",MM),("StoreConfig::data_path",S)],[("file","on-disk store",D)],["data file bytes","from_data_store, from_store_configs, *_with_config"]))
add("C13","Base data is taken from the right place of the external replica",
 "A level-cache store or tree with an attached replica reads leaf j of the k-th tree from byte position offset[k] + j * element size of the replica, for every offset including ones beyond 4 GiB and not aligned to the element size, and never from elsewhere; this holds for single stores, compound trees with one or two layers, and after replacing the reader. If the replica is missing or too short for a read, that read is refused; a number of offsets different from the number of configurations is refused.",
 ["inputs","configurations"],"all offsets, tree counts, orders of configurations, element sizes and read ranges",
 "Tests use one replica per tree or aligned consecutive offsets and only check that proofs validate.",
 A([S,L,M],[("ExternalReader::read, new_from_config, new_from_path",S),("new_from_disk_with_reader, set_external_reader",L),("from_store_configs_and_replica, from_sub_tree_store_configs_and_replica, set_external_reader_path",M)],[("offset","position of the tree's leaves in the replica",S)],["leaf reads and cached proofs"]))
add("C14","Every store behaves as a bounded array of elements",
 "A store holds a sequence of elements: after any sequence of writes at an index, slice copies and appends, reading positions below the length (one, a range, the last, into a buffer) returns the most recently written values, the length is one more than the highest position written, and positions at or beyond the length are refused. Writes beyond the capacity of a disk or memory-mapped store and slices that are not whole elements are refused without changing what can be read; releasing and re-establishing a memory map, or compacting a memory store, changes no value.",
 ["histories","inputs"],"all histories of store operations, capacities, positions, element sizes, for each store kind",
 "Tests use stores through tree building in one fixed order of writes; arbitrary histories and error cases are not covered.",
 A([V,D,MM,L,S],[("write_at, copy_from_slice, push, read_*, last, len, is_empty",V),("same",D),("same, compact, reinit",MM),("same, base region",L)],[("len","used slots",D),("store_size","capacity in bytes",D)],["the Store trait"]))
add("C15","Tree geometry arithmetic is exact for every size",
 "For every arity b = 2^s (s >= 1) and leaf count n = b^k up to the machine word, the reported node count is the sum of the row widths, the row count is k+1, the leaf count of that node count is n again, the cache size for r discarded rows is the node count minus the leaves and the r rows above them, the proof length is 2 + (b-1) * k, and the default number of discarded rows leaves at least the root cached and is at most 7 for arity 2, 5 for arity 4 and 2 otherwise. For compound trees the generic node count follows the composition of the layers. Shapes that are not a complete tree are reported as invalid: the validity query answers false for leaf counts that are no power of the arity, a node count that no tree of the arity has does not give a leaf count, arities that are not powers of two or exceed the leaf count are refused, and so is discarding every row above the leaves.",
 ["inputs"],"all leaf counts, arities, row numbers and lengths in the machine-word range",
 "Tests evaluate a dozen fixed values; a floating-point logarithm and shift loops are used over a range up to 2^63.",
 A([M,S],[("get_merkle_tree_len, get_merkle_tree_len_generic, get_merkle_tree_cache_size, get_merkle_tree_row_count, get_merkle_tree_leafs, get_merkle_proof_lemma_len, is_merkle_tree_size_valid, next_pow2, log2_pow2",M),("default_rows_to_discard",S)],(),["the public geometry functions"]))
add("C16","Impossible trees are refused, never built wrong",
 "Every constructor refuses, with an error or a panic but never with a tree or an endless loop, leaf counts below two, leaf counts that are not a power of the arity, arities that are not a power of two or below two, byte inputs that are not whole elements, complete-tree bytes or stores whose size does not match the leaf count, single-tree constructors used for compound shapes and the reverse, and iterators without a known size. A refusal leaves no incomplete or wrong data file behind that a later call with the same configuration would take for a tree, and loading a compound tree creates no file for a part that is missing.",
 ["inputs","configurations"],"all invalid combinations of constructor, arity, count, layers and input length",
 "Tests check two or three invalid inputs, not the constructor x defect matrix.",
 A([M,D,L],[("ensure! preconditions of the constructors",M),("is_merkle_tree_size_valid",M)],(),["constructors of MerkleTree"]))
add("C17","Iterating over a store yields each element exactly once, in order",
 "Iterating over a memory or disk store, from the front, from the back, alternating, or in parallel with any splitting of the range, yields exactly the stored elements, each once, in index order; reported lengths are exact at every point, and an exhausted iterator stays exhausted. The order and content of a collected parallel iteration do not depend on the splitting or the number of threads.",
 ["schedules","inputs","histories"],"all split trees, all interleavings of front and back steps, all lengths including zero",
 "No test drives the producers' split and double-ended stepping beyond what one rayon run happens to do.",
 A([S],[("impl_parallel_iter! producers and iterators",S)],[("current,end","remaining range",S)],["IntoParallelIterator for VecStore, DiskStore","Producer::split_at, into_iter, next, next_back"]))
add("C18","Hashing feeds exactly the specified bytes with domain separation",
 "Feeding a value to a hasher writes its canonical bytes: integers in native byte order and width, booleans as one byte, characters as four, byte arrays, byte vectors and strings as their bytes without length or terminator, tuples and slices as the concatenation of their parts, references as the value. The default leaf hash is the hash of byte 0x00 followed by the element and the default interior hash is that of byte 0x01 followed by the children in order, so that no leaf and interior input coincide.",
 ["inputs"],"all values of all supported types, all numbers of children",
 "Tests hash two or three values; the byte stream itself is never observed.",
 A([H,HI],[("Algorithm::leaf, node, multi_node, reset",H),("Hashable impls",HI)],(),["bytes received by a Hasher"]))
add("C19","Reads have no effect, ids are isolated, delete removes one file",
 "Reading from a tree or store and generating or validating proofs, any number of times and concurrently from several threads, changes neither the tree nor any file, and every reader gets the same answers as a single one. Operations on one id or directory never change the file, nodes or proofs of trees under another id or directory, and deleting a persisted store removes exactly its own data file, after which it can no longer be opened and can be built anew with other data.",
 ["histories","schedules"],"all interleavings of operations over several ids and directories, and all sets of concurrent readers",
 "Tests use one id per temporary directory and a single reading thread.",
 A([D,L,MM,M,S],[("read paths on &self with positioned reads",D),("StoreConfig::data_path",S),("delete",D)],[("files","data files by id",S)],["directory contents, tree observations"]))
add("C20","A failing input yields its own first error and no tree",
 "If the iterator that supplies the leaves yields an error, the construction returns that first error (it appears in the error's chain), does not consume items after it, does not panic and produces no tree, wherever in the sequence the error occurs and for every store, with or without a persistent configuration. A later construction with the same configuration and good input gives the correct tree.",
 ["fault_sequences","inputs"],"all positions of one or several errors in the input, all stores and sizes including ones beyond a write block",
 "Tests inject one error in one small tree without configuration.",
 A([M],[("populate_data, try_from_iter, try_from_iter_with_config",M)],(),["try_from_iter, try_from_iter_with_config"]))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
print(len(props))
