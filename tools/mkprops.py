#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

p("C01", "A saved index reloads as exactly the same index",
  "Whatever index is written with write_index - by a builder, a borrowed, an owned, a reloaded or a reordered index, at any position of the output - reading it back (from bytes, from a memory-mapped file, or into a new builder) gives the same number of layers, the same layer lengths, the same neighbour set for every node of every layer, and the same answers to every search. Writing the reloaded index again and reloading it changes nothing. An index with more layers than the header has room for is refused with an error.",
  ["inputs", "histories"],
  "every layered graph (any node count, any neighbour count up to 254, any id gaps), every container it can come from and every way of reloading it, at any memory alignment",
  "The tests round-trip a few randomly built graphs (and 6 of them abort on this toolchain); node counts at multiples of 60, empty and full lists, large id gaps and mixed encodings are never enumerated.",
  ["src/index/io.rs", "src/slice_vector/set_vector.rs", "src/slice_vector/offsets.rs", "src/index/mod.rs"],
  [("header + per-layer sizes", "src/index/io.rs write_index/load_layers"),
   ("sorted delta + stream-vbyte encoding with raw fallback", "src/slice_vector/set_vector.rs set_encode/decode_into"),
   ("chunked 16-bit offset deltas", "src/slice_vector/offsets.rs")],
  [("layers", "neighbour lists of every layer", "src/index/mod.rs")],
  ["Index::write_index", "Granne::from_bytes", "Granne::from_file", "GranneBuilder::from_bytes", "Index::get_neighbors"])

p("C02", "Element collections are faithful sequences and survive saving",
  "A vector or sum-of-embeddings collection behaves as a sequence: pushing, extending, collecting, borrowing, cloning, converting to owned and permuting give exactly the sequence those operations mean, whether the collection is in memory, borrowed or memory-mapped. Saving it and loading it (from bytes at any alignment or from a file) gives the same sequence, dimension and element contents - including the empty collection - and the number reported by a save is the number of bytes written.",
  ["inputs", "histories"],
  "every sequence of collection operations over every element content and dimension, for angular, angular_int and SumEmbeddings, over owned, borrowed and mapped storage",
  "The tests exercise single operations on a few random collections; mixed histories (mutating a memory-mapped collection, extending an empty one, arbitrary permutations, misaligned buffers, empty files) are not reached.",
  ["src/slice_vector/mod.rs", "src/elements/dense_vector.rs", "src/elements/embeddings/mod.rs", "src/io.rs"],
  [("copy-on-write storage (load / load_mut)", "src/slice_vector/mod.rs"), ("cycle-following permute", "src/slice_vector/mod.rs FixedWidthSliceVector::permute"),
   ("offset table of variable-width slices", "src/slice_vector/mod.rs VariableWidthSliceVector")],
  [("FixedWidthSliceVector / VariableWidthSliceVector", "the stored slices", "src/slice_vector/mod.rs")],
  ["Vectors::*", "SumEmbeddings::*", "Writeable::write", "Permutable::permute"])

p("C03", "Every built graph is well formed",
  "After any build - full, partial, incremental, resumed from a saved index, single- or multi-threaded - layer i contains exactly the first layer_len(i) elements with layer lengths never decreasing from top to bottom and the last equal to len(); every neighbour listed in a layer is the id of a node of that same layer, is not the node itself, and appears only once; and no node lists more than the configured number of neighbours.",
  ["inputs", "histories", "configurations"],
  "every build history, element content (including zero vectors and duplicates), and build configuration (neighbours, search width, layer multiplier, expected size, reinsertion)",
  "The tests check layer sizes or recall of a few builds; none checks the neighbour lists themselves over histories and configurations.",
  ["src/index/mod.rs"],
  [("self/duplicate check before linking", "src/index/mod.rs connect_nodes"), ("limit pass after each layer pass", "src/index/mod.rs index_elements/add_and_limit_neighbors")],
  [("layers", "neighbour lists", "src/index/mod.rs")],
  ["Index::get_neighbors", "Index::layer_len", "Index::num_layers"])

p("C04", "Incremental building indexes exactly the requested prefix",
  "build_partial(n) makes exactly the first n elements searchable and build() all of them, whatever sequence of push, build_partial, save, reload and resume came before; pushing alone never changes the index, layers above the bottom one are not changed by later building, and each layer grows to the size the configured multiplier and (expected) total prescribe. Interrupting a single-threaded build by saving and resuming from the saved file yields the same index as not interrupting it.",
  ["histories", "configurations"],
  "every history of push / build_partial / build / save / resume, for every multiplier, expected number of elements and element count",
  "Tests run a handful of fixed histories (one or two increments) and check only recall or the final sizes.",
  ["src/index/mod.rs"],
  [("layer growth loop", "src/index/mod.rs build_partial/index_elements_in_last_layer"), ("layer size formula", "src/index/mod.rs compute_num_elements_in_layer")],
  [("layers", "layer sizes and links", "src/index/mod.rs"), ("elements", "pushed elements", "src/index/mod.rs")],
  ["Builder::build_partial", "Builder::build", "GranneBuilder::push", "GranneBuilder::from_bytes", "Index::len"])

p("C05", "Search returns the best-first result: true distances, sorted, distinct",
  "search(q, max_search, k) returns at most min(k, max_search) distinct ids of indexed elements, in order of increasing distance, each with exactly its distance to q; an empty index gives an empty answer. The answer is the one of greedy best-first search: descend through the layers one closest node at a time starting from element 0, then explore the bottom layer keeping the max_search closest nodes seen until every unexplored candidate is farther than the worst kept one (equally distant nodes count in order of id). Searching changes nothing: asking again, or from several threads at once, gives the same answers.",
  ["inputs", "configurations"],
  "every layered graph, every distance function, every query, max_search and k",
  "Tests measure recall on random data with a threshold, which a search that loses or duplicates some candidates still passes.",
  ["src/index/mod.rs", "src/max_size_heap.rs"],
  [("best-first loop with bounded result heap", "src/index/mod.rs search_for_neighbors"), ("layer descent", "src/index/mod.rs find_entrypoint"), ("bounded heap", "src/max_size_heap.rs")],
  [], ["Granne::search"])

p("C06", "A search at least as wide as the index is exact over what is reachable",
  "When max_search is at least the number of indexed elements, search returns precisely the k closest among all elements reachable in the bottom layer from the entry node, and misses none. When in addition the index has no more elements than the neighbour limit, was built with a layer multiplier of at least 2, and none of its elements is a zero vector or a duplicate, every element is reachable, so the answer is the exact k nearest neighbours.",
  ["inputs", "histories"],
  "every graph and query (first part); every build of at most num_neighbors distinct non-zero elements (second part)",
  "Tests use max_search far below the index size and a recall threshold.",
  ["src/index/mod.rs"],
  [("best-first loop", "src/index/mod.rs search_for_neighbors"), ("linking", "src/index/mod.rs index_element/select_neighbors")],
  [], ["Granne::search", "Builder::build"])

p("C07", "Reordering is a layer-preserving relabelling that changes no answer",
  "reorder and reorder_by_keys return a permutation of the elements in which every element stays within the id range of the top-most layer it belongs to, and afterwards element i is the old element order[i], its neighbours in every layer are the relabelled old neighbours, and every search that still starts at the same element (always after reorder; after reorder_by_keys when the first element stays first) returns the relabelled old answer; reorder_by_keys places the elements of each range in key order. They work for every index (any number of layers including none or one, any container, in memory or memory-mapped, fully or partially built), and the reordered index can be saved and reloaded.",
  ["inputs", "configurations"],
  "every index, every key assignment, and every storage form of index and elements",
  "Tests compare 10 results for five elements of one large random index.",
  ["src/index/reorder.rs", "src/slice_vector/mod.rs", "src/elements/embeddings/mod.rs"],
  [("order computation", "src/index/reorder.rs compute_order/reorder_by_keys"), ("relabelling", "src/index/reorder.rs reorder_layer/get_reverse_mapping"), ("element permutation", "src/slice_vector/mod.rs permute; src/elements/embeddings/mod.rs permute")],
  [], ["Granne::reorder", "Granne::reorder_by_keys", "Index::get_neighbors", "Granne::get_element", "Granne::search"])

p("C08", "Parallel building is safe under every thread schedule",
  "However the worker threads of a multi-threaded build (or of a multi-threaded batch insert) interleave, the build finishes without failing or deadlocking, and the resulting graph is one that some interleaving of complete link updates produces: no update overwrites or duplicates another, no list contains its own node, a repeated id, or an id outside the layer, and every element that was to be indexed is.",
  ["schedules", "inputs"],
  "every interleaving of the workers' reads and link updates, for every element content and configuration",
  "The suite pins one worker because the build is racy; a plain multi-threaded run samples a few timings.",
  ["src/index/mod.rs", "src/index/rw/mod.rs"],
  [("per-node read/write locks", "src/index/mod.rs index_elements"), ("initialise-or-connect decision", "src/index/mod.rs index_element/initialize_node/connect_nodes")],
  [("layer[idx]", "neighbour list of a node, behind its own lock", "src/index/mod.rs")],
  ["GranneBuilder::build in a thread pool", "RwGranneBuilder::insert_batch", "Index::get_neighbors"])

p("C09", "Concurrent inserts get unique dense ids and never exceed capacity",
  "However inserts and batch inserts from several threads interleave, the ids handed out are distinct, increasing within a batch, and together exactly the range from the initial length up to the current length; the element stored under an id is the one whose insert was given that id; elements beyond the capacity are refused with no id while all earlier ones of the batch are accepted. The resulting layered graph has the same layer sizes as an offline build of that capacity and is well formed.",
  ["schedules", "histories"],
  "every interleaving of any number of insert and insert_batch calls (including batches that cross layer and capacity boundaries), starting from an empty, built or loaded index with any multiplier",
  "One test inserts in two threads and checks only that an id came back; batches are tested from one thread only.",
  ["src/index/rw/mod.rs"],
  [("element/layer write locks, downgraded to read", "src/index/rw/mod.rs insert_batch"), ("layer switch", "src/index/rw/mod.rs insert_batch")],
  [("elements, layers", "stored elements; current and previous layers", "src/index/rw/mod.rs RwGranneBuilder")],
  ["RwGranneBuilder::insert", "RwGranneBuilder::insert_batch", "RwGranneBuilder::get_element", "RwGranneBuilder::len"])

p("C10", "Searching while inserting returns only valid, already inserted elements",
  "A search running concurrently with inserts returns distinct ids of elements present no later than the end of the search, in order of increasing distance and each with its exact distance to the query; it is never empty once an insert has completed before it started. When no insert is in progress the answer is the same as that of an index built from the saved state.",
  ["schedules", "histories"],
  "every interleaving of searches with inserts, batch inserts and saves",
  "One test runs searches next to inserts and ignores their results.",
  ["src/index/rw/mod.rs", "src/index/mod.rs"],
  [("read locks on elements then layers", "src/index/rw/mod.rs search")],
  [("elements, layers", "stored elements; current and previous layers", "src/index/rw/mod.rs")],
  ["RwGranneBuilder::search"])

p("C11", "A save taken during inserts is a consistent, complete snapshot",
  "The index and element files written while inserts and searches run concurrently belong together: both contain the same elements, namely the first m of the insertion order for some m between the lengths at the start and at the end of the save, and the saved graph is one in which every one of these elements has been completely linked and nothing later is mentioned. Loading the pair gives a well-formed index that can be searched and resumed.",
  ["schedules", "histories"],
  "every interleaving of saves with inserts, batches crossing layers, and searches",
  "The only save-and-read test of the concurrent builder is commented out.",
  ["src/index/rw/mod.rs"],
  [("write_lock excludes inserts during a save", "src/index/rw/mod.rs write/insert_batch"), ("trimming the current layer to the element count", "src/index/rw/mod.rs write")],
  [("write_lock", "held shared by inserts, exclusively by saves", "src/index/rw/mod.rs")],
  ["RwGranneBuilder::write", "RwGranneBuilder::save_index_and_elements_to_disk", "Granne::from_bytes"])

p("C12", "No combination of concurrent operations deadlocks or fails",
  "Any set of concurrent insert, insert_batch, search, get_element, len and save calls terminates without panicking, whatever the interleaving - in particular a batch that spills into a new layer while a save or another insert is waiting, and also when the callers are tasks of a thread pool.",
  ["schedules", "histories"],
  "every interleaving of every finite set of concurrent operations, under a fair lock that blocks new readers behind waiting writers",
  "Deadlocks need a particular interleaving (a waiting save between two acquisitions); the tests never run a save concurrently with anything.",
  ["src/index/rw/mod.rs"],
  [("lock order write_lock, elements, layers", "src/index/rw/mod.rs"), ("recursive batch insert", "src/index/rw/mod.rs insert_batch")],
  [("write_lock, elements, layers", "the three locks", "src/index/rw/mod.rs")],
  ["RwGranneBuilder::*"])

p("C13", "A save that reports success has written everything",
  "If write_index, write_elements, write_embeddings or the concurrent builder's save returns Ok, every byte of the complete image has been accepted by the underlying writer, whatever the sequence of short writes, interruptions and errors it met; a write, seek or flush error is returned to the caller and never swallowed, and no error makes the operation panic.",
  ["fault_sequences", "inputs"],
  "every position and kind of I/O fault (error, short write, interruption, flush error) during every kind of save",
  "The tests write to temporary files and memory only; no write ever fails.",
  ["src/index/io.rs", "src/index/rw/mod.rs", "src/io.rs", "src/slice_vector/mod.rs", "src/elements/embeddings/parsing.rs"],
  [("BufWriter and final header write", "src/index/io.rs write_index"), ("BufWriter for elements", "src/index/rw/mod.rs write")],
  [], ["Index::write_index", "write_elements", "RwGranneBuilder::write"])

p("C14", "An interrupted save never loads as a different index",
  "If saving an index to a fresh or truncated file stops at any point - after any prefix of its writes, possibly cutting the last one short - loading the file either fails or yields exactly the complete index; it never yields a different graph.",
  ["crash_points", "inputs"],
  "every prefix of the write sequence and every cut of the last write, for every index",
  "No test interrupts a save.",
  ["src/index/io.rs"],
  [("header written last, over a gap", "src/index/io.rs write_index"), ("header check on load", "src/index/io.rs read_layer_sizes")],
  [], ["Index::write_index", "Granne::from_bytes"])

p("C15", "A sum-of-embeddings element is the sum of exactly its embeddings",
  "The terms stored for an element are the ids given on insertion, in order and with repetitions; its embedding is the coordinate-wise sum of those embeddings (zero for an element without terms), the same one create_embedding gives for the same ids, and its vector is that sum normalised. This holds after saving, loading from files, borrowing, permuting and cloning, and the reordering keys order elements by their terms of decreasing embedding norm.",
  ["inputs", "histories"],
  "every set of embeddings, every term list and every storage form",
  "Tests check permutation on one collection, and not the sums.",
  ["src/elements/embeddings/mod.rs", "src/elements/embeddings/reorder.rs", "src/math.rs", "src/odd_byte_int.rs"],
  [("summing", "src/elements/embeddings/mod.rs get_embedding_internal; src/math.rs sum_into_f32"), ("3-byte ids, 5-byte offsets", "src/odd_byte_int.rs")],
  [], ["SumEmbeddings::get_embedding", "create_embedding", "get_terms", "compute_keys_for_reordering"])

p("C16", "Distances are the angular distance, the same through every path",
  "The distance between two elements is one minus the cosine of their angle (within rounding), never negative, zero for parallel and two for opposite vectors and one when either is zero; conversion to 8-bit vectors maps each coordinate proportionally so that the largest magnitude becomes 127, and a zero vector to zeros. Every way of asking for the same distance - single, batched, to an element, symmetric, through a reference, slice or collection - gives the same value.",
  ["inputs", "configurations"],
  "every dimension (all remainders of the vectorised loops), every pair of vectors and every access path",
  "Tests use dimension 100 random vectors against a tolerance and only the direct path.",
  ["src/elements/angular.rs", "src/elements/angular_int.rs", "src/elements/mod.rs", "src/elements/dense_vector.rs", "src/math.rs"],
  [("chunked dot products", "src/math.rs"), ("default and specialised dist/dists", "src/elements/mod.rs; src/elements/dense_vector.rs"), ("quantisation", "src/elements/angular_int.rs quantize")],
  [], ["Dist::dist", "ElementContainer::dist", "dists", "dist_to_element"])

p("C17", "Text input becomes exactly the elements it describes, however sharded",
  "Parsing element files (single, directory of parts in name order, plain or gzip) yields one element per line holding the ids of its known words in order, unknown words dropped; writing shards splits them into consecutive files whose concatenation is the whole, for every shard count; and computing the dense vectors for such an element file yields one quantised sum vector per element, in order, with the counts reported to the caller matching.",
  ["inputs", "configurations"],
  "every word list, every set of input parts and lines, every shard count and element count",
  "Tests only check the shard file names.",
  ["src/elements/embeddings/parsing.rs", "src/slice_vector/mod.rs"],
  [("parallel part parsing and ordered concatenation", "src/elements/embeddings/parsing.rs"), ("write_range", "src/slice_vector/mod.rs")],
  [], ["parse_words", "parse_elements_and_save_to_disk", "parse_elements_and_save_shards_to_disk", "compute_embeddings_and_save_to_disk"])

p("C18", "Single-threaded construction is reproducible and follows the linking rule",
  "With one worker, the graph is a function of the elements, their distances and the configuration alone (30 neighbours, search width 200, multiplier 15 and reinsertion where nothing else is configured): building twice gives the same graph, as does feeding the elements in several build steps at the same layer boundaries. Each element is linked to the candidates a best-first search finds, thinned so that a candidate farther from the element than from an already chosen closer neighbour is dropped when the list would overflow, and linked back the same way; layers above the bottom use half the neighbour limit, and reinsertion repeats the linking in reverse order with half the search width.",
  ["inputs", "configurations"],
  "every set of elements with distinct distances, and every configuration",
  "Only the selection helper is tested, on one hand-made input; the rest is covered by recall thresholds.",
  ["src/index/mod.rs"],
  [("index_element", "src/index/mod.rs"), ("select_neighbors", "src/index/mod.rs"), ("connect_nodes/add_and_limit_neighbors", "src/index/mod.rs")],
  [("layers", "links", "src/index/mod.rs")],
  ["Builder::build", "Index::get_neighbors"])

p("C19", "Zero vectors and duplicates never break building or searching",
  "Any number of zero vectors and exact duplicates among the elements, in any positions, leaves building, inserting and searching total: every call completes, the graph stays well formed, a zero vector other than the first element links to nothing and is linked from nothing, and an element that coincides with more than half a neighbour list's worth of its chosen neighbours is left out of the graph while the others are linked as usual. Elements the rule does not exclude are linked exactly as the linking rule says.",
  ["inputs", "histories"],
  "every placement and number of zero vectors and duplicates, for every element type and configuration",
  "No test contains a zero vector and only random duplicates.",
  ["src/index/mod.rs", "src/elements/angular.rs", "src/elements/angular_int.rs"],
  [("zero check", "src/index/mod.rs index_element"), ("dead-node rule", "src/index/mod.rs index_element")],
  [], ["Builder::build", "RwGranneBuilder::insert", "Granne::search", "Index::get_neighbors"])

p("C20", "The file formats stay readable: today's bytes mean what they meant",
  "Index, vector and sum-embedding files written by the current version decode, byte for byte, according to the version-2 layout (1024-byte JSON header; per layer an offset table of 16-bit deltas in chunks of 60 and sorted, delta-coded neighbour ids; width-prefixed dense vectors; count-prefixed 5-byte offsets and 3-byte ids), independently of the code that wrote them. Files saved by earlier builds of this version load with the same contents.",
  ["inputs"],
  "every index and collection, against an independent decoder, plus stored files of earlier builds",
  "The tests read with the same code they write with, so a symmetric change of the format passes.",
  ["src/index/io.rs", "src/slice_vector/offsets.rs", "src/slice_vector/set_vector.rs", "src/slice_vector/mod.rs", "src/odd_byte_int.rs"],
  [("write_index/load_layers", "src/index/io.rs"), ("Chunk layout", "src/slice_vector/offsets.rs"), ("set encoding", "src/slice_vector/set_vector.rs")],
  [], ["bytes produced by write_index / write_elements", "from_bytes / from_file on stored files"])

p("C21", "The Python bindings expose the same index as the Rust API",
  "For every element type, a builder or index used through the Python module (append, build, partial build, save, load, search, get_neighbors, reorder, word and query helpers) gives the results the Rust library gives for the same calls, and invalid arguments raise Python exceptions rather than aborting the process.",
  ["inputs", "histories"],
  "every sequence of calls through the Python module",
  "There are no tests of the bindings.",
  ["py/src/lib.rs", "py/src/variants/index.rs", "py/src/variants/builder.rs", "py/src/embeddings.rs"],
  [("variant dispatch", "py/src/variants")], [], ["granne Python module"])

p("C22", "Recall stays high on realistic data",
  "With the default configuration, searching a large index of real embeddings with the documented search width finds nearly all true nearest neighbours.",
  ["inputs", "configurations"],
  "every realistic data set", "The tests bound recall on one kind of uniformly random data only.",
  ["src/index/mod.rs"], [("graph construction and search", "src/index/mod.rs")], [], ["Granne::search"])

p("C23", "Safe calls never cause undefined behaviour",
  "No sequence of calls to safe functions, with any buffer contents and alignment, reads or writes memory outside the objects involved or relies on misaligned or invalid references.",
  ["inputs", "histories"],
  "every byte buffer and call sequence", "Undefined behaviour need not show in a test's result.",
  ["src/io.rs", "src/slice_vector/mod.rs", "src/slice_vector/offsets.rs", "src/index/rw/rw_lock_slice_vector.rs"],
  [("load_bytes_as", "src/io.rs"), ("owning handle over node lists", "src/index/rw/rw_lock_slice_vector.rs")], [], ["from_bytes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
