_T = "TLA+ (TLC): "
TECH = {
 "*": _T + "spec-generated histories run on the library, recorded executions validated against the specification",
 "C02": _T + "sequence specification: generated operation histories on every container validated as traces; slice-vector representation model-checked",
 "C08": _T + "lock-granularity model of the parallel build; graphs of builds under controlled thread schedules must be outcomes of the model",
 "C09": _T + "lock-level model of the concurrent builder model-checked; controlled schedules of the real builder validated as traces of the history specification",
 "C13": _T + "model of a buffered save with faults; recorded writer calls of the library under injected faults validated as its traces",
 "C14": _T + "model of crash points of a save; every prefix of recorded saves loaded and validated",
 "C16": _T + "integer-interval specification of distance, normalisation and quantisation evaluated on recorded calls",
 "C17": _T + "specification of text input and sharding; recorded parses and shard writes validated",
 "C20": _T + "byte-level decoder and encoder in TLA+ run on files of the library; files made by the specification read by the library",
}
TECH["C10"] = TECH["C11"] = TECH["C12"] = TECH["C09"]
NA = {}
NA["C21"] = "the Python module cannot be imported here: it binds through the cached cpython 0.6 crates, which need an interpreter older than the installed Python 3.12 (undefined symbol _PyUnicode_Ready), so no execution of it can be bound to a specification"
NA["C22"] = "a statistical statement about unnamed realistic data sets; a TLA+ model has no such data and no probability, and C05, C06 and C18 decide the search and linking rules that recall results from"
NA["C23"] = "undefined behaviour is not a property of observable states or traces: a specification bound through recorded behaviour cannot see it (C02 and C20 check misaligned, mapped and truncated buffers as far as results show)"
_S = "Bounded: every generated history is validated, sizes and counts are in the evidence file. "
NOTES = {p: _S for p in ("C%02d" % i for i in range(1, 24))}
NOTES.update({
 "C01": "Histories of save/load/resume/reorder of up to 18 elements compared set by set; crafted and built graphs up to 20000 nodes, 254 neighbours and 32-bit ids compared by digest. Bounded by the generated inputs.",
 "C02": "Histories generated by TLC over all seven containers, memory, borrowed and mapped, checked after every operation; the representation of offsets exhaustive on small values. Bounded by the generated histories.",
 "C08": "Graphs of 3-6 element builds must be among the outcomes of the model (thousands of schedules); invariants on builds of up to 80 elements with up to 8 workers. Schedules are sampled (random, PCT) on the real code, exhaustive on the model.",
 "C09": "Model exhaustive for small programs (3-4 threads); real schedules explored by bounded DFS, random and PCT policies and real threads.",
 "C13": "Faults at every byte position class of every generated save; model exhaustive on small buffers. Bounded by the generated images.",
 "C14": "Every prefix of every generated save (sampled for large ones), with and without truncation first.",
 "C16": "Distances compared in integer arithmetic to +-3e-4; vectors of 1-200 dimensions, all vector paths. Norms outside the range of f32 are not covered.",
 "C17": "Generated texts, dictionaries, directories, gzip members and shard counts; sharding exhaustive on small counts in the model.",
 "C20": "Whole files up to 16 kB, sampled windows of larger ones (131000 nodes), 13 files of an earlier build, layers of up to 130 nodes and 254 neighbours written by the specification.",
})
NOTES["C10"] = NOTES["C11"] = NOTES["C12"] = NOTES["C09"]
