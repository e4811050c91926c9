TECH = {
 "*": "stateless exhaustive model checking of the real code in lockstep with an independent reference model (bounded input/history enumeration)",
 "C19": "exhaustive exploration of all interleavings of operations sharing a cache, each compared with its run alone",
 "C28": "exhaustive exploration of all interleavings of operations, and of their moves between threads, under a controlled scheduler, each compared with its run alone",
 "C29": "exhaustive exploration of all sequences of settings up to a length, each object then run against the model with the last value of each setting",
 "C02": "exhaustive enumeration of all push partitions (call histories) on the real importer against a reference layout model",
 "C06": "exhaustive enumeration of rule-breaking block sequences (fault injection at every block) against a reference reader",
 "C07": "exhaustive enumeration of block contents (short byte strings, token strings, mutations at every position) with crash, hang and allocation monitors",
 "C08": "exhaustive enumeration of block contents (short byte strings, token strings, mutations at every position) with crash, hang and allocation monitors",
 "C25": "exhaustive fault injection at every link and block position against a reference error model",
}
COMMON = "Every execution runs the real code and its reference model in lockstep (the model is bound to the code on every trace explored). Holds within the bounds only; assumes quick-protobuf, libipld and std behave as documented."
NOTE = {
 "C01": "All contents shapes (sizes) x chunk sizes x branching factors up to the bound, each imported and read back by both visit and walk.",
 "C02": "All partitions of each content into pushes up to the bound, including empty pushes, compared block for block.",
 "C03": "All sizes x chunk sizes x branching factors up to the bound, compared byte for byte with an independently built canonical tree; defaults crossed at their boundaries.",
 "C04": "All file tree shapes up to the node bound, and all ranges start <= end over each, incl. 64-bit extremes.",
 "C05": "All file tree shapes up to the node bound x block type, CID variant, optional sizes, metadata.",
 "C06": "All combinations of rule violations at every block position of small trees, for visits, ranged visits and walks.",
 "C07": "All short byte strings, all token strings, all single mutations/truncations of a corpus of blocks at every step of visits and walks.",
 "C08": "All short byte strings, all token strings, all single mutations/truncations of a corpus of blocks at every step of resolve, lookup, parsing and data extraction.",
 "C09": "All trees of files, directories, shards, symlinks up to the node bound; all root names and link names of a small alphabet of adversarial names.",
 "C10": "All file shapes at all positions of small directory trees, walked and visited.",
 "C11": "Pending links compared with the outstanding set after every step of walks, visits and lookups over all trees up to the bound.",
 "C12": "All combinations of present/absent/extreme metadata on all entry kinds and orders of entries up to the bound.",
 "C13": "All sets of registrations over a path alphabet up to the bound, wrapped or not, all blocks compared byte for byte.",
 "C14": "All permutations of each registration set and all owned/borrowed iteration mixes up to the bound.",
 "C15": "All sequences of registrations over an alphabet of valid and invalid paths up to the bound, result and tree compared with a model after each.",
 "C16": "All trees up to the bound x every limit around every directory's size, and iteration continued after the error.",
 "C17": "All link lists up to the bound over names, duplicates, missing fields and CIDs x needles x node types.",
 "C18": "All trees of shards up to the bound x needles, x all shard property combinations.",
 "C19": "All interleavings of up to three operations sharing a cache, incl. failing and abandoned ones.",
 "C20": "All targets over an alphabet up to the length bound plus length boundaries x previous buffers; all encodings on reading.",
 "C21": "All combinations of present/absent fields x values at every varint width boundary.",
 "C22": "All permutations, duplications, paddings, unknown fields and truncations of a field alphabet, against an independent parser.",
 "C23": "All node shapes up to the bound x container types, slice identity included.",
 "C24": "All small hierarchies of entries, imported, built, walked and resolved end to end.",
 "C25": "Every fault kind at every link and block position of walks, visits, resolutions and lookups.",
 "C26": "All histories of metadata and entry registrations up to the bound, built, compared byte for byte and walked back.",
 "C27": "The bytes left allocated after every call, measured by the allocator, compared with a bound from the model's outstanding links and chunk, over long imports and reads and all trees of oversized blocks up to the bound.",
 "C28": "All interleavings of the steps of two and three operations of every kind on two new threads per execution, with moves between them at every point; thread safety of all public types by the compiler's own judgement.",
 "C29": "Every sequence of up to 3..6 settings (defaults, repetitions and copies among them) of importers, tree builders and file visits.",
}
