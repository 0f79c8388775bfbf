"""Which scenarios decide which property, and how they are run.

A scenario `module_name` is `pub fn name()` of harness/scen/module.rs; its doc comment states what is symbolic and the
bounds. HEAVY scenarios are split over all cores; the others run side by side, one core each.
"""
import fnmatch

PROPERTIES = {
    "C01": ["write_round_trip", "write_parse_back", "write_two_objects", "write_id_shapes", "write_sizes", "write_history", "write_lost", "write_two_repositories", "write_large", "write_edge_sizes", "write_words", "write_places"],
    "C02": ["write_crash", "write_crash_twice", "write_faulty", "write_rewrite", "write_reader_during_write", "write_two_writers", "write_meanwhile"],
    "C03": ["loose_*"],
    "C04": ["tree_*"],
    "C05": ["commit_*"],
    "C06": ["tag_*"],
    "C07": ["sig_*"],
    "C08": ["ids_*"],
    "C09": ["index_*"],
    "C10": ["pack_*", "index_far_offsets", "index_apart"],
    "C11": ["delta_*"],
    "C12": ["chain_*", "index_apart"],
    "C13": ["pair_*"],
    "C14": ["stores_*"],
    "C15": ["corrupt_*"],
    "C16": ["faults_*"],
    "C17": ["refs_parse_*"],
    "C18": ["refs_names_*"],
    "C19": ["refs_peel_*"],
    "C20": ["refs_list_*"],
    "C21": ["threads_*"],
    "C22": ["readonly_*", "stores_*", "refs_*", "faults_error_*", "corrupt_*", "loose_*"],
    "C23": ["hold_*"],
    "C24": ["errs_*"],
    "C25": ["own_*"],
    "C26": ["stream_*"],
    "C27": ["fresh_*"],
}
HEAVY = ["index_first_byte"]
# seconds one scenario may take (quick, thorough); what is left then is reported as not explored
TIME = {"quick": 200, "thorough": 1500, "whole": 600}

def scenarios(prop, names):
    out = []
    for pat in PROPERTIES[prop]:
        out += [n for n in names if fnmatch.fnmatch(n, pat) and n not in out]
    return out

# checks that report only violations whose message carries their own tag
TAGGED_ONLY = {"C22"}

ASSUMPTIONS = [
    "The encoding is the LLVM IR rustc emits (release profile; debug assertions and overflow checks on for rusty-git) for rusty-git at /repo's current tree with its dependencies and std; LLVM's IR-to-machine-code step is outside.",
    "POSIX calls follow the executor's model: an in-memory file system with regular files, directories and symbolic links, descriptors, a clock that moves only when a scenario says so; mmap of files, signals and networking are outside.",
    "SHA-1 is executed as written on concrete bytes and treated as injective on the symbolic strings of one path; Adler-32 of compressed data is the constant 1 in the symbolic build (checksums of zlib streams are outside).",
    "Compression of written data uses stored blocks in the symbolic build; decompression runs the real inflate code.",
    "Hash maps use a constant hash (dashmap's ahash), so every pair of keys collides: lookups must not depend on the hash.",
    "Everything beyond the bounds stated per scenario is outside the claim.",
]

# what each check decides, for MANIFEST.json
NOTES = {
    "C01": "Decides that written bytes read back under their SHA-1: symbolic contents, contents chosen for every shape of id, sizes around the buffers, repeated and mixed writes.",
    "C02": "Decides what is in the store after a write that is cut off at any write or metadata call, that meets failing or partial calls, that is repeated, or that runs beside a reader or another writer (all interleavings at calls within the preemption bound).",
    "C03": "Decides which decompressed byte strings are accepted as a loose object: symbolic header bytes, kind words, length digits, sizes around every buffer boundary, truncation.",
    "C04": "Decides tree decoding against an independent reading: wholly symbolic bodies, symbolic modes, names and ids in fixtures, cuts at every byte, many entries.",
    "C05": "Decides commit decoding against an independent reading: symbolic bytes at every position of a commit with parents and other headers, pairs of neighbouring bytes, cuts, dropped, doubled and exchanged lines, symbolic messages, ids, encodings and other headers.",
    "C06": "Decides tag decoding against an independent reading: symbolic bytes at every position, symbolic names, types and messages, cuts, dropped, doubled and exchanged lines.",
    "C07": "Decides that identity lines built from symbolic names, e-mails, dates and zones come back as exactly those parts, in authors, committers and taggers, and that lines without <EMAIL> are refused. The regular expression automaton is executed, not modelled.",
    "C08": "Decides id conversion, parsing, ordering and prefix comparison against independent readings, with symbolic digits and bytes at every position.",
    "C09": "Decides that an id in a pack index is found at the recorded offset and any other id is not, for both index versions: symbolic ids asked for, symbolic ids stored, fan-out shapes, wide offsets, large tables.",
    "C10": "Decides that whole packed objects come back with the recorded type and content: symbolic bodies, size fields, type bits, wrong sizes, cut data, orders of reading.",
    "C11": "Decides delta application against an independent interpreter of git's format document: symbolic instruction bytes, all copy opcodes, symbolic operands, insertions of every length, wrong sizes, damage at every byte.",
    "C12": "Decides delta chains: bases by distance and by id in every mix, depths, symbolic distances, bases that are missing, foreign or lead back to the entry itself.",
    "C13": "Decides that a pack whose index belongs to another pack, or has another version or object count, is not read, while a matching pair is; symbolic checksums, counts, versions and signatures.",
    "C14": "Decides that an object is found exactly when some store holds it: every combination of stores, packs that appear, vanish or take over loose objects at every call of a lookup, refreshes after time passes.",
    "C15": "Decides that no file content makes a read panic, abort, hang, overflow the stack or allocate out of proportion: symbolic bytes in every kind of file, every length, count and offset field.",
    "C16": "Decides that reads split or interrupted anywhere give the undisturbed result, and that any other failing call is reported as an error that is not `not found`, never as a different value.",
    "C17": "Decides reference file parsing against an independent reading: symbolic bytes at every position, symbolic ids and names, white space, comments, through from_bytes, from_reader and the database.",
    "C18": "Decides that lookups by symbolic names and symbolic targets open only files inside the git directory, refuse names that leave it, and open exactly the named file otherwise.",
    "C19": "Decides that peeling follows every chain of symbolic references to the id it ends in, and reports loops and missing ends.",
    "C20": "Decides that listings hold exactly the files below each folder, in order and `/`-separated, for symbolic layouts, missing folders and failing calls.",
    "C21": "Decides that two or three readers of one database get the answers a single reader gets, at every interleaving of system calls within the preemption bound, and that none deadlocks.",
    "C22": "Decides that no read creates, changes, renames or removes anything: all read operations on complete, empty, damaged and littered repositories, in sequences, under faults, on two threads, and again in the scenarios of other properties; and that opening wants a .git directory.",
    "C23": "Decides that an operation done again, on the same or a new database, leaves no more open files and no more memory allocated than before: all read operations, objects of every kind, symbolic reference files, writes, with a failing call anywhere, and two threads; and that closing a database gives everything back.",
    "C24": "Decides what errors say: the id or path asked for, `not found` exactly when it is so, the kind of failure of reference lookups and peeling; for objects unreadable for 15 reasons with symbolic bytes and ids, under failing calls, and for malformed id texts.",
    "C25": "Decides which files a write changes: written once, again, after and beside others, to complete, littered and damaged repositories, with a failing call anywhere, cut off at any call, and by two threads at once.",
    "C26": "Decides that readers yield their object's bytes in reads of any sizes, in turns with another reader, on two threads, and after the database, its files and its packs changed or went; and that parsed objects and their clones stay what they were.",
    "C27": "Decides that lookups, peeling and listings give the state of the reference files at that time: over histories of updates, and with other programs' updates (and new objects, loose or packed) placed at any system call.",
}
NOT_APPLICABLE = {}
