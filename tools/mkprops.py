#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

OD = "src/object/database.rs"; LO = "src/object/database/loose.rs"; PK = "src/object/database/packed.rs"
IX = "src/object/database/packed/index.rs"; PF = "src/object/database/packed/pack.rs"; DL = "src/object/database/packed/delta.rs"
RD = "src/object/database/reader.rs"; OP = "src/object/parse.rs"; BF = "src/parse/buffer.rs"; PS = "src/parse/parser.rs"
TR = "src/object/tree.rs"; CM = "src/object/commit.rs"; TG = "src/object/tag.rs"; SG = "src/object/signature.rs"; OB = "src/object.rs"
RR = "src/reference.rs"; RDB = "src/reference/database.rs"; RP = "src/reference/parser.rs"; RS = "src/reference/symbolic.rs"; RDI = "src/reference/direct.rs"; RE = "src/repository.rs"; BL = "src/object/blob.rs"

p("C01", "Written objects read back byte for byte under their SHA-1 id",
  "Writing any byte string to the object database returns the SHA-1 of exactly those bytes, and reading that id afterwards returns exactly those bytes. Writing the same bytes again returns the same id and leaves the stored object readable and unchanged.",
  ["inputs", "histories"], "every byte string and every sequence of writes of it (bounded length in the checks)",
  "The round-trip test samples random strings of the same shape with one write each and never checks the id; two writes are only checked for the file time.",
  [LO, OD, OB], [("content hash", "object.rs Id::from_hash"), ("hex fan-out path", "loose.rs object_path_parts"), ("create_new + zlib", "loose.rs write_object")],
  ["ObjectDatabase::write_object", "ObjectDatabase::read_object"])
p("C02", "A write is all or nothing under crashes and I/O failures",
  "If writing an object is cut off at any point, or any file-system operation it makes fails, then afterwards the object is either absent or reads back complete: no reader ever sees a partial object. Success is reported only when the object is completely readable, and a later write of the same bytes that reports success leaves it completely readable whatever happened before. Other writers at the same time, of the same or of other objects, do not make a write fail.",
  ["crash_points", "fault_sequences", "histories"], "every crash point between file-system operations and every single failing or short operation, followed by a read and by a repeated write; another writer, in this or another process, at every call",
  "Tests never interrupt a write or make one fail; the write path is only run to completion.",
  [LO, OD], [("publication of the finished file", "loose.rs write_object")], ["ObjectDatabase::write_object result", "ObjectDatabase::parse_object / read_object after the crash"])
p("C03", "A loose object is accepted only with an exact header and length",
  "A loose object is returned only if its decompressed bytes are one of the four type names, a space, a decimal length, a NUL and then exactly that many bytes; type and body returned are exactly those. Anything else (unknown type, malformed or oversized length, missing NUL, too few or too many bytes) is an error.",
  ["inputs"], "every decompressed byte string up to the bound, in particular lengths that disagree with the body in either direction",
  "Tests check five literal headers and never a body whose length disagrees with the header.",
  [OP, BF, PS, RD, BL], [("header parse", "parse.rs Buffer::read_object_header, Parser::parse_object_header"), ("length check", "buffer.rs Buffer::read_to_end")], ["ObjectDatabase::parse_object", "Blob::data"])
p("C04", "Tree objects decode to exactly their entries",
  "A tree body that is a sequence of octal mode, space, file name, NUL and 20 id bytes decodes to exactly those entries, in order, with those modes, names and ids. A body that does not have this form (mode not octal digits or above 16 bits, missing separator, truncated id) is an error and never yields a partial tree.",
  ["inputs"], "every tree body up to the bound",
  "One literal two-entry tree is tested.", [TR, PS], [("entry loop", "tree.rs Tree::parse"), ("consume_until/advance", "parser.rs")], ["Tree::entries", "TreeEntry::{mode,filename,id}"])
p("C05", "Commit objects decode to exactly their fields",
  "A commit decodes to exactly the tree id, the parent ids in order, the author, committer, optional encoding and message that git's format assigns to its bytes, with other header lines skipped and the message starting right after the first empty line. A commit whose tree line, a parent line, author, committer or header/message separator is missing or malformed is an error.",
  ["inputs"], "every commit body within the bound: any number of parents in range, any extra headers, any message bytes",
  "One literal commit and one commit made by git are tested.", [CM, PS, SG], [("line-prefix parser", "commit.rs Commit::parse"), ("parse_hex_id_line / parse_prefix_line", "parser.rs")],
  ["Commit::{tree,parents,author,committer,encoding,message}"])
p("C06", "Tag objects decode to exactly their fields",
  "An annotated tag decodes to exactly the target id, target type, tag name, optional tagger and message that its bytes hold: the message is everything after the empty line that ends the headers. A tag whose object, type or tag line is missing or malformed, or whose type is not commit, tree, blob or tag, is an error.",
  ["inputs"], "every tag body within the bound", "One tag made by git is tested.", [TG, PS, OP], [("line-prefix parser", "tag.rs Tag::parse")], ["Tag::{object,kind,tag,tagger,message}"])
p("C07", "Author and committer lines split into the recorded name, e-mail and date",
  "For every identity line `NAME <EMAIL> TIMESTAMP ZONE` as git writes it (name and e-mail without angle brackets or newline, not starting or ending with white space or the punctuation git trims, any bytes otherwise, UTF-8 or not, digits included), the accessors return exactly NAME, EMAIL, TIMESTAMP and ZONE. Date and zone are absent exactly when the line does not have them; a line without an `<EMAIL>` part is an error.",
  ["inputs"], "every name and e-mail byte string within the bound, with and without date and zone",
  "Three literal ASCII identities are tested; none contains digits at the start or non-UTF-8 bytes.", [SG, CM, TG], [("identity pattern", "signature.rs Signature::regex")], ["Signature::{name,email,timestamp,timezone}"])
p("C08", "Object ids convert, compare and match prefixes consistently",
  "Converting an id to hex and back yields the same id; parsing hex accepts exactly 40 hex digits of either case (an even number of 4 to 40 for abbreviated ids) and gives the bytes they spell. Ids order as their bytes do, and an abbreviated id compares equal only to the full id with the same bytes, less than every id it is a proper prefix of, and otherwise as its bytes do, from both sides.",
  ["inputs"], "every id and every hex string up to 42 characters", "One list of seven ids and one abbreviation is tested.", [OB], [("hex conversion", "object.rs Id::from_hex, to_hex, ShortId::from_hex"), ("comparison", "object.rs ShortId::cmp_id, Id::cmp_short")],
  ["Id::{from_hex,to_hex,from_bytes,cmp,cmp_short}", "ShortId::{from_hex,to_hex,cmp_id}"])
p("C09", "The pack index maps every id to its own pack entry and no other",
  "For every well-formed index of version 1 or 2, reading an id that the index lists returns the object stored at the offset recorded for that id (31-bit or 64-bit), and an id it does not list is reported as not found. This holds for any number of entries, any first byte and any position in the table.",
  ["inputs", "configurations"], "every sorted table of up to the bounded number of ids, every offset encoding, every queried id",
  "Two literal three-entry tables are tested.", [IX, PK, PS], [("fan-out + binary search", "index.rs IndexFile::find_offset"), ("large offset table", "index.rs IndexFile::offsets")], ["ObjectDatabase::parse_object", "ReadObjectError::is_not_found"])
p("C10", "Whole objects in a pack are returned with exact type and content",
  "An object stored whole in a pack file is returned with exactly its recorded type and exactly its content, whatever its size, its compressed size and its position in the file, and equal to the same object stored loose. An entry whose recorded size does not match its data, does not fit the machine or whose type is unknown is an error.",
  ["inputs", "configurations"], "every type, content and size within the bound, data that compresses to fewer or to more bytes than its size, first/last entry",
  "One commit of one pack is read and only checked to parse.", [PF, BF, RD], [("entry header", "pack.rs read_pack_object_header"), ("inflate", "pack.rs find_chain, buffer.rs")], ["ObjectDatabase::parse_object", "ObjectDatabase::read_object"])
p("C11", "Applying a delta gives exactly what the delta encodes",
  "For every delta, the object returned is the concatenation of the base ranges and literal runs its instructions name, as git defines them, in order. A delta whose base size, result size, copy range, instruction or length is invalid is an error and never yields an object.",
  ["inputs"], "every instruction sequence within the bound over every base: all 127 copy encodings, size zero meaning 0x10000, reserved opcode, truncation",
  "No test applies a delta.", [DL, PF, BF], [("header varints", "delta.rs read_delta_header"), ("instruction decoder", "delta.rs read_command"), ("copy loop", "delta.rs apply_delta")], ["ObjectDatabase::parse_object"])
p("C12", "Delta chains resolve to the right object, independent of earlier reads",
  "An object stored as a chain of deltas (relative offset or base id) has the type of the chain's base and the content obtained by applying every delta in order from the base. The result does not depend on which objects were read before, and a chain that never reaches a base (self reference, cycle, offset outside the pack, unknown base id) is an error rather than a hang.",
  ["inputs", "histories"], "every chain shape up to the bounded depth, every order of reads, every distance encoding (1 to 3 bytes)",
  "The one packed object the tests read is only required to parse.", [PF, DL, IX], [("chain walk", "pack.rs find_chain"), ("distance decoding", "pack.rs read_delta_offset"), ("object cache", "pack.rs PackFile.cache")], ["ObjectDatabase::parse_object"],
  state=[("cache", "objects reconstructed so far, by entry offset", "pack.rs PackFile")])
p("C13", "Mismatched or malformed pack files and indexes are refused",
  "A pack or index with a wrong signature, an unsupported version, a non-monotonic or too long table, a truncated body, an object count or a pack checksum that differs between the pair, is refused with an error: no object is returned from it. A well-formed pair is accepted.",
  ["inputs", "configurations"], "every value of the header, version, count, fan-out and trailer fields", "Only well-formed tables are tested; the pack header checks are not tested.",
  [PK, PF, IX], [("index parse", "index.rs IndexFile::parse"), ("pack open", "pack.rs PackFile::open"), ("pair check", "packed.rs Entry::open")], ["ObjectDatabase::parse_object error"])
p("C14", "An object is found exactly when some store holds it",
  "Reading an id succeeds whenever any pack or the loose store holds that object, and is reported as not found exactly when none does. An object that is moved from the loose store into a new pack while it is being looked up is still found, and a pack added later is picked up.",
  ["configurations", "histories", "schedules"], "every combination of stores holding the object, every point in a lookup at which a repack moves it",
  "Tests have one pack or one loose object and nothing moves.", [OD, PK, LO], [("packed, then loose, then packed again", "database.rs read_object"), ("refresh", "packed.rs PackedObjectDatabase::refresh")], ["ObjectDatabase::parse_object", "ReadObjectError::is_not_found"],
  state=[("packs / last_refresh", "packs opened so far and when the folder was last listed", "packed.rs PackedObjectDatabase")])
p("C15", "Corrupt repository data never crashes, hangs or exhausts memory",
  "Whatever bytes a loose object, pack file, pack index or reference file contains, every read operation returns normally with a value or an error. It never panics or aborts, never loops forever, and never allocates memory out of proportion to the data present.",
  ["inputs"], "every content of each kind of file within the bound, in particular every value of every length, count and offset field", "One fuzz-style test covers reference files only.",
  [BF, PS, IX, PF, DL, OP, TR, CM, TG, SG, RP], [("checked arithmetic and slices", "throughout"), ("bounded reads", "buffer.rs fill_buf_to")], ["every public read operation"])
p("C16", "Short reads and interrupts are invisible; read errors are reported",
  "However the operating system splits reads, and however often it interrupts them, an object or reference reads the same as from undisturbed reads. Any other I/O error while reading is reported as an error: never as a missing, truncated or different object.",
  ["fault_sequences", "inputs"], "every split of each read, an interrupt at any read, an error at any read", "Buffer tests use a few fixed read sequences; nothing tests a whole read path under faults.",
  [BF, RD, LO, PF, RP, RDB], [("retry on Interrupted", "buffer.rs read_until, read_exact, read_to_end"), ("error mapping", "loose.rs read_object, object.rs ReadObjectError")], ["ObjectDatabase::parse_object", "ReferenceDatabase::reference"])
p("C17", "Reference files parse to the target they name",
  "A reference file `ref: NAME` is symbolic with exactly that name; one holding 40 hex digits is direct with exactly that id; `ID NAME` is symbolic with that name and peels to that id. Blank, comment and space-led lines before it and white space after it are ignored; anything else is an error.",
  ["inputs"], "every reference file within the bound", "Seven literal files; the randomized test only checks that nothing panics.", [RP, RR, RS, RDI], [("line parser", "parser.rs Parser::parse")], ["Reference::from_bytes, from_reader", "Reference::{target,name}", "Symbolic::data"])
p("C18", "Reference lookup stays inside the git directory",
  "Looking up a reference by any name, or following a symbolic reference with any content, only ever opens files inside the git directory. Names that would leave it (absolute, or with parent-directory parts) are rejected, and ordinary names open exactly the file of that name.",
  ["inputs"], "every reference name and symbolic target up to the bound", "Tests look up HEAD only.", [RDB, RS], [("path construction", "database.rs read_reference_file")], ["paths opened by ReferenceDatabase::reference, Reference::peel"])
p("C19", "Peeling a reference follows it to its object and always ends",
  "Peeling a reference returns the object that the chain of symbolic references starting at it finally names. A chain that dangles, ends in a missing object or never ends is reported as an error; it never hangs or overflows the stack.",
  ["inputs", "configurations"], "every chain and cycle of references up to the bound", "No test peels a reference.", [RS, RR, RDI, RDB], [("recursive peel", "symbolic.rs Symbolic::peel")], ["Reference::peel"])
p("C20", "Listing references returns every reference file exactly once",
  "Listing the branches, tags, remotes or all references returns exactly the names, relative to the git directory and in `/`-separated form, of the files at any depth under the respective folder, each once; folders that do not exist contribute nothing. Every name listed can be looked up, and an I/O error while listing is reported rather than dropped.",
  ["configurations", "fault_sequences"], "every directory layout up to the bound, an error at any listing step", "The one test that lists references only prints them.", [RDB], [("recursive listing", "database.rs get_file_paths_from_dir")], ["ReferenceDatabase::{reference_names,head_reference_names,tag_reference_names,remote_reference_names}"])
p("C21", "Concurrent readers get the same answers as a single reader",
  "Any number of threads reading objects through the same database at the same time each get exactly the result they would get alone. No interleaving deadlocks.",
  ["schedules"], "every interleaving within the preemption bound of two readers of the same pack, at system calls and lock operations", "All tests are single-threaded.", [PF, PK], [("file mutex", "pack.rs PackFile.file"), ("caches", "DashMap in pack.rs, packed.rs")], ["ObjectDatabase::parse_object from two threads"],
  state=[("file", "shared pack file handle with its seek position", "pack.rs PackFile")])
p("C22", "Reading never changes the repository",
  "Opening a repository and any read operation (objects, references, listings, peeling) never creates, modifies, renames, truncates or removes anything in the file system, on success and on every error path. Opening succeeds exactly when the path holds a `.git` directory.",
  ["inputs", "histories", "fault_sequences"], "every read operation of the other checks, with every input and fault within their bounds", "Tests do not compare the repository before and after.", [RE, OD, PK, LO, RDB], [("read-only opens", "fs_err::File::open throughout")], ["file-system operations issued"])
p("C23", "Operations give back the files and memory they take",
  "After an operation is done - a read of any object, a reference lookup, listing or peeling, a write; whether it succeeded or failed - the process has no more files open and no more memory allocated than after it did the same before, apart from what the database keeps for the packs it has opened. Doing the same again and again never uses more, and a database that is dropped gives back everything it held.",
  ["histories", "inputs", "fault_sequences", "schedules"], "every repetition of every operation within the bounds, with a failing call at any point, and two threads at once", "No test looks at open files or memory, and each does its operation once.",
  [OD, PK, PF, LO, RDB, RP], [("files closed by scope", "loose.rs read_object / write_object, database.rs read_reference_file"), ("packs kept once", "packed.rs PackedObjectDatabase::refresh"), ("object cache keyed by offset", "pack.rs PackFile.cache")], ["open descriptors and allocated bytes of the process after each operation"],
  state=[("packs", "packs opened, each once", "packed.rs PackedObjectDatabase"), ("cache", "delta bases already decoded", "pack.rs PackFile")])
p("C24", "Errors say what failed and why",
  "The error of a failed read names the id that was asked for, both through `id()` and in its message, is `is_not_found` exactly when no store holds that id and never `is_ambiguous` for a whole id. A reference that does not exist gives ReferenceNotFound, a malformed file InvalidReference, a reference to an object that cannot be read DereferencingFailed with that object's error; an I/O error is never reported as one of the others. Opening a path that holds no repository names that path. Short ids that are too short, too long or not hexadecimal are told apart.",
  ["inputs", "configurations", "fault_sequences"], "every id, name, path and cause of failure within the bounds", "Tests check the messages of four reference parse errors; no test looks at a read error.",
  [OB, OD, PK, LO, RR, RDB, RS, RDI, RE], [("error construction", "object.rs ReadObjectError, database.rs read_object"), ("reference errors", "reference.rs Error")], ["ReadObjectError::{id,is_not_found,is_ambiguous}, Display", "reference::Error", "OpenError", "ParseIdError"])

p("C25", "A write changes nothing but the object's own file",
  "Writing an object creates at most that object's file and the folder it lies in. No other file or folder is changed, replaced or removed, and none is left behind once the write has returned, whether it succeeded or failed and whether the object existed before. When a write is cut off, everything that was there is as it was, and what is left behind lies in the folder of objects.",
  ["inputs", "histories", "fault_sequences", "crash_points", "schedules"], "every content, prior state, failing call, crash point and interleaving of two writers within the bounds", "No test compares the repository before and after a write.",
  [LO, OD], [("temporary file renamed into place", "loose.rs write_object / create_temp_file"), ("removal on failure", "loose.rs write_object")], ["all files below the repository before and after ObjectDatabase::write_object"])
p("C26", "Readers and parsed objects are independent of what happens next",
  "A reader obtained for an object yields exactly the object's bytes and then its end, whatever the sizes of the reads, however many other readers are in use and in whatever order they are read, and whatever happens after it was obtained: other reads, a refresh, writes, the object's file or pack being removed or replaced, the database being closed. The same holds for every accessor of a parsed object and of its clones, however often it is called.",
  ["inputs", "histories", "schedules"], "every kind of storage, pattern of read sizes, order of two readers and event in between within the bounds", "Every test reads one object at once to its end.",
  [RD, LO, PF, OB, CM, TR, TG, "src/object/blob.rs"], [("own file handle or shared immutable bytes", "reader.rs ReaderKind"), ("ranges into owned data", "commit.rs, tree.rs, tag.rs")], ["ObjectDatabase::read_object, ObjectReader::reader", "accessors of Object, Commit, Tree, Tag, Blob"],
  state=[("reader", "position in a loose file or in a packed object", "reader.rs ObjectReader"), ("cache", "bytes shared by all readers of a packed object", "pack.rs PackFile")])
p("C27", "References are read fresh and whole while others change them",
  "Every lookup, peel and listing gives what the reference files hold at that time: an update, creation or deletion by another program is seen by the next call on the same database. A call made while references are replaced by renaming, as git does, gives the old or the new state of each and fails only as that state would; peeling gives an object that the references named at the moments they were read, also when that object was only just stored. A listing made meanwhile has every reference that nobody touched exactly once, and none twice.",
  ["histories", "schedules"], "every history of updates and every placement of other programs' changes between system calls within the bounds", "All tests read references that nobody changes.",
  [RDB, RR, RS, RDI, OD, PK], [("no cache of references", "database.rs read_reference_file"), ("walk", "database.rs get_file_paths_from_dir"), ("refresh before not found", "packed.rs refresh_and_read_object")], ["ReferenceDatabase::{head,reference,parse_reference,read_reference_file,reference_names,head_reference_names}", "Reference::peel"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
