#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

R, B, S, E, C, F, Y, A = ("src/reader.rs", "src/builder.rs", "src/structs.rs", "src/entry_data.rs",
    "src/crc_reader.rs", "src/filesystem_entry.rs", "src/bytes.rs", "src/actix_web.rs")
HOOK = "Reader::verif_state() under --cfg zippity_verif: a text rendering of the complete internal reader state, used only to recognise states already visited"

prop("C01", "The archive is a well-formed ZIP of exactly the added entries",
 "For every sequence of accepted entries, the bytes read from start to end form a well-formed Zip64 archive: every signature, length, offset, count and version agrees with the others, whether the archive is followed from its central directory or streamed forward from its first local header, with no gaps or overlaps. It contains exactly the added entries, in insertion order, with byte-exact names and contents and the true CRC-32 and size of each content. File names are marked as UTF-8 everywhere they occur.",
 ["inputs"], "every list of entries: any count, any names (empty, multi-byte, up to 65535 bytes), any contents and sizes",
 "The tests parse archives with lenient readers (zip crate, unzip, python) that ignore most redundant fields, on a random sample of small entries.",
 [R, S, B], [("header serialisation", "src/reader.rs read_local_header/read_data_descriptor/read_cd_file_header/read_eocd"), ("record layouts", "src/structs.rs"), ("offsets", "src/builder.rs Builder::build")],
 observe=["AsyncRead for Reader"])
prop("C02", "Archive size is known exactly in advance",
 "After every add the builder's size, the size of the reader built from it, and the number of bytes the reader delivers until end of file are the same number, for every combination of entry names, sizes and metadata. Reading, seeking, cloning or failing never changes the announced size, and a reader never delivers bytes past it.",
 ["inputs", "histories"], "every list of entries (including sizes above 4 GiB and names up to 65535 bytes), every history of operations before the size is read",
 "Tests compare sizes for random small archives and two fixed large ones; they never look at intermediate adds, failed adds or at a reader that has been used.",
 [B, R], [("running total", "src/builder.rs Builder::add_entry, local_header_size, cd_header_size, eocd_size"), ("layout", "src/builder.rs Builder::build"), ("chunk sizes", "src/reader.rs Chunk::size")],
 state=[("total_size", "running archive size", "src/builder.rs Builder"), ("sizes", "layout of the archive", "src/reader.rs Sizes")], observe=["Builder::size", "Reader::size", "AsyncRead for Reader"])
prop("C03", "Output does not depend on how the caller sizes its reads",
 "Whatever sequence of buffer sizes the caller reads with, the concatenation of the delivered bytes is the same archive; the reported position advances by exactly the number of bytes delivered; zero bytes are delivered only at the end of the archive (or for a zero-sized buffer), and end of file stays end of file. Bytes already in the caller's buffer are never touched.",
 ["histories", "inputs"], "every sequence of read-buffer sizes, over every archive",
 "The proptests use one constant random read size per archive; mixed sizes, one-byte tails inside every record, and pre-filled buffers at every position are not sampled.",
 [R], [("staging buffer", "src/reader.rs read_from_staging/read_packed_struct/read_str"), ("chunk loop", "src/reader.rs ReadState::read")],
 state=[("staging_buffer/to_skip", "part of a record not yet delivered", "src/reader.rs ReadState"), ("current_chunk", "record cursor", "src/reader.rs ReadState")],
 observe=["AsyncRead for Reader", "Reader::tell"], hook=HOOK)
prop("C04", "Random access: after any seek the archive continues at that offset",
 "After any history of reads and seeks, a seek (from start, current position or end, through any of the seek methods) to a representable offset p makes the reported position p, and subsequent reads deliver exactly the archive's bytes from p on, or end of file if p is at or past the end. A seek to before the start is rejected with an invalid-input error and changes neither position nor subsequent output.",
 ["histories", "inputs"], "every offset 0..=size and beyond, from every reachable reader state, over archives with any mix of known and unknown CRCs, empty and non-empty entries",
 "The tests seek once or twice to random fractions of random archives, mostly from a fresh reader, never from states in which a record is half delivered or a rejected seek intervened.",
 [R, E, C], [("seek_from_start", "src/reader.rs ReadState::seek_from_start"), ("start_seek", "src/reader.rs AsyncSeek for Reader"), ("skip or seek in entry data", "src/reader.rs read_entry_data"), ("AsRefReader seek", "src/entry_data.rs")],
 state=[("to_skip", "distance from record start to target", "src/reader.rs ReadState"), ("position", "value of tell()", "src/reader.rs ReadState")],
 observe=["AsyncSeek for Reader", "Reader::seek_from_start_mut", "Reader::seek_from_start_pinned", "Reader::tell"], hook=HOOK)
prop("C05", "Slow or dribbling entry sources never change or stall the output",
 "However the entry sources answer - pending any number of times while being opened, read or positioned, or returning fewer bytes than asked - the archive delivered is identical, the reported position always equals the bytes delivered, and no end of file is signalled early. The reader reports 'pending' only when an entry source did so in that same call with the caller's waker, so a wake-up is never lost; it never polls a finished open, and never reads from a source whose repositioning has not completed.",
 ["schedules", "histories"], "every schedule of pending/short answers of the sources at every poll, combined with every sequence of reads and seeks of the caller",
 "The one lazy source in the tests alternates pending/ready on a fixed pattern and is only read sequentially.",
 [R, C, E], [("poll chaining", "src/reader.rs get_reader/get_crc/read_entry_data, zippity_ready!"), ("two-phase seek adapter", "src/crc_reader.rs CrcReader::seek")],
 state=[("pinned", "open future or open entry reader", "src/reader.rs ReaderPinned"), ("seek_in_progress", "seek started but not finished", "src/crc_reader.rs")],
 observe=["AsyncRead for Reader", "Reader::tell"], hook=HOOK)
prop("C06", "Source I/O errors are reported, and cost no bytes if retried",
 "An I/O error of an entry source - while opening, reading or positioning, at any point - is returned to the caller unchanged from that read call, which then delivers no bytes and leaves the reported position where it was; it never panics and never turns into end of file. If the caller simply reads again, or seeks and reads, and the source has recovered, the output continues with exactly the bytes that follow.",
 ["fault_sequences", "histories"], "every placement of any number of errors over the source calls, combined with pending answers, every sequence of reads and seeks",
 "No test injects an I/O error into a source at all.",
 [R, C], [("error propagation", "src/reader.rs zippity_ready!, get_reader, get_crc, read_entry_data"), ("seek adapter", "src/crc_reader.rs")],
 state=[("pinned", "open future or open entry reader", "src/reader.rs ReaderPinned")],
 observe=["AsyncRead for Reader"], hook=HOOK)
prop("C07", "Wrong declared sizes and CRCs are always caught by a full read",
 "When an archive is read from start to end and some entry of non-zero declared size has a source that delivers fewer or more bytes than declared, or content whose CRC-32 differs from the one supplied for it, reading fails with an error that names that entry: for the right size with a wrong CRC stating the expected and actual CRC, for a source that ends early stating the expected and actual size (if its CRC was supplied and differs, that may be reported instead). The error comes no later than the end of that entry's data, no byte beyond the declared size is ever delivered, and reading on keeps failing instead of completing the archive. An entry of declared size zero is never opened, but a supplied CRC other than that of empty data is reported. Entries whose declared size and CRC are right never cause such an error.",
 ["inputs", "histories"], "every declared/actual size pair, every supplied CRC, every position of the bad entry, every read size and every pending/short-read pattern",
 "Tests have one size mismatch (declared 100, actual 10), four fixed seek positions and one wrong CRC, each in a one-entry archive with a large read buffer.",
 [R, C], [("mismatch checks", "src/reader.rs read_entry_data, get_crc"), ("CRC accumulation", "src/crc_reader.rs")],
 state=[("chunk_processed_size", "bytes of this record produced so far", "src/reader.rs ReadState")],
 observe=["AsyncRead for Reader", "ReadError"])
prop("C08", "Known CRCs are correct, survive use, and are complete after a full read",
 "At any moment the list of known CRCs contains only entry names with the CRC-32 supplied for them or the true CRC-32 of their whole content - never a value from a partial or repositioned read - and never loses an entry once listed, whatever reads, seeks, clones and takes happen. After the archive has been read to its end once, every entry is listed. Building the same archive with these CRCs supplied yields the identical archive.",
 ["histories", "schedules"], "every history of reads, seeks, clones and takes, every pending/short pattern, every subset of CRCs supplied up front",
 "Tests look at the list after one full sequential read of a one-entry archive.",
 [R, C, B], [("crc caching", "src/reader.rs get_crc, read_entry_data, crc32s"), ("did_seek", "src/crc_reader.rs get_crc32"), ("BuilderEntry::crc32", "src/builder.rs")],
 state=[("crc32", "known CRC of an entry", "src/reader.rs ReaderEntry")],
 observe=["Reader::crc32s"], hook=HOOK)
prop("C09", "Entry data is touched only when needed, one entry at a time",
 "Building, sizing, seeking, cloning and taking open no entry; an empty entry is never opened; an entry whose CRC is known is opened only when bytes of its own data are being delivered, and is then positioned rather than read from its beginning. A sequential read of the whole archive opens each non-empty entry exactly once and reads it once; at no time is more than one entry reader open, and none stays open once the end of the archive has been delivered or after a seek.",
 ["histories", "schedules"], "every history of reads and seeks over archives with every subset of known CRCs, every pending/short pattern",
 "One test uses an entry that cannot be opened; how often and when entries are opened is otherwise unobserved.",
 [R, B, F], [("get_reader/pinned", "src/reader.rs"), ("skip-or-seek choice", "src/reader.rs read_entry_data"), ("chunk skipping", "src/reader.rs ReadState::read"), ("directory entries must not be opened", "src/filesystem_entry.rs get_reader")],
 state=[("pinned", "the single open entry", "src/reader.rs Reader")],
 observe=["EntryData::get_reader and the reader it yields"])
prop("C10", "Clones, taken readers and dummies are exact and independent",
 "At any point of any history, a clone of a reader and a reader taken out of a pinned one have the same size, the same position, the same known CRCs and the same remaining output as the original had; what a taken reader leaves behind is a fresh reader of a valid empty archive, which keeps no entry open. Readers do not influence each other: however their reads and seeks interleave, each delivers its own archive's bytes.",
 ["histories", "schedules"], "every reachable reader state as the moment of cloning/taking, every interleaving of operations on the two readers afterwards",
 "Tests clone or take a fresh or just-sought reader and only check lengths or sequential output afterwards.",
 [R, Y], [("take_pinned", "src/reader.rs Reader::take_pinned"), ("Clone", "src/reader.rs Clone for Reader"), ("new_empty_file", "src/reader.rs")],
 state=[("position", "only part of the read state carried over", "src/reader.rs ReadState")],
 observe=["Reader::clone", "Reader::take_pinned", "Reader::new_empty_file"], hook=HOOK)
prop("C11", "The builder accepts exactly the archives ZIP can represent",
 "Adding an entry succeeds exactly when its name is at most 65535 bytes, is not already present, and the resulting archive is no longer than 2^64-1 bytes; otherwise the error says which of these failed and carries the offending name. A rejected add leaves entries, their order, the size and the archive that will be built exactly as before, later adds still work, and building never panics or overflows.",
 ["histories", "inputs"], "every sequence of adds (accepted and rejected), names of every length around the limits, sizes of every magnitude up to 2^64-1",
 "Three fixed over-limit cases and one over-long name; nothing checks the builder after a rejection, or the exact acceptance boundary.",
 [B], [("add_entry", "src/builder.rs Builder::add_entry"), ("build", "src/builder.rs Builder::build")],
 state=[("entries", "ordered name map", "src/builder.rs Builder"), ("total_size", "running size", "src/builder.rs Builder")],
 observe=["Builder::add_entry", "Builder::size", "Builder::get_entries", "Builder::build"])
prop("C12", "File type and permissions in the archive follow the setters",
 "For every sequence of type and permission calls on an entry, the archive records the Unix mode of the last type chosen (regular file by default) with the permissions last set: the low nine bits given, or rw-r--r-- / r--r--r-- for read-write / read-only with execute bits added for directories, read-write by default; symlinks always have 0777. Copying from filesystem metadata is the same as setting its type, its nine permission bits and its modification time; other entries are unaffected.",
 ["histories", "inputs"], "every sequence of setter calls in any order, all 512 permission values and higher bits, all file types",
 "The tests check nine fixed setter combinations on a single-entry archive.",
 [B, R, S], [("setters", "src/builder.rs BuilderEntry"), ("get_external_attributes", "src/builder.rs")],
 state=[("file_type/permissions", "what will be recorded", "src/builder.rs BuilderEntry")],
 observe=["BuilderEntry setters", "central directory external attributes and creator system"])
prop("C13", "Adding a directory yields exactly its tree",
 "Recursively adding a directory produces one entry for every file, directory and symlink below it and nothing else: named by its path relative to the directory with '/' separators, prefixed by the normalised root name if one is given (plus one entry for the root itself), directory names ending in exactly one '/'. Each entry has the object's type, permissions and modification time; files carry their content, symlinks their target text without being followed, directories nothing. Something that is not a directory, or does not exist, is reported as such.",
 ["inputs"], "every directory tree shape with every mix of object kinds, every root name",
 "One fixed three-object tree checks content, and random trees of lower-case names without symlinks, modes or times check names only.",
 [F, B], [("add_directory_recursive", "src/filesystem_entry.rs"), ("make_entry_name", "src/filesystem_entry.rs"), ("FilesystemEntry", "src/filesystem_entry.rs")],
 observe=["Builder::add_directory_recursive", "Builder::add_filesystem_entry", "the archive read back"])
prop("C14", "HTTP responses serve exactly the requested range",
 "For every request the response's status, Content-Length, Content-Range and body agree: without a Range header the whole archive with 200; for a satisfiable byte range exactly those bytes, clamped to the archive, with 206 when it is only a part and 'bytes first-last/size'; for an unsatisfiable one 416 with 'bytes */size'; for an unparsable one 400. Type and Accept-Ranges headers are always set on served content, and the body never has more or fewer bytes than announced.",
 ["inputs", "schedules"], "every byte range (first-last, first-, -suffix) of an archive and every malformed header over a small alphabet; every position of the reader before it is turned into a response; every chunking of the body",
 "One range (0-5) of an empty archive is checked for headers; one client library reads random ranges.",
 [A, Y], [("respond_to", "src/actix_web.rs ActixWebAdapter"), ("Body", "src/actix_web.rs Body::poll_next")],
 state=[("remaining", "bytes still to send", "src/actix_web.rs Body")],
 observe=["actix_web::Responder for ActixWebAdapter", "MessageBody for the response body"])
prop("C15", "The bytes stream yields the rest of the archive, chunk by chunk",
 "From whatever position and state the reader has, the stream's chunks concatenate to exactly the archive's remaining bytes, no chunk is empty, the stream ends exactly once at the end and stays ended; source errors appear as stream errors after which polling resumes without loss; the inner reader's position always equals the bytes yielded, also after it is repositioned, taken out, or the stream is cloned. If the stream gives bounds for the number of chunks to come, they are true.",
 ["schedules", "histories", "fault_sequences"], "every pending/short/error pattern of the sources, every point at which the stream is cloned, unwrapped, or its reader repositioned",
 "One proptest concatenates the chunks of a fresh stream over in-memory data.",
 [Y, R], [("poll_next", "src/bytes.rs BytesStream"), ("Clone", "src/bytes.rs BytesStream")],
 state=[("buffer", "chunk under construction", "src/bytes.rs BytesStream")],
 observe=["Stream for BytesStream", "BytesStream::reader_ref/reader_mut/into_reader"])
prop("C16", "Nothing wraps or truncates beyond the 16- and 32-bit ZIP limits",
 "For archives with more than 65535 entries, entries above 4 GiB, entries starting above 4 GiB and archives up to 2^64-1 bytes, recorded counts, sizes and offsets are exact; reading at any offset - also far inside a huge entry or behind it - delivers exactly the right bytes; and reported positions are exact.",
 ["inputs", "histories"], "every entry size and offset around each power-of-two limit, every seek target around every record boundary",
 "Two tests read one 4 GiB archive and one 65537-entry archive sequentially and compare only total length.",
 [R, B, S, E], [("64-bit arithmetic", "src/reader.rs, src/builder.rs"), ("zip64 records", "src/structs.rs")],
 observe=["AsyncRead/AsyncSeek for Reader", "Reader::size", "Reader::tell"])
prop("C17", "Files changing under the archive are detected, not silently mis-zipped",
 "If a file that was added by path is then truncated, extended, deleted, made unreadable or replaced by a directory or another file before or while it is read, a full sequential read either fails with an error, or delivers a complete archive of exactly the announced size whose recorded sizes and CRCs match the contents it carries. A non-empty file that has another size from before its part of the archive is begun, or other content than a supplied CRC says, makes it fail. Symlink targets are those at the time of adding, and directories are never opened.",
 ["fault_sequences", "histories"], "every kind of change to every object of a small tree at every point between adding and the end of reading, every read size class",
 "No test changes a file after adding it.",
 [F, R], [("FilesystemEntry", "src/filesystem_entry.rs"), ("size check", "src/reader.rs read_entry_data")],
 state=[("entry_type", "size / target captured when added", "src/filesystem_entry.rs FilesystemEntry")],
 observe=["AsyncRead for Reader<FilesystemEntry>"])
prop("C18", "An aborted or finished response hands back its reader with nothing lost",
 "At whatever point a response with a hand-back channel ends - before its body is polled, between any two polls, while a source is pending, after an error, after completion, or when the request was refused - exactly one reader arrives on the channel. It describes the same archive, knows at least every CRC known or computed so far and only correct ones, stands at the byte after the last one taken from it, and can be reused to serve the whole archive; a dropped receiver does no harm.",
 ["crash_points", "schedules"], "every abort point of every response (full, ranged, refused) under every pending/error pattern of the sources",
 "One proptest drops an unpolled response and compares only the size.",
 [A, R], [("PinnedDrop for Inner", "src/actix_web.rs"), ("take_pinned", "src/reader.rs")],
 state=[("drop_channel", "where the reader is returned", "src/actix_web.rs Inner")],
 observe=["Reader::into_responder_with_channel receiver"])
prop("C19", "Memory use is independent of content size",
 "Building and reading an archive, skipping into it, or computing CRCs for a central directory needs working memory bounded by a constant plus the entry metadata (names), no matter how large the entries are or how far is skipped; nothing accumulates over repeated seeks and reads.",
 ["inputs", "histories"], "every combination of entry size class, starting offset class, read size class and known/unknown CRC",
 "Memory use is not measured by any test.",
 [R, Y], [("staging buffer / READ_SIZE scratch", "src/reader.rs get_read_buf"), ("chunk buffer", "src/bytes.rs")],
 state=[("staging_buffer", "scratch and staging space", "src/reader.rs ReadState")],
 observe=["heap use of the process while an archive is read"])
prop("C20", "Recorded modification times are what was set, or the ZIP epoch",
 "For every sequence of time-setting calls the archive records, in both local header and central directory, the fields of the last effective one with seconds rounded down to even; fields outside the years 1980-2107, months 1-12, days 1-31, hours 0-23, minutes and seconds 0-59 are rejected by the checked setters without changing the entry, while the '..._or_default' setters and entries never given a time record 1980-01-01 00:00:00. System times use the converter in force when the entry was added (none: treated as unrepresentable), any system time is handled without panicking, and setting it is equivalent to setting the converted fields.",
 ["histories", "inputs"], "every sequence of time setters, all field values at and around their limits, system times of every magnitude, time zones, converters set before/after adding",
 "Two years per setter on an untouched entry; the default value, repeated setters, and extreme system times are untested.",
 [B, S], [("datetime setters", "src/builder.rs BuilderEntry"), ("DosDatetime", "src/structs.rs"), ("system_timezone_converter", "src/builder.rs")],
 state=[("datetime", "what will be recorded", "src/builder.rs BuilderEntry"), ("time_converter", "converter captured at add time", "src/builder.rs")],
 observe=["BuilderEntry::datetime*", "DOS time fields in the archive"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
