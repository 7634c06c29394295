#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the committed file is its output)."""
import json, pathlib
S = "src/storage/mod.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
HOOK = "src/storage/sim_hooks.rs (cfg cathlamet_sim): window onto the private page cache / volume manager, and a redirect of the unimplemented device read"
SQLHOOK = "src/sql/sim_hooks.rs (cfg cathlamet_sim_sql): window onto the private modules of the SQL front end"
NOTEST = "No existing test touches the storage layer at all; "

prop("C01", "A page handle always shows its own page and nothing else",
 "Whenever the page cache grants a handle for a page, the bytes it shows are exactly that page's current content: what the device holds for it, with every change made earlier through write handles for the same page (a handle asked for with 'initialize' may instead show all zeroes if the page was not cached). Two different pages never share memory while in use, and bytes of one page never appear in another, whatever sequence of pages was cached in the same memory before.",
 ["schedules", "histories", "configurations"],
 "every number of buffers, page size, set of volumes and pages, mix of read / write / initialize accesses, device latency and task interleaving",
 NOTEST + "the fault needs a buffer that is reused for another page, or two tasks asking for one page at particular instants.",
 [S], [("page table from location to buffer, changed under one mutex", f"{S}: BufferPool::buffer_access"), ("fetch under the page's write lock before the first grant", f"{S}: access_read_only / access_read_write"), ("zero fill on initialize", f"{S}: access_initialize")],
 [("mapped_locations", "which buffer caches which page", f"{S}: BufferPoolMapping"), ("available_buffers", "clean buffers that may be reused", f"{S}: BufferPoolMapping")],
 ["bytes behind every handle at grant and before release"], HOOK)

prop("C02", "Readers of a page share it; a writer of a page has it alone",
 "While a write (or initialize) handle for a page is held, no other handle for that page is granted, and while read handles are held nobody can change the page, so a reader sees the same bytes from grant to release. Read handles for the same page can be held by any number of tasks at the same time, including the task that was the first to load the page.",
 ["schedules", "histories"],
 "every interleaving of tasks opening, holding and releasing read and write handles on overlapping pages, with page loads of any duration in between",
 NOTEST + "exclusion and sharing are statements about all interleavings.",
 [S], [("per-page reader/writer lock, handed out with the handle", f"{S}: BufferAccess.lock"), ("exclusive lock during load, downgraded for readers", f"{S}: access_read_only"), ("lock is recycled only after its last user has let go", f"{S}: release_read_only / release_read_write")],
 [("num_handles", "handles and waiters of a cached page", f"{S}: BufferAccess")],
 ["set of handles held per page at every instant", "page bytes re-read while a handle is held"], HOOK)

prop("C03", "Changes not yet written to storage survive buffer reuse",
 "A change made through a write handle is seen by every later access to that page for as long as it has not been written to storage, no matter which other pages are accessed in between or how scarce buffers are. In particular a changed page's memory is never given to another page, and the page is never re-read from the device or cleared on top of the unwritten change.",
 ["histories", "schedules", "configurations"],
 "every history of reads, writes and initialisations over more pages than there are buffers, under every interleaving",
 NOTEST + "the loss needs a write, the release of the last handle, cache pressure by other pages and a later access.",
 [S], [("changed buffers go to the dirty list, not to the list of reusable buffers", f"{S}: release_read_write / release_read_only"), ("re-access of a cached page", f"{S}: buffer_access")],
 [("dirty", "buffer holds changes the device does not have", f"{S}: Buffer"), ("dirty_buffers", "buffers with unwritten changes", f"{S}: BufferPoolMapping")],
 ["content of every page after quiescence, compared with the model"], HOOK)

prop("C04", "The page cache never loses the use of a buffer",
 "A page cache created with N buffers can at any later time hold handles for N - d different pages at once, where d is the number of pages whose changes are not yet written, whatever accesses and releases came before. Reading a page and releasing it costs no capacity, the same page is never cached twice, and opening and releasing never trips over the cache's own bookkeeping.",
 ["histories", "schedules", "configurations"],
 "every history of accesses and releases in every interleaving, for every number of buffers from one up",
 NOTEST + "leaks show only after long histories, and double use only when lists are corrupted by an earlier step.",
 [S], [("three doubly linked lists partition the buffers", f"{S}: BufferListHead::{{list_push_front,list_push_back,list_remove}}"), ("last handle moves the buffer back", f"{S}: release_read_only / release_read_write")],
 [("in_use_buffers / dirty_buffers / available_buffers", "partition of all buffers", f"{S}: BufferPoolMapping")],
 ["number of distinct pages that can be held at the end of the run"], HOOK)

prop("C05", "Every waiting page access is eventually served",
 "If every holder eventually releases its handles, then an access that waits (for a free buffer, for a page held by others, or for a page being loaded) is granted within a bounded number of scheduler steps, provided a buffer can become free for it. No wake-up is lost: there is no state in which a task waits although the page or buffer it needs is available and nobody else is going to act.",
 ["schedules", "histories", "configurations"],
 "every fair interleaving and every choice of which waiter a notification wakes, with more pages than buffers and several waiters per page",
 NOTEST + "lost wake-ups need two or more waiters and one particular order of release, wake-up and re-check.",
 [S], [("condition variable for free buffers, re-checked in a loop", f"{S}: buffer_access"), ("notification when a clean buffer is released", f"{S}: release_read_only")],
 [("buffer_available", "waiters for a buffer", f"{S}: BufferPool")],
 ["tasks still blocked when nothing can run any more"], HOOK)

prop("C06", "A failed page read never turns into wrong data or a dead cache",
 "If the device reports an error while a page is loaded, that access does not hand out a handle, and other pages keep their content and stay accessible. Later accesses to the same page try the device again and never show bytes that were not read from it, and the failure costs no buffer for good.",
 ["fault_sequences", "schedules", "histories"],
 "every placement of device read errors and short/delayed reads, with other tasks using the same and other pages meanwhile",
 NOTEST + "needs an injected device error at the moment other tasks wait for the same page.",
 [S], [("result of the device read is checked before the handle is built", f"{S}: access_read_only / access_read_write")],
 [("mapped_locations", "entry made before the read is known to succeed", f"{S}: BufferPoolMapping")],
 ["handles granted after a failed read", "capacity after a failed read"], HOOK)

prop("C07", "Abandoning a page access leaves no trace",
 "If a task gives up on a page access before it is granted (the pending future is dropped, as a timeout or select does), the cache behaves as if that access had never been asked for: other waiters are still woken, no page or buffer stays reserved, and no later access sees half-loaded content.",
 ["schedules", "fault_sequences", "histories"],
 "every instant at which a pending access can be dropped: waiting for the bookkeeping mutex, for a free buffer, for a page lock, or during the device read",
 NOTEST + "cancellation at every await point cannot be sampled by hand-written tests.",
 [S], [("state is only changed after the wait for a buffer is over", f"{S}: buffer_access")],
 [("num_handles", "counts waiters too", f"{S}: BufferAccess")],
 ["capacity and content after cancelled accesses"], HOOK)

prop("C08", "A new volume's metadata is complete, disjoint and exactly accounted",
 "Creating a volume produces a header that states the format, size, block size and file-table position asked for (default parameters mean the documented 4096-byte blocks and 1024-byte file entries) and carries a random (version 4) UUID that no other volume has, and a file table with the sixteen well-known entries, each complete, in its own slot, with the right name, size and block list, ended properly and with no leftover bytes. The blocks of header, file table, mirror and free map lie inside the volume and never overlap, and the free map marks as free exactly the blocks that exist and belong to none of them.",
 ["configurations", "schedules", "histories"],
 "every block size, file-header size and volume size, with cached pages previously used for other data and other tasks using the cache during creation",
 "No existing test creates a volume; the geometry is a three-dimensional configuration space and stale cache content only shows in unlucky histories.",
 [S, "src/storage/utils.rs"], [("layout arithmetic", f"{S}: VolumeManager::create"), ("entry writer", f"{S}: init_file_header"), ("bitmap masks", f"{S}: VolumeManager::create")],
 [("VolumeHeader / FileHeader / Extent", "on-disk structures", S)],
 ["metadata pages re-read through the cache and decoded by an independent parser"], HOOK)

prop("C09", "The file-table mirror is a faithful copy",
 "When a volume has been created, the mirror of its file table holds byte for byte what the primary file table holds, for every block of the table, and it occupies the blocks that the table's second entry names. Neither copy can be taken for the other: the two never share a block.",
 ["configurations", "schedules"],
 "every geometry in which the table spans one to many blocks, under every interleaving with other users of the cache",
 "No existing test creates a volume; tables longer than one block need unusual geometries.",
 [S], [("block-wise copy through the cache", f"{S}: VolumeManager::create")], (), ["mirror pages re-read through the cache"], HOOK)

prop("C10", "Creating a volume never harms a file that already exists",
 "If anything exists at the path, creation fails with an error and leaves that file's size and content untouched, even when the file appears at the last moment because another creator raced for the same path. Of any number of concurrent creators of one path at most one succeeds.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of competing creators and pre-existing files, with file-system calls that are slow or fail",
 "No existing test creates a volume; the race needs two creators between check and use.",
 [S], [("exclusive creation", f"{S}: VolumeManager::create (create_new)")], (), ["simulated file system: size and content of every path"], HOOK)

prop("C11", "Volume identifiers are unique and failures do not use up the manager",
 "Each successful creation yields an identifier no other volume of the same manager has; when identifiers are exhausted, creation returns an error and keeps doing so, without a crash. When opening or sizing the file fails, creation returns that error, and the next creation works as if the failed one had not happened. A creation that fails after it opened its file leaves no file behind.",
 ["fault_sequences", "histories"],
 "every sequence of successful and failing creations (permission, disk full, too many files, interrupted, existing path), up to and beyond the number of available identifiers",
 "No existing test creates a volume; needs injected file-system errors or more than 250 creations.",
 [S], [("identifier allocation", f"{S}: VolumeManager::next_volume"), ("error propagation before registration", f"{S}: VolumeManager::create")],
 [("next_volume", "next identifier", f"{S}: VolumeManager")], ["results of create"], HOOK)

prop("C12", "Volume creation works at any time of day and records that time",
 "Whatever the wall clock shows at or after the Unix epoch (any sub-second part, far-future dates, jumps forward or backward while creating), creation succeeds. Every well-known file entry then carries a creation and a modification time that the clock really showed during that creation, to the stored precision.",
 ["configurations", "fault_sequences", "schedules"],
 "every clock reading from 1970 to the 48-bit limit of the format, with clock steps in either direction between any two readings",
 "No existing test creates a volume, and tests cannot set the clock.",
 [S], [("timestamp encoding", f"{S}: init_file_header")], (), ["timestamps in the file table versus readings the simulated clock handed out"], HOOK)

J = ["src/core/json/encoder.rs"]
prop("C13", "JSON output is complete or the caller learns it is not",
 "When encoding a value to an output stream returns success, the stream has received exactly the document, even if it accepts only a few bytes at a time or is interrupted (neither of which is by itself a failure). When the stream fails, encoding returns an error (never success, never a crash) and what the stream received is an exact prefix of the document.",
 ["fault_sequences", "inputs"],
 "every pattern of short writes, interruptions and errors of the output stream, for values of every type with any text",
 "Existing tests write into memory, which never writes short and never fails.",
 J, [("write_all for every piece", "src/core/json/encoder.rs: emitters"), ("character writer", "src/core/json/encoder.rs: write_ch")], (), ["bytes the simulated stream accepted and the returned result"])

prop("C14", "A JSON document carries a value to another process unchanged",
 "For every type (structs of up to 64 fields) and every value of it (any Unicode text and labels, control characters, extreme finite numbers), the encoder writes valid UTF-8 and valid standard JSON, and decoding it in another process, after transport in pieces and over an output that writes short, yields exactly the same value. Encoding the decoded value again gives the same document.",
 ["inputs", "fault_sequences", "histories"],
 "every type up to the decoder's limits and every value, through output streams and transports that fragment at every byte boundary",
 "Existing tests encode a handful of ASCII values into memory and never feed encoder output to the decoder.",
 ["src/core/json/encoder.rs", "src/core/json/decoder.rs", "src/core/json/tokenizer.rs", "src/core/data_source.rs"],
 [("escaping and UTF-8 encoding", "src/core/json/encoder.rs: write_ch"), ("escape decoding", "src/core/json/tokenizer.rs: string_control_char"), ("typed decoding", "src/core/json/decoder.rs")], (), ["document bytes, decoded value"])

prop("C15", "A damaged JSON document is rejected or means what it says",
 "A document that arrives cut short, with flipped bits, or with pieces dropped, repeated or swapped, never crashes the decoder: it is either rejected with an error, or it is by itself a well-formed JSON document of that type (numbers may be quoted) and the decoded value is the one it spells out. A decoder that has rejected a document decodes the next good one correctly.",
 ["fault_sequences", "inputs", "histories"],
 "every truncation, bit flip, deletion, duplication and reordering of pieces of valid documents, in any sequence on one decoder",
 "Existing tests only decode a few well-formed documents.",
 ["src/core/json/decoder.rs", "src/core/json/tokenizer.rs"],
 [("token checks", "src/core/json/decoder.rs: must_be"), ("escape and number scanning", "src/core/json/tokenizer.rs"), ("field bookkeeping", "src/core/json/decoder.rs: BitSet")], (), ["result of decode against an independent reference decoder"])

N = ["src/core/nsm.rs", "src/core/marshaller.rs", S]
prop("C16", "Concurrent row edits on shared pages behave as if done one by one",
 "When several tasks append, insert, remove and read rows on shared pages through the page cache, every read and the final content of every page are those of some one-after-the-other order of the edits consistent with when they ran: rows keep their bytes and order, an insert or removal at a position shifts exactly the rows after it, no edit is lost, doubled or torn, and reading, removing or inserting at a position the page does not have (any more) is refused (with a panic) without changing it.",
 ["schedules", "histories", "inputs"],
 "every interleaving of row edits by several tasks, every row size including empty, every page size and row alignment, with cache pressure",
 "Existing tests edit one private array in one thread with a handful of fixed rows.",
 N, [("row offsets grow down, data grows up, shifted on insert/remove", "src/core/nsm.rs: insert_row / remove_row"), ("write handle exclusivity", f"{S}: access_read_write")], (), ["get_row / num_rows under read handles, compared with a list model"], HOOK)

prop("C17", "A page's advertised free space is always honest",
 "At every moment of a page's life, a row of at most the advertised size can be added and is then read back intact with all other rows unchanged; a row larger than advertised is refused (with a panic) without changing any byte of the page. When the advertised size is zero, an empty row either still fits intact or is refused without a trace. The space offered depends only on the rows present: a page filled, emptied and refilled by any tasks in any order offers the same as a new page holding the same rows.",
 ["histories", "schedules", "inputs"],
 "every history of edits that fills pages to the brim, on pages whose memory held other data before, in every interleaving",
 "Existing tests fill one 512-byte page once with one row size.",
 ["src/core/nsm.rs"], [("space computation", "src/core/nsm.rs: max_insert_row_size"), ("check before the change", "src/core/nsm.rs: append_row / insert_row")], (), ["page bytes before and after each edit"], HOOK)

prop("C18", "Rows written by one process are readable by the next",
 "A row encoded by one process is decoded to the same value, field by field, by a process started later that knows only the schema text, although process-level randomness, memory reuse and buffer contents differ. The size announced before encoding is the size written, and encoding the same value twice into differently dirty buffers gives rows that decode equally.",
 ["histories", "configurations", "inputs"],
 "every type and value, every prior content of the destination memory, every process random seed, with restarts between writing and reading",
 "Existing tests encode and decode in one process into zeroed memory with three types.",
 ["src/core/marshaller.rs", "src/core/types/mod.rs", "src/core/types/parser.lalrpop"],
 [("layout is a function of the type alone", "src/core/marshaller.rs: calculate_layout"), ("tag bits packed with read-modify-write", "src/core/marshaller.rs: encode_with_source")], (), ["decoded fields after restart"], HOOK)

prop("C19", "Reading a damaged or cut-off row never reaches outside it",
 "If stored row bytes have been flipped, torn or cut short, every field accessor either stops with a panic or returns a valid value taken from inside the bytes it was given: never bytes beyond them, never an invalid boolean or character or an enum case that does not exist. Encoding into a destination that is too small never writes beyond it and either stops or, if only padding is missing, leaves a row that reads back as the value.",
 ["fault_sequences", "inputs"],
 "every torn write, bit flip and truncation of stored rows of every type, and every destination size",
 "Existing tests only decode intact rows from buffers of exactly the right size.",
 ["src/core/marshaller.rs"], [("bounds of variable-size fields", "src/core/marshaller.rs: get_bytes / variable_field_offset"), ("copy into the row", "src/core/marshaller.rs: copy_bytes"), ("primitive reads", "src/core/marshaller.rs: get_primitive")], (), ["results with different memory around the same row; guard bytes around the destination"])

prop("C20", "A damaged page never lets row operations touch other memory",
 "If a page's stored bytes have been flipped or torn, every row operation on it (count, read, free space, append, insert, remove) either stops with a panic or completes, but never changes a byte outside the page and never returns or depends on bytes outside it; other pages in the cache keep their content.",
 ["fault_sequences", "inputs", "histories"],
 "every bit flip, torn write and stale content of page headers and offset tables, followed by any row operations",
 "Existing tests only operate on intact pages.",
 ["src/core/nsm.rs", "src/core/util.rs"], [("row shifting", "src/core/nsm.rs: insert_row / remove_row"), ("offset table access", "src/core/nsm.rs: get_row_offset / set_row_offset")], (), ["guard pages around the damaged page, neighbour pages in the cache"], HOOK)

prop("C29", "A volume creation that is abandoned or fails half-way disturbs nothing else",
 "If a volume creation is given up by its caller at any point (its future is dropped), or stops because a page of the new volume cannot be read, the process goes on: volumes created before stay complete, pages of other users of the same cache keep their content, further creations on other paths succeed with identifiers of their own and complete metadata, no buffer beyond those of the pages it touched is lost to the cache, and no file stays open once the volume manager has gone.",
 ["schedules", "fault_sequences", "histories"],
 "every instant at which a creation can be dropped or one of its page reads can fail, every number and order of such creations, and every interleaving with other users of the cache",
 NOTEST + "a creation has dozens of points at which it can be cut short, each holding other pages and locks.",
 [S], [("identifier and volume are registered together before the first page is touched", f"{S}: VolumeManager::create"),
       ("handles and pending accesses give their buffer back when dropped", f"{S}: PendingAccess, ReadOnlyBufferHandle, ReadWriteBufferHandle (Drop)")],
 [("buffer_pool / volumes", "cache shared by all volumes", f"{S}: VolumeManager")],
 ["other users' pages, later creations, capacity"], HOOK)

prop("C30", "The memory a page cache holds does not grow with the accesses it has served",
 "The memory a page cache holds beside its pages is bounded by its number of buffers and of simultaneous users: however many accesses are made, complete, fail or are abandoned, it does not grow any further once the cache has warmed up.",
 ["histories", "schedules", "fault_sequences"],
 "every history of accesses, however long, with failed reads and abandoned accesses in it",
 NOTEST + "a leak of one lock per access passes every short test.",
 [S], [("locks of idle buffers are reused", f"{S}: BufferPoolMapping::alloc_lock / dealloc_lock"),
       ("a reused buffer drops the mapping it had before", f"{S}: buffer_access")],
 [("read_write_locks / mapped_locations", "locks not in use; one entry per mapped buffer", f"{S}: BufferPoolMapping")],
 ["bytes held by the cache at rest"], HOOK)

prop("C31", "A page whose holder is cancelled or panics is given back",
 "If the holder of a page handle goes away without releasing it (it is cancelled, it unwinds from a panic, or its release is abandoned before completion and never repeated), the process goes on and the page is given back: waiters for the page and for buffers proceed, what had been written so far stays visible, and all buffers remain usable. A release that was abandoned can be repeated.",
 ["schedules", "histories", "fault_sequences"],
 "every instant at which a holder can go away, for readers and writers, with any number of waiters",
 NOTEST + "cancellation and unwinding at every await point cannot be sampled by hand-written tests.",
 [S], [("handles give their buffer back when dropped", f"{S}: ReadOnlyBufferHandle, ReadWriteBufferHandle (Drop)"),
       ("a release changes nothing before it has the mapping", f"{S}: release_read_only, release_read_write")],
 [("num_handles", "counts handles that were not released", f"{S}: BufferAccess")],
 ["capacity, content and progress after holders went away"], HOOK)

prop("C32", "A volume that cannot exist is refused without a trace",
 "Creating a volume with sizes that cannot give a valid one (the size is not a whole number of blocks, there are fewer than 16 blocks or more than 32 bits can number, no room for header, both file tables and allocation bitmap, blocks smaller than 512 bytes or larger than 256 KiB or different from the pages of the cache, file headers smaller than 512 bytes or larger than a block) never succeeds. It is refused without a trace: no file is created or changed, no identifier is used up, no page of the cache is loaded or overwritten, and creations before, between and after succeed and are valid.",
 ["inputs", "histories", "fault_sequences"],
 "all 64-bit sizes and 16-bit exponents, in any history of creations and next to any other users of the cache",
 NOTEST + "no test creates a volume with impossible sizes, and what a refused creation must not disturb is a matter of the whole history.",
 [S], [("sizes are validated before the file is created", f"{S}: VolumeParameters::within_limits, VolumeManager::create"),
       ("limits of the volume format", f"{S}: MIN_VOLUME_BLOCK_SIZE, MAX_VOLUME_BLOCK_SIZE, MIN_VOLUME_BLOCK_COUNT, MIN_LOG_FILE_HEADER_RECORD_SIZE")],
 [("next_volume / volumes", "volumes created so far", f"{S}: VolumeManager")],
 ["result of the creation, files, cache pages and later creations"], HOOK)

prop("C26", "A schema text means the same type everywhere, or is rejected",
 "The text of a type, however it is laid out (any blanks and line ends, an optional comma behind the last field or case), however it is cut into pieces on the way, is parsed by every process to the very type it spells: same structure, same labels, same order. A text that arrives damaged (cut short, flipped bits, pieces lost, repeated or swapped) never crashes the parser: it is either rejected with an error, or it is by itself the text of a type and that type is the result. A parser that has rejected a text parses the next one correctly.",
 ["inputs", "fault_sequences"],
 "every type, every layout of its text and every damage on the way",
 "Tests parse one text per type constructor and never a wrong one.",
 ["src/core/types/parser.lalrpop", "src/core/types/mod.rs"], [("the grammar of type descriptions", "src/core/types/parser.lalrpop"), ("lists are appended in order", "src/core/types/mod.rs: append")],
 [], ["type that a receiver builds from the text"], "transport between processes (text handed to TypeParser::parse)")

prop("C27", "A qualified name finds the element it names in every process, or nothing",
 "For every type and every element in it, the qualified name made of the labels (and, for tuples, the positions) that lead to it resolves, in any process that learnt the type from its text, to exactly that element: its own type is found there and so is its value, in memory and in a row. A name that leads nowhere, such as one that was damaged on the way, is rejected with an error, never resolved to another element and never a crash. One element is reported to contain another exactly if its path is the beginning of the other's.",
 ["inputs", "histories", "fault_sequences"],
 "every type, every element and every name",
 "Tests resolve four names of three types and no name that has to be rejected.",
 ["src/core/types/mod.rs", "src/core/data_source.rs"], [("names are resolved label by label", "src/core/types/mod.rs: Path::resolve_qualified_name"), ("elements by path", "src/core/types/mod.rs: Type::extract, Path::is_prefix_of, is_proper_prefix_of, Ord")],
 [], ["path, type and value found under a name"], "transport between processes (text handed to Path::resolve_qualified_name)")

prop("C33", "A value keeps its meaning from document to row to document",
 "A value that arrives as a JSON document (in any valid spelling) and is stored as a row on a page of the page cache is exported from that row, by the same task, another task or a later process that knows the type only by its text, as a JSON document that spells exactly that value, and every single element of the row asked for by its qualified name is the element of the document. The exported document can be imported and stored again, any number of times, whatever other documents were imported with the same decoder before (damaged ones included), whatever rows were stored or removed beside it, whether or not accesses were abandoned meanwhile; an output stream that fails is reported and leaves the row as it was.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every type within the decoder's stated limits, every value with finite numbers, every interleaving of imports and exports on shared pages and every sequence of restarts, stream faults and abandoned accesses",
 "Tests exercise the decoder, the marshaller, the row page and the encoder one at a time, each on data made by hand; none passes a value from one to the next.",
 ["src/core/json/decoder.rs", "src/core/json/encoder.rs", "src/core/marshaller.rs", "src/core/nsm.rs", "src/core/data_source.rs", S],
 [("decoded into a data source by path", "src/core/json/decoder.rs"), ("rows made from any data source, and data sources themselves", "src/core/marshaller.rs: Marshaller, MarshallerDataSource"), ("documents written from any data source", "src/core/json/encoder.rs"), ("rows on shared pages", "src/core/nsm.rs: PageFormat")],
 [], ["document written from the row", "values and elements read from the row"], HOOK)

# ---- properties this technique is not applied to
prop("C21", "Acknowledged data survives a crash",
 "Once a write or volume creation has been acknowledged as durable, the data is readable after any crash and restart.",
 ["crash_points", "histories"], "every crash point", "No durability code exists to test.",
 [S, "doc/storage.md"], [("write-back of dirty buffers (not implemented)", f"{S}: VolumeManager::store")])
prop("C22", "A created volume can be mounted again with identical content",
 "Mounting a volume file created earlier yields exactly the files and free map it was created with.",
 ["histories", "crash_points"], "every volume and restart", "Mounting is not implemented.",
 [S], [("mount (not implemented)", f"{S}: VolumeManager::mount")])
prop("C23", "A SQL statement is parsed to the tree it spells; a damaged one never to another",
 "A SQL statement of the supported grammar is accepted and parsed to exactly the tree its text spells: the kind of statement, every name in its spelling and place, every literal, every clause, operator precedence and associativity, whatever the spelling of keywords in upper and lower case, the blanks between the words, its length and depth within the limits of the stack. A statement that was cut, damaged, mixed up or extended in transit is rejected with an error, or, if the text is still a statement of the grammar, parsed to the tree that text spells. The parser never panics, and what it rejected or parsed before does not change what it makes of the next statement. ATTACH and DESCRIBE report the schema (none when the name has one part) and the table they name.",
 ["inputs", "fault_sequences", "histories"],
 "every statement, every fragmentation, reordering, repetition and damage of the stream of statements, every order in which several connections use one parser",
 "No test parses SQL beyond a few literals; the meaning of precedence, optional clauses and near-statements can only be settled over the whole grammar.",
 ["src/sql/parser.lalrpop", "src/sql/ast/mod.rs"], [("LALRPOP grammar and its actions", "src/sql/parser.lalrpop"), ("statement helpers", "src/sql/ast/mod.rs: AttachStatement::{schema_name,table_name}, DescribeStatement::{schema_name,table_name}")],
 [], ["tree of every accepted statement, and acceptance, of SqlStatementParser::parse"], SQLHOOK)
prop("C24", "SQL statements are typed consistently with the tables they use",
 "Type checking a statement against a catalogue accepts it when every name denotes one visible table or column and every operator, clause and assignment is given operands of the kinds it is defined for (arithmetic: numbers; ||, LIKE: strings; AND, OR, NOT, WHERE, HAVING, ON, CASE guards: logical; =, !=, IN, CASE, VALUES, set operations, INSERT, UPDATE: the same kinds and numbers on both sides; <, BETWEEN: kinds with an order; LIMIT, OFFSET: numbers that are never null; scalar subqueries and IN: one column), and rejects it when that is certainly not so (unknown or ambiguous names, a relation or common table expression defined twice, a column assigned twice, a missing or nullable value for a column that must not be null). The columns it infers for a query are those evaluation would produce, in number, order, name and kind, with distinct names: evaluated on any rows that fit the catalogue, an accepted statement never meets a value of the wrong kind, returns null only in columns inferred as nullable, and stores null only in columns that may be null. The verdict depends on the statement and the tables it names only, not on upper and lower case or layout, on other tables and schemata, on the order in which the catalogue was built, or on statements judged before or at the same time; and no statement makes type checking panic.",
 ["inputs", "histories", "fault_sequences"],
 "every catalogue and order in which it grows or is rebuilt, every statement, spelling, repetition and damage, every database content that fits the catalogue",
 "The typing pass has no tests; soundness quantifies over all statements, catalogues and rows.",
 ["src/sql/ast/typing.rs", "src/sql/types.rs"], [("typing pass", "src/sql/ast/typing.rs: SqlStatement::validate_type, infer_type"), ("ordered kinds", "src/sql/types.rs: DataType::is_ordered")],
 [("namespaces", "tables of the catalogue as the context of a statement sees them", "src/sql/ast/typing.rs: SetContext")], ["acceptance and inferred columns of every statement"], SQLHOOK)
prop("C25", "However its case is spelled, a name denotes the same schema or table",
 "Two spellings of a name that differ only in upper and lower case denote the same schema, and within it the same table; spellings that differ in anything else denote different ones. So creating a schema under another spelling of an existing name is refused as already defined, every lookup and DESCRIBE finds what was attached under any spelling and reports its columns, nothing is found that was never created, and the first spelling is kept. This holds whatever the order and repetition of requests, and after a restart that rebuilds the catalogue in any order. Equality and ordering of names, with each other and with plain strings, fit together (equal exactly when they differ only in case, antisymmetric, transitive).",
 ["histories", "fault_sequences", "inputs"],
 "every set of names, spelling, order, repetition and damage of requests from several connections, and restart",
 "No test covers names or the catalogue; a comparison that fails for some pair of names corrupts a sorted map only in a history that brings them together.",
 ["src/sql/symbols.rs", "src/sql/schema.rs"], [("comparison without regard to case", "src/sql/symbols.rs: Name"), ("catalogue", "src/sql/schema.rs: Database::{create_schema,describe}")],
 [("schemata / objects", "sorted maps keyed by name", "src/sql/schema.rs: Database, Schema")], ["results of create_schema, describe and lookups", "comparisons of names"], SQLHOOK)
prop("C28", "Requests are routed to a live node that owns the data",
 "The router and coordinator deliver each request exactly once to a node responsible for its key, despite lost, repeated or delayed messages and node failures.",
 ["schedules", "fault_sequences"], "every network behaviour", "The router and coordinator are empty programs.",
 ["src/bin/router.rs", "src/bin/coordinator.rs", "docs/index.md"], [("not implemented", "src/bin/router.rs")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
