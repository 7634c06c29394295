//! The scenarios: what is simulated for each property.
pub mod abandon;
pub mod gen;
pub mod json;
pub mod memory;
pub mod params;
pub mod pipeline;
pub mod pool;
pub mod refjson;
pub mod rows;
pub mod schema;
#[cfg(cathlamet_sim_sql)]
pub mod sql;
pub mod volume;


pub struct Cx {
    pub property: &'static str,
    pub thorough: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Cx),
    /// violation classes (besides panic, crash and hang) that break this property
    pub owns: &'static [&'static str],
    pub runs_quick: u64,
    pub runs_thorough: u64,
    pub nontrivial: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

/// Thread-local state of a run must be gone before the next one starts.
pub fn with_cleanup(f: impl FnOnce()) {
    struct Clean;
    impl Drop for Clean {
        fn drop(&mut self) {
            cathlamet::storage::sim_hooks::set_device(None);
            async_std::fs::sim::reset();
        }
    }
    let _c = Clean;
    async_std::fs::sim::reset();
    f();
}


const POOL_REAL: &[&str] = &[
    "storage::BufferPool (buffer_access, access_read_only/read_write/initialize, release_*, list bookkeeping)",
    "storage handles and their Drop",
    "memmap anonymous memory",
];
const POOL_STUB: &[&str] = &[
    "async_std::sync::{Mutex,RwLock,Condvar}: simulated, same semantics as async-std 1.9 (barging mutex, writer-preferring lock, notify/cancel hand-over), every operation a scheduling point",
    "block device behind VolumeManager::fetch/store (unimplemented in the code): simulated through sim_hooks",
    "executor and clock: simulated scheduler",
];
const POOL_ASSUME: &[&str] = &[
    "tasks hold one page at a time, except one task at a time that may hold several, so that waiting for each other in a circle is not the callers' fault",
    "at least one buffer is left for pages without unwritten changes, because write-back is not implemented",
];

#[cfg(cathlamet_sim_sql)]
const SQL_REAL: &[&str] = &[
    "sql::parser (generated parser and lexer), sql::ast",
    "sql::symbols::Name, sql::schema::{Database, Schema, RowSet}",
];
#[cfg(cathlamet_sim_sql)]
const SQL_STUB: &[&str] = &[
    "transport between clients and servers: simulated (pieces, stalls, repeated, swapped and damaged messages)",
    "the server around parser and catalogue (create_table is unimplemented in the code): simulated, one task per connection",
    "executor and clock: simulated scheduler",
];
#[cfg(cathlamet_sim_sql)]
const SQL_ASSUME: &[&str] = &[
    "identifiers are those of the SQL grammar (ASCII letters, digits, underscore)",
    "the two non-ASCII letters that fold to ASCII ones (U+017F, U+212A) do not occur in a damaged statement",
];

const VOL_REAL: &[&str] = &[
    "storage::VolumeManager::{create,next_volume}, init_file_header, VolumeParameters",
    "storage::BufferPool and handles (all metadata goes through the page cache)",
    "std::time::SystemTime and uuid down to their system calls",
];
const VOL_STUB: &[&str] = &[
    "async_std::fs: simulated file system with injected open / set_len errors, latency and rivals for the same path",
    "clock_gettime / getrandom: answered by the simulator (steps, any time of day)",
    "block device behind VolumeManager::fetch: new volumes read as zeroes",
    "async_std::sync and executor: simulated, every operation a scheduling point",
];
const VOL_ASSUME: &[&str] = &[
    "the cache's page size equals the volume's block size and it has a buffer for every metadata page, because write-back is not implemented",
    "the volume has room for its metadata (at least 16 blocks)",
    "the clock shows a time at or after the Unix epoch",
];

const JSON_REAL: &[&str] = &[
    "core::json::{encoder,decoder,tokenizer}",
    "core::data_source::IntermediateDataSource, core::types (and its type parser)",
];
const JSON_STUB: &[&str] = &[
    "output streams: simulated io::Write (short writes, interruptions, errors, full, stalls)",
    "transport between sender and receiver: simulated (fragments, damage)",
    "sending and receiving processes: tasks of the simulated scheduler; a receiver builds its own type and decoder",
];
const JSON_ASSUME: &[&str] = &[
    "labels within a type are unique; structs have at most 64 fields (the decoder's stated limit); numbers are finite",
    "bytes that are no longer UTF-8 are rejected by the receiver, because the decoder takes text",
];

const ROW_REAL: &[&str] = &[
    "core::nsm::PageFormat (all operations), core::marshaller::{Layout,Marshaller,MarshallerDataSource}, core::util",
    "core::types and its type parser, core::data_source::IntermediateDataSource",
    "storage::BufferPool and handles under every shared page",
];
const ROW_STUB: &[&str] = &[
    "block device behind VolumeManager::fetch: simulated (latency, damaged pages)",
    "write-back of changed pages: done by the simulated system, because the code has none",
    "processes, executor, clock, async_std::sync: simulated, every operation a scheduling point",
    "memory around damaged rows and pages: guard bytes and inaccessible pages",
];
const ROW_ASSUME: &[&str] = &[
    "row alignments are powers of two and divide the page size; structs and tuples have at least one member",
    "one task holds one page at a time; at least one buffer is left for pages without unwritten changes",
    "integer overflow panics, as in the build profile the tests use",
];

const SCHEMA_REAL: &[&str] = &[
    "core::types (type parser, Path, Type)",
    "core::data_source::IntermediateDataSource, core::marshaller (values found by name)",
];
const SCHEMA_STUB: &[&str] = &[
    "transport between processes: simulated (fragments, stalls, damage)",
    "processes: tasks of the simulated scheduler; one knows the type, the other only its text",
];
const SCHEMA_ASSUME: &[&str] = &[
    "texts that are no longer UTF-8 are rejected by the receiver, because the parser takes text",
    "labels are identifiers other than the words of the grammar; a name with several equal labels may mean any of them",
];

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: pool::run,
        owns: &["wrong-content", "lost-change", "aliasing", "dirty-aliasing", "torn", "unknown-location"],
        runs_quick: 250_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least two tasks had overlapping accesses or a page was loaded again after its buffer had been used for another page",
        real: POOL_REAL,
        stub: POOL_STUB,
        assumptions: POOL_ASSUME,
    },
    Prop {
        id: "C02",
        run: pool::run,
        owns: &["exclusivity", "changed-under-reader", "changed-under-writer", "readers-not-shared", "torn"],
        runs_quick: 250_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least two tasks had overlapping accesses or a page was loaded again after its buffer had been used for another page",
        real: POOL_REAL,
        stub: POOL_STUB,
        assumptions: POOL_ASSUME,
    },
    Prop {
        id: "C03",
        run: pool::run,
        owns: &["lost-change", "dirty-aliasing"],
        runs_quick: 250_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least two tasks had overlapping accesses or a page was loaded again after its buffer had been used for another page",
        real: POOL_REAL,
        stub: POOL_STUB,
        assumptions: POOL_ASSUME,
    },
    Prop {
        id: "C04",
        run: pool::run,
        owns: &["capacity", "aliasing", "dirty-aliasing"],
        runs_quick: 250_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least two tasks had overlapping accesses or a page was loaded again after its buffer had been used for another page",
        real: POOL_REAL,
        stub: POOL_STUB,
        assumptions: POOL_ASSUME,
    },
    Prop {
        id: "C05",
        run: pool::run,
        owns: &["stuck", "no-progress", "readers-not-shared"],
        runs_quick: 250_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least two tasks had overlapping accesses or a page was loaded again after its buffer had been used for another page",
        real: POOL_REAL,
        stub: POOL_STUB,
        assumptions: POOL_ASSUME,
    },
    Prop {
        id: "C06",
        run: pool::run,
        owns: pool::ALL_CLASSES,
        runs_quick: 250_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one page read failed and a later access to the same page was made",
        real: POOL_REAL,
        stub: POOL_STUB,
        assumptions: POOL_ASSUME,
    },
    Prop {
        id: "C07",
        run: pool::run,
        owns: pool::ALL_CLASSES,
        runs_quick: 250_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one pending access was abandoned and a later access was made",
        real: POOL_REAL,
        stub: POOL_STUB,
        assumptions: POOL_ASSUME,
    },
    Prop {
        id: "C08",
        run: volume::run,
        owns: &[volume::HEADER, volume::UUID, volume::ENTRY, volume::LAYOUT, volume::FREEMAP, volume::MIRROR, volume::STUCK],
        runs_quick: 80_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one volume was created and its metadata decoded",
        real: VOL_REAL,
        stub: VOL_STUB,
        assumptions: VOL_ASSUME,
    },
    Prop {
        id: "C09",
        run: volume::run,
        owns: &[volume::MIRROR, volume::LAYOUT, volume::STUCK],
        runs_quick: 80_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one volume was created and its mirror compared",
        real: VOL_REAL,
        stub: VOL_STUB,
        assumptions: VOL_ASSUME,
    },
    Prop {
        id: "C10",
        run: volume::run,
        owns: &[volume::EXISTING, volume::WINNERS, volume::STUCK],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "a creation met a file that existed before or was created by a rival",
        real: VOL_REAL,
        stub: VOL_STUB,
        assumptions: VOL_ASSUME,
    },
    Prop {
        id: "C11",
        run: volume::run,
        owns: &[volume::IDENT, volume::ERROR, volume::STUCK],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "several creations were attempted and at least one succeeded",
        real: VOL_REAL,
        stub: VOL_STUB,
        assumptions: VOL_ASSUME,
    },
    Prop {
        id: "C12",
        run: volume::run,
        owns: &[volume::TIME, volume::STUCK],
        runs_quick: 80_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one volume was created and its timestamps compared with the readings of the clock",
        real: VOL_REAL,
        stub: VOL_STUB,
        assumptions: VOL_ASSUME,
    },
    Prop {
        id: "C13",
        run: json::run,
        owns: &[json::INCOMPLETE, json::NOT_PREFIX, json::ERROR_LOST, json::SPURIOUS, json::STUCK],
        runs_quick: 400_000,
        runs_thorough: 10_000_000,
        nontrivial: "the stream of at least one document wrote short, was interrupted or failed",
        real: JSON_REAL,
        stub: JSON_STUB,
        assumptions: JSON_ASSUME,
    },
    Prop {
        id: "C14",
        run: json::run,
        owns: &[json::NOT_UTF8, json::NOT_JSON, json::WRONG_DOC, json::REJECTED, json::WRONG_VALUE, json::REENCODE, json::STUCK],
        runs_quick: 200_000,
        runs_thorough: 10_000_000,
        nontrivial: "at least one document arrived in more than one piece",
        real: JSON_REAL,
        stub: JSON_STUB,
        assumptions: JSON_ASSUME,
    },
    Prop {
        id: "C15",
        run: json::run,
        owns: &[json::ACCEPTED, json::MISREAD, json::POISONED, json::WRONG_VALUE, json::STUCK],
        runs_quick: 300_000,
        runs_thorough: 10_000_000,
        nontrivial: "at least one damaged document was rejected, or accepted with another value than the sender's",
        real: JSON_REAL,
        stub: JSON_STUB,
        assumptions: JSON_ASSUME,
    },
    Prop {
        id: "C16",
        run: rows::run,
        owns: &[rows::HISTORY, rows::UNSTABLE, rows::NEIGHBOUR, rows::STUCK, rows::NO_SUCH_ROW],
        runs_quick: 150_000,
        runs_thorough: 5_000_000,
        nontrivial: "at least two accesses to one page with rows overlapped in time",
        real: ROW_REAL,
        stub: ROW_STUB,
        assumptions: ROW_ASSUME,
    },
    Prop {
        id: "C17",
        run: rows::run,
        owns: &[rows::SPACE_REFUSED, rows::SPACE_DAMAGE, rows::SPACE_EXCESS, rows::SPACE_HISTORY],
        runs_quick: 150_000,
        runs_thorough: 5_000_000,
        nontrivial: "rows were added to at least one page and its free space was probed",
        real: ROW_REAL,
        stub: ROW_STUB,
        assumptions: ROW_ASSUME,
    },
    Prop {
        id: "C18",
        run: rows::run,
        owns: &[rows::SIZE, rows::VALUE, rows::NONDET, rows::ROW_LOST, rows::STUCK],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one row was read by a later process than the one that wrote it",
        real: ROW_REAL,
        stub: ROW_STUB,
        assumptions: ROW_ASSUME,
    },
    Prop {
        id: "C19",
        run: rows::run,
        owns: &[rows::OUTSIDE, rows::INVALID, rows::WROTE_OUTSIDE, rows::SHORT_DEST],
        runs_quick: 400_000,
        runs_thorough: 5_000_000,
        nontrivial: "an accessor stopped on a damaged row, or encoding stopped at a destination that is too small",
        real: ROW_REAL,
        stub: ROW_STUB,
        assumptions: ROW_ASSUME,
    },
    Prop {
        id: "C20",
        run: rows::run,
        owns: &[rows::OUTSIDE, rows::WROTE_OUTSIDE, rows::NEIGHBOUR],
        runs_quick: 400_000,
        runs_thorough: 5_000_000,
        nontrivial: "a row operation stopped on a damaged page",
        real: ROW_REAL,
        stub: ROW_STUB,
        assumptions: ROW_ASSUME,
    },
    Prop {
        id: "C29",
        run: abandon::run,
        owns: &[
            abandon::NEXT,
            abandon::REUSED,
            abandon::OTHERS,
            abandon::CAPACITY,
            abandon::UNCALLED,
            abandon::OPEN,
            abandon::STUCK,
            volume::HEADER,
            volume::UUID,
            volume::ENTRY,
            volume::LAYOUT,
            volume::FREEMAP,
            volume::MIRROR,
        ],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "a volume was created after another creation had been abandoned or had failed",
        real: VOL_REAL,
        stub: VOL_STUB,
        assumptions: VOL_ASSUME,
    },
    Prop {
        id: "C30",
        run: memory::run,
        owns: &[memory::GROWTH, memory::STUCK],
        runs_quick: 15_000,
        runs_thorough: 150_000,
        nontrivial: "the cache served at least a hundred times as many accesses as it has buffers",
        real: POOL_REAL,
        stub: &[
            "async_std::sync::{Mutex,RwLock,Condvar}, executor, clock and block device: simulated, as for C01; what they allocate themselves is bounded by the number of waiting tasks",
            "global allocator: the system's, with a count of the bytes held by the code under test",
        ],
        assumptions: POOL_ASSUME,
    },
    Prop {
        id: "C31",
        run: pool::run,
        owns: pool::ALL_CLASSES,
        runs_quick: 250_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one handle was dropped, or its release abandoned, and a later access was made",
        real: POOL_REAL,
        stub: POOL_STUB,
        assumptions: POOL_ASSUME,
    },
    Prop {
        id: "C32",
        run: params::run,
        owns: &[
            params::ACCEPTED,
            params::LEFT,
            params::TOUCHED,
            params::CACHE,
            params::SPENT,
            params::REFUSED,
            params::STUCK,
            abandon::OTHERS,
            volume::HEADER,
            volume::UUID,
            volume::ENTRY,
            volume::LAYOUT,
            volume::FREEMAP,
            volume::MIRROR,
        ],
        runs_quick: 90_000,
        runs_thorough: 3_000_000,
        nontrivial: "a volume was created after impossible parameters had been refused",
        real: VOL_REAL,
        stub: VOL_STUB,
        assumptions: &[
            "the cache has a buffer for every metadata page of the possible volumes, because write-back is not implemented",
            "the clock shows a time at or after the Unix epoch",
        ],
    },
    Prop {
        id: "C26",
        run: schema::run,
        owns: &[schema::REFUSED, schema::OTHER_TYPE, schema::ACCEPTED, schema::POISONED, schema::STUCK],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one damaged schema text was rejected, or spelled another type than the sender's",
        real: SCHEMA_REAL,
        stub: SCHEMA_STUB,
        assumptions: SCHEMA_ASSUME,
    },
    Prop {
        id: "C27",
        run: schema::run,
        owns: &[
            schema::REFUSED,
            schema::OTHER_TYPE,
            schema::NAME_REFUSED,
            schema::NAME_ACCEPTED,
            schema::OTHER_ELEMENT,
            schema::PREFIX,
            schema::STUCK,
        ],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one name was rejected",
        real: SCHEMA_REAL,
        stub: SCHEMA_STUB,
        assumptions: SCHEMA_ASSUME,
    },
    #[cfg(cathlamet_sim_sql)]
    Prop {
        id: "C23",
        run: sql::run,
        owns: &[sql::REFUSED, sql::OTHER_TREE, sql::ACCEPTED, sql::POISONED, sql::STUCK],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "at least one damaged statement was rejected, or spelled another tree than the sender's",
        real: SQL_REAL,
        stub: SQL_STUB,
        assumptions: SQL_ASSUME,
    },
    #[cfg(cathlamet_sim_sql)]
    Prop {
        id: "C24",
        run: sql::run,
        owns: &[sql::ILL_ACCEPTED, sql::WELL_REJECTED, sql::OTHER_COLUMNS, sql::PANICS, sql::MISFIT, sql::DEPENDS, sql::STUCK],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "a statement that does not fit the catalogue was refused, or rows of an accepted one were compared with its type",
        real: SQL_REAL,
        stub: SQL_STUB,
        assumptions: SQL_ASSUME,
    },
    #[cfg(cathlamet_sim_sql)]
    Prop {
        id: "C25",
        run: sql::run,
        owns: &[sql::TWICE, sql::LOST_NAME, sql::OTHER_OBJECT, sql::NAME_ORDER, sql::REFUSED, sql::STUCK],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "an object was looked up, or refused as known already, under another spelling of its name",
        real: SQL_REAL,
        stub: SQL_STUB,
        assumptions: SQL_ASSUME,
    },
    Prop {
        id: "C33",
        run: pipeline::run,
        owns: &[
            pipeline::NOT_IMPORTED,
            pipeline::IMPORTED_AS,
            pipeline::ROW_VALUE,
            pipeline::ROW_LOST,
            pipeline::NOT_EXPORTED,
            pipeline::EXPORTED_AS,
            pipeline::CUT,
            pipeline::ELEMENT,
            pipeline::STUCK,
        ],
        runs_quick: 60_000,
        runs_thorough: 3_000_000,
        nontrivial: "a later process exported a row that an earlier one had imported",
        real: &[
            "core::json (tokenizer, decoder, encoder), core::data_source, core::marshaller, core::nsm, core::types and its type parser",
            "storage::BufferPool and handles under every shared page",
        ],
        stub: &[
            "output streams and transport: simulated (short writes, interruptions, errors, full, stalls, damaged copies)",
            "block device and write-back of changed pages: simulated; processes restart with what was written",
            "processes, executor, clock, async_std::sync: simulated, every operation a scheduling point",
        ],
        assumptions: &[
            "labels within a type are unique identifiers; structs have at most 64 fields (the decoder's stated limit); numbers are finite",
            "one task holds one page at a time; at least one buffer is left for pages without unwritten changes",
        ],
    },
];
