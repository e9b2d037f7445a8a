#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=None)))

p("C01", "With enough memory the cache is a faithful key-value map",
  "For any sequence of set, add, replace, cas, append, prepend, get, delete and touch calls, through the C++ API or the C API, every result and every later read is exactly what a plain map from key to (value bytes, flags) would give, for arbitrary value bytes and every key of 1 to 250 bytes, as long as the live items fit in memory with room to spare, also after the cache object was moved. An operation on one key never changes another key. An item whose key is longer than 250 bytes or that does not fit into one page is refused and leaves the cache unchanged.",
  ["inputs", "histories", "programs"],
  "All operation sequences over colliding and non-colliding keys, all value contents and lengths from 0 to the page size, both API flavours.",
  "test_cache and the C API test run a handful of fixed sequences with a few short values; they never follow long mixed histories with boundary lengths, nor compare the whole contents with a model.",
  ["src/cachelot/cache.h", "src/cachelot/item.h", "src/cachelot/dict.h", "src/cachelot/hash_table.h", "src/cachelot/c_api.cpp"],
  [("dictionary lookup + in-place replace", "cache.h do_*, replace_item_at, insert_item_at"), ("item layout: header, key, value", "item.h")],
  ["return values of the C++ Cache API and of the C API, bytes of the items read back"],
  [("dictionary", "key to item", "cache.h Cache::m_dict")])
p("C02", "Under eviction reads are exact or a miss, and every lost item is reported",
  "With evictions enabled and memory exhausted in any pattern, a read returns either the exact current value and flags of the key or a miss; never a stale, truncated, mixed or foreign value, and a key that was lost stays lost until it is stored again. Each item that disappears without being deleted, replaced or expired is reported exactly once to the eviction callback, with its key and value intact, and nothing else is ever reported. The total size of the live items never exceeds the configured memory limit.",
  ["inputs", "histories", "fault_sequences"],
  "All histories of all commands (including incr/append on items that are themselves eviction candidates) against small memories, all page sizes, hash table in any expansion state.",
  "The tests store random items into a full cache but only check that nothing crashes; no test compares contents with the eviction log.",
  ["src/cachelot/cache.h", "src/cachelot/memalloc-inl.h", "src/cachelot/dict.h", "src/cachelot/c_api.cpp"],
  [("page eviction with per-block notification", "memalloc-inl.h alloc_or_evict"), ("eviction removes the item from the dictionary then notifies", "cache.h create_item")],
  ["API results, eviction callback arguments"],
  [("live blocks", "blocks holding items", "memalloc-inl.h")])
p("C03", "With evictions disabled nothing is lost and a refused write changes nothing",
  "When evictions are disabled, an item that was stored stays readable with its exact value until it is deleted, overwritten or expires. A write that does not fit is refused with an out-of-memory error and leaves every key, including the one being written, exactly as it was. Deleting items makes their memory usable again: once everything is deleted the cache accepts as much as when it was new, however often this is repeated.",
  ["inputs", "histories", "configurations"],
  "All histories that fill, drain and refill memory with arbitrary sizes and commands, through the library and through the server started with the out-of-memory-error option.",
  "No test runs a cache to exhaustion with evictions disabled and then checks contents or refills it.",
  ["src/cachelot/cache.h", "src/cachelot/memalloc-inl.h", "src/server/memcached/proto_ascii.cpp", "src/server/main.cpp"],
  [("allocation without eviction, automatic release of the rejected item", "cache.h create_item, ItemAutoDelete"), ("coalescing of free blocks", "memalloc-inl.h merge_free")],
  ["API results, server replies, memory statistics"])
p("C04", "An item is readable for its whole lifetime and never after it",
  "An item stored or touched with a lifetime of n seconds is visible to every command until its last (whole-second clock granularity) second and to none once n seconds have passed, on a monotonic clock and regardless of wall clock jumps; lifetime 0 means it never expires. Once expired it behaves as absent for every command and never comes back. Append, prepend, incr and decr keep the remaining lifetime of the item, touch replaces it, and flush_all removes nothing that has not expired.",
  ["schedules", "histories", "inputs"],
  "All clock advances between and inside operations, all lifetimes from 0 to the largest 32-bit value, all commands.",
  "The expiration test sleeps for real seconds on one item; it cannot place a clock tick inside an operation or jump years, nor combine expiry with every command.",
  ["src/cachelot/item.h", "src/cachelot/expiration_clock.h", "src/cachelot/cache.h"],
  [("expiration time checked on every lookup", "cache.h retrieve_item"), ("monotonic whole-second clock", "expiration_clock.h")],
  ["API results and server replies against the simulated clock"],
  [("expiration time", "absolute second of expiry or 'never'", "item.h m_expiration_time")])
p("C05", "Concurrent clients see one linearizable cache, including compare-and-swap",
  "For any interleaving of requests from any number of TCP, unix-socket and UDP clients, all replies are explained by executing the requests one at a time in some order that respects real time and the order on each connection. A cas succeeds exactly when the item it names was not modified, deleted, evicted or expired since the gets that produced its token, and no two versions of a key ever share a token. No update that was acknowledged is lost.",
  ["schedules", "histories", "inputs"],
  "All interleavings of deliveries, partial deliveries, replies under backpressure and clock ticks for several clients working on the same keys.",
  "server_test.py drives one client at a time over real sockets and cannot choose interleavings.",
  ["src/server/memcached/proto_ascii.cpp", "src/server/socket_stream.h", "src/cachelot/cache.h"],
  [("single threaded reactor, one request executed atomically", "server/main.cpp, socket_stream.h"), ("monotonic version stamp per stored item", "cache.h create_item, do_cas")],
  ["request and reply byte streams of all clients"],
  [("version stamp", "unique per stored version", "item.h m_timestamp")])
p("C06", "Each connection gets exactly its replies, in order, under any segmentation",
  "However the bytes of a connection are cut into segments, coalesced, delayed or back-pressured (partial writes, full send buffers), the server answers every request that expects a reply with exactly one well-formed reply, in request order, without lost, duplicated, interleaved or foreign bytes, and gives no reply to noreply requests that succeed. The replies do not depend on the segmentation.",
  ["schedules", "inputs", "fault_sequences"],
  "All segmentations of all request sequences including pipelining, values containing protocol text, requests and replies larger than the initial buffers, and any pattern of partial sends.",
  "The tests send one request per write and read one reply per request over loopback, so buffers never fill and requests never share or straddle a segment.",
  ["src/server/socket_stream.h", "src/server/io_buffer.h", "src/server/memcached/proto_ascii.cpp"],
  [("receive / handle / send loop with growing buffers", "socket_stream.h"), ("read and write savepoints", "io_buffer.h")],
  ["the byte stream sent by the server on each connection"],
  [("receive and send buffer positions", "unconsumed request bytes and unsent reply bytes", "io_buffer.h")])
p("C07", "The server always makes progress",
  "Whenever the server has received a complete request and the client accepts data, the reply is sent before the server goes idle, bytes that have arrived are read, and a pending connection is accepted, also after accept errors such as descriptor exhaustion or aborted connections. A slow, stalled or half-dead client never delays the others. The server neither spins nor exits on transient system call errors.",
  ["schedules", "fault_sequences"],
  "All schedules of readiness events, partial deliveries, backpressure and transient errors (EAGAIN, EINTR, EMFILE, ECONNABORTED), checked at every moment the server blocks.",
  "Tests do not inject errors and wait on real time; a stall only shows if a request is sent in just the wrong segmentation.",
  ["src/server/socket_stream.h", "src/server/socket_datagram.h", "src/server/main.cpp"],
  [("re-arming of receive, send and accept operations", "socket_stream.h async_receive_some, async_send_all, async_accept")],
  ["simulated socket state whenever the server waits for events"])
p("C08", "Malformed or hostile input is answered with an error and harms nobody",
  "Any byte sequence on a connection leads only to error replies or to closing that connection: the server keeps running, memory stays safe, and other connections and the stored data are unaffected. The connection itself, if left open, stays in step: each following valid request gets its own correct reply. In particular the data block of a refused storage request is never executed as commands, a data block that is not followed by the end of line is refused and changes nothing, and a line that is not a valid command is answered with one error line.",
  ["inputs", "schedules"],
  "All byte sequences: unknown commands, missing or non-numeric arguments, over-long keys, wrong data lengths, huge lengths, binary garbage, endless lines, mixed with valid traffic in any segmentation.",
  "Tests send well-formed traffic from their own client library and two or three malformed lines.",
  ["src/server/memcached/proto_ascii.cpp", "src/server/memcached/memcached.cpp", "src/server/io_buffer.h", "src/cachelot/string_conv.h"],
  [("error replies with rollback of buffers", "proto_ascii.cpp handle_received_data"), ("argument validation", "proto_ascii.cpp, memcached.h")],
  ["reply streams of the hostile and of the other connections, process liveness, sanitizer reports"])
p("C09", "A connection may die at any byte without half-applied or reordered requests",
  "If a client disconnects, resets or half-closes at any point, each of its requests is either applied completely or not at all, the applied ones form a prefix of what it sent, and a request whose last byte never arrived is never applied. All resources of the connection are released, the other connections continue undisturbed, and requests that arrived completely before an orderly close are still applied.",
  ["crash_points", "schedules"],
  "Disconnection at every byte boundary of requests and replies, orderly or by reset, with operations in flight on other connections.",
  "Tests close connections only when idle.",
  ["src/server/socket_stream.h", "src/server/memcached/proto_ascii.cpp"],
  [("request handled only when complete", "proto_ascii.cpp incomplete_request rollback"), ("shared ownership of the connection by pending operations", "socket_stream.h")],
  ["contents read back by other clients, open simulated descriptors at the end"])
p("C10", "UDP: each datagram gets its own complete reply, sent to its sender",
  "Each complete request datagram with a valid frame header that reaches the server is executed once and, unless noreply, answered with exactly one datagram to its sender, carrying its request id and the complete reply to that request only, provided the reply fits into a datagram. Loss, duplication, reordering and delay of datagrams, malformed or incomplete datagrams, a blocked socket and traffic of other clients never mix, suppress, duplicate or misdirect replies, nor affect other datagrams.",
  ["schedules", "fault_sequences", "inputs"],
  "All arrival orders, losses and duplications of datagrams from several senders up to the maximum UDP payload, blocked sends, malformed frames in between.",
  "Tests exercise UDP with single small requests from one client at a time.",
  ["src/server/socket_datagram.h", "src/server/memcached/conversation.h"],
  [("frame header echoed in front of the reply", "conversation.h handle_udp_frame_header"), ("one request per datagram", "socket_datagram.h async_receive")],
  ["datagrams sent by the server and their destinations"])
p("C11", "A failing memory allocation costs at most the request or connection it hits",
  "If any single or repeated allocation from the system fails, at start-up, while accepting, buffering, executing, replying or growing the hash table, the server neither crashes nor corrupts data: the affected request gets an error or its connection is closed, an affected write is applied completely or not at all, and everything stored before stays intact. Service returns to normal once allocations succeed again. The library API reports the failure as an error and stays usable.",
  ["fault_sequences", "histories"],
  "Allocation failure at every allocation point of every history, single, repeated and in bursts.",
  "No test injects allocation failures.",
  ["src/server/io_buffer.h", "src/server/socket_stream.h", "src/cachelot/dict.h", "src/cachelot/hash_table.h", "src/server/memcached/proto_ascii.cpp"],
  [("nothrow table allocation with fallback", "hash_table.h, dict.h begin_expand"), ("buffer growth reports errors", "io_buffer.h ensure_capacity")],
  ["replies, contents, process liveness"])
p("C12", "Eviction takes old items first and only as much as needed",
  "Items are evicted only when a store finds no room: never while memory suffices, and one store evicts items of at most one page. An item that was just stored under a new key, read or touched survives the next store (set, add, replace, cas) of another key even if that needs an eviction, so an item that is read after every store survives any number of stores.",
  ["histories", "inputs"],
  "All access patterns and item sizes, memories of 4 pages and more.",
  "Tests do not look at which items survive.",
  ["src/cachelot/memalloc-inl.h", "src/cachelot/cache.h", "src/cachelot/intrusive_list.h"],
  [("pages in least-recently-used order, touched on access", "memalloc-inl.h pages")],
  ["eviction callback and reads"])
p("C13", "The allocator hands out disjoint memory inside the arena and loses none",
  "For any sequence of alloc, evicting alloc, in-place realloc, free and touch calls, blocks in use never overlap each other, are aligned, lie within one page of the arena, are at least as large as requested, and keep their contents until freed, evicted or resized. A request larger than a page can hold is refused; a failed call changes nothing. Freed memory is reusable: after everything is freed the allocator serves a full set of page-sized requests again, and a request that fits comfortably into a completely free page never fails.",
  ["histories", "inputs"],
  "All call sequences and sizes from 1 byte to beyond a page, several page sizes, arenas from 4 pages to more than 4 gigabytes.",
  "test_memalloc uses random sizes without checking overlap of all live blocks, and its arena is small.",
  ["src/cachelot/memalloc.h", "src/cachelot/memalloc-inl.h", "src/cachelot/bits.h"],
  [("adjacent block links, split and merge", "memalloc-inl.h block"), ("free blocks by size class", "memalloc-inl.h free_blocks_by_size")],
  ["pointers and contents seen by the caller, eviction notifications"])
p("C14", "Statistics tell the truth",
  "At any point of any history the statistics reported by the server and the library equal what happened: each command counter equals the number of such commands executed, hits plus misses (stored plus not stored) add up to it and each equals the number of such outcomes. The number of items equals the items present (expired ones may be counted until removed) and evictions equals the items evicted. The configured limits are reported as configured, and used memory is zero exactly when the cache is empty and never above the limit.",
  ["histories", "schedules"],
  "All histories of all commands and outcomes, multi-key gets, several clients, evictions, expiry and failed requests.",
  "Tests print statistics but do not compare them with a model.",
  ["src/cachelot/stats.h", "src/cachelot/cache.h", "src/cachelot/memalloc-inl.h", "src/server/memcached/proto_ascii.cpp"],
  [("counters bumped in each operation", "cache.h"), ("memory accounting on each alloc/free/evict", "memalloc-inl.h")],
  ["reply of the stats command, library counters"])
p("C15", "Hash table growth and collisions are invisible",
  "For any set of keys and any hash values (including zero, all equal or clustered ones) and any initial table size, lookups, updates, deletions, evictions and removal of expired items behave the same before, during and after the table grows. No item is lost, duplicated, resurrected or confused with another one.",
  ["inputs", "histories"],
  "All hash distributions and all interleavings of operations with an expansion in progress, tables from one slot upwards.",
  "test_dict fills a table with good hashes and checks after expansion; during an expansion with deletions and clustered hashes nothing is checked.",
  ["src/cachelot/dict.h", "src/cachelot/hash_table.h", "src/cachelot/cache.h"],
  [("two tables with incremental migration", "dict.h rehash_some, search_secondary"), ("robin hood probing with backward shift", "hash_table.h")],
  ["API results for keys with chosen hashes"],
  [("primary and secondary table", "items not yet migrated live in the secondary one", "dict.h")])
p("C16", "Counters: incr and decr are exact 64-bit saturating arithmetic",
  "For every stored decimal number from 0 to 2^64-1 and every delta, incr returns and stores the sum, saturating at 2^64-1, and decr the difference, saturating at 0, as decimal text; flags and lifetime of the item are kept and its cas token changes. On a missing key they report not found and create nothing; on a value that is not a 64-bit decimal number they report an error and change nothing. Concurrent increments are never lost.",
  ["inputs", "schedules", "histories"],
  "All numeric values and deltas, all digit counts, non-numeric values, full memory with eviction of the counter itself, concurrent clients, clock ticks.",
  "Tests increment a few small numbers.",
  ["src/cachelot/cache.h", "src/cachelot/string_conv.h", "src/server/memcached/proto_ascii.cpp", "src/cachelot/c_api.cpp"],
  [("parse, saturate, re-create item", "cache.h do_arithmetic"), ("integer conversion with overflow detection", "string_conv.h")],
  ["API results, replies, values and flags read back"])
p("C17", "Signals: statistics on demand at any time, clean exit on termination",
  "SIGTERM, SIGINT and SIGQUIT at any moment make the server exit with status 0 within bounded work, whatever connections and transfers are open and whatever signals came before. SIGUSR1, any number of times and at any moment, prints the current statistics and disturbs nothing.",
  ["schedules", "crash_points"],
  "A signal between any two events, in any state of any connection, in any sequence.",
  "Tests terminate the server once, when idle.",
  ["src/server/main.cpp", "src/cachelot/stats.cpp"],
  [("signal set waits in the reactor", "main.cpp")],
  ["exit status, standard output, replies around the signal"])
p("C18", "Every accepted configuration works as configured, every other is refused",
  "For any command line or library options the cache either refuses to start with an error message and a non-zero status, or runs with exactly the configured memory limit, page size, initial table size, eviction mode and enabled transports (TCP, UDP and unix socket, with their listening addresses, ports, path and access mode), and serves correctly, including memories beyond 4 gigabytes and the smallest permitted tables and pages. Zero, non-power-of-two and inconsistent sizes are refused.",
  ["configurations", "fault_sequences"],
  "All combinations of options and units, and failing system calls during start-up (socket, bind, listen).",
  "Tests start the server with one or two fixed configurations.",
  ["src/server/main.cpp", "src/cachelot/cache.h", "src/cachelot/memalloc-inl.h", "src/server/settings.h"],
  [("option validation", "main.cpp parse_cmdline, cache.h Create")],
  ["exit status, statistics, replies of a smoke workload"])
p("C19", "Integer to text conversion is exact for every value and width",
  "Converting any signed or unsigned integer of any supported width to text and back is the identity, and text that is not such a number is rejected.",
  ["inputs"], "All values of all widths.",
  "test_string_conv samples values.",
  ["src/cachelot/string_conv.h"], [("digit loops", "string_conv.h")], ["function results"])
p("C20", "The work of an operation does not grow with the cache",
  "With well distributed keys, get, set, add, replace, append, delete, touch and incr take amortised constant work, whatever the number of items and pages, in every state of the cache: growing table, fragmented or exhausted memory. Table growth is spread over many operations (beyond the initialisation of the new table no operation moves more than a bounded number of items), and an eviction costs in proportion to the items of the one page it evicts.",
  ["inputs", "histories", "configurations"], "All workloads with well distributed keys, all memory, page and table sizes, from empty to exhausted.",
  "Benchmarks print averages and judge nothing; tests use small caches.",
  ["src/cachelot/cache.h", "src/cachelot/dict.h", "src/cachelot/hash_table.h", "src/cachelot/memalloc-inl.h"], [("incremental rehash", "dict.h rehash_some"), ("robin hood probing gives up early", "hash_table.h entry_for"), ("free lists by size class with bit index", "memalloc-inl.h free_blocks_by_size"), ("page to evict", "memalloc-inl.h pages")], ["executed basic blocks of the library per call"])
p("C21", "The server can be started again however its predecessor ended",
  "After a server was killed, crashed or exited at any point, a new one with the same command line starts and serves on the same ports and the same unix socket path, whatever the predecessor left behind: its socket file or lingering connections. While another server is listening on the TCP port or the unix socket, or another kind of file is at that path, the new one refuses to start with an error message and takes away or changes nothing.",
  ["crash_points", "configurations", "fault_sequences"], "All remains of a predecessor (socket file, lingering connections), all transports, other servers and files in the way, failing system calls during start-up.",
  "Tests always start on fresh ports and never with remains of an earlier run.",
  ["src/server/main.cpp", "src/server/socket_stream.h"], [("address reuse", "socket_stream.h stream_server::start"), ("removal of the stale socket", "main.cpp")], ["exit status, listening sockets, files, replies of a smoke workload"])
p("C22", "The server's work is proportional to the traffic, however it is cut",
  "The total work of the server (instructions executed, bytes copied, scanned or cleared) is at most proportional to the number of bytes received and sent plus the number of reads and writes, whatever the clients send (long unterminated lines, large values, long pipelines, requests with thousands of keys, requests that are refused) and however it is segmented: the same request in ten thousand pieces, or a reply taken in small pieces, costs no more per byte than in one.",
  ["inputs", "schedules", "histories"], "All request streams without flush_all (which walks all items), all segmentations and receive windows, all earlier traffic of the connection.",
  "Tests send whole requests and measure nothing; a quadratic cost is invisible until a client is slow or hostile.",
  ["src/server/io_buffer.h", "src/server/socket_stream.h", "src/server/memcached/proto_ascii.cpp"], [("end of line search, compaction and growth", "io_buffer.h try_read_until, compact, capacity_advice"), ("pipelined requests", "socket_stream.h process_received"), ("argument parsing", "proto_ascii.cpp")], ["executed basic blocks and bytes moved by the server against bytes and system calls"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
