#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in one place so that ids, statements and anchors stay in step).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/core/db.cpp";PC="src/core/http_parse_cache.cpp";HR="src/core/http_respond.cpp";H="src/core/http.cpp";RB="src/core/read_buffer.cpp";RBH="src/core/read_buffer.h";CN="src/core/connection.cpp";MO="src/core/http_parse_mon.cpp";HP="src/core/http_parse.cpp";ST="src/core/settings.cpp";HA="src/core/hash.cpp";KH="src/core/khash.h"

p("C01","GET returns exactly the bytes of the last completed PUT",
 "After a PUT of a value to /table/key has been answered 200, every later GET of that key - until the key or its table is deleted, replaced, expired or evicted - answers 200 with a Content-Length equal to the stored size and a body byte-for-byte equal to the value that was put; a GET of a key never stored, or deleted, answers 404. This holds for every value size from 1 byte, including values at and around the 4096-byte limit that separates block storage from single-file storage, and whatever other keys are put, replaced or deleted in between (an empty value is refused by design; a PUT that overlaps another PUT of the same key still in progress may be discarded).",
 ["inputs","histories"],"every value content and size in the bound, every short sequence of PUT/GET/DELETE over a few keys and tables",
 "The tests put a handful of fixed values; wrong block, offset or size arithmetic shows only for particular sizes and for particular orders of replacing, deleting and re-using blocks.",
 [D,PC,HR],[("write allocation block/single file","db_target_write_allocate"),("body storage","http_cache_handle_request_body"),("body streaming","http_respond_contentbody")],["response bytes on the client socket"],
 [("cache_entry.block/data_length","where the value lives and its size","db_structures.h")])
p("C02","Keys and tables with colliding hashes never answer for one another",
 "Two different keys in a table, or two different table names, are different objects even when their 32-bit hashes are equal: a GET, DELETE, listing or table DELETE naming one never returns, removes or alters the value stored under the other name. A lookup may miss (a collision may displace the older value), but it may never return another name's value.",
 ["inputs","histories"],"every pair of names, hash values being arbitrary (including equal), and short histories over them",
 "Colliding MurmurHash3 names practically never occur in tests; the exact-key comparison after the hash lookup is therefore never exercised.",
 [D,HA,PC],[("exact key check","db_entry_get_read / db_entry_get_write / db_entry_get_delete"),("exact table check","db_table_get_read / db_table_get_write")],["response bytes","contents of both keys afterwards"])
p("C03","Responses do not depend on how the request bytes are split into packets",
 "For every byte stream of requests sent on a connection, the bytes the server answers (and the effect on the stored data) are the same however the stream is cut into separate arrivals, including requests that are pipelined behind one another.",
 ["inputs","schedules"],"every way of cutting a request stream into arrivals, at every byte position, for every kind of request, alone and pipelined",
 "The tests send each request whole or cut at one or two places; a parser state that mishandles one particular cut is invisible to them.",
 [H,HP,PC,HR,RB],[("state machine resumed after partial input","http_read_handle"),("tokenisers","http_read_eoltoend, http_read_headers, http_read_requeststartmethod")],["response bytes"])
p("C04","The request ring buffer is a faithful bounded byte queue",
 "For every sequence of writes and reads, the connection read buffer holds exactly the unread bytes in order: the unread and free lengths are exact, the contiguous lengths never exceed what is there, copying, comparing, number reading and iteration act on exactly the next n unread bytes also across the wrap-around point, and no operation touches memory outside the buffer.",
 ["inputs","histories"],"every pair of read and write positions (including wrapped counters), every fill level, contents and operation length",
 "The unit tests use a few fixed offsets; wrap-around of the 16-bit positions and of the buffer end happen only after many kilobytes on one connection.",
 [RB,RBH],[("position arithmetic","rbuf_read_to_end, rbuf_write_to_end, rbuf_read_remaining"),("copy/compare over wrap","rbuf_copyn, rbuf_cmpn")],["return values and copied bytes"])
p("C05","No client input can crash, corrupt or hang the cache port",
 "Whatever bytes a client sends to the cache port, in whatever pieces, and whenever it disconnects, the server stays up, never accesses memory out of bounds, freed or uninitialised, never loops without progress, and goes on serving other connections correctly.",
 ["inputs","histories"],"every byte string within the length bound on a fresh connection, arbitrary bytes placed in every field of an otherwise valid request, and disconnects at every point",
 "Fuzz-like inputs are not in the tests; the space of malformed requests is unbounded and memory errors are mostly silent.",
 [PC,HP,H,HR,RB],[("request tokenising with length limits","http_read_requeststartmethod, http_read_requeststarturl1, http_read_headers"),("connection teardown","http_cleanup, cache_destroy")],["memory safety of the process","responses on a second connection"])
p("C06","Numeric headers are taken at exactly their decimal value or rejected",
 "A Content-Length, X-Ttl, X-Start or X-Limit header made of decimal digits is acted on with exactly the value written when that value fits the supported range, whatever its length and wherever it lies in the receive buffer. A value that is not a decimal number or does not fit is never silently treated as a different number: a PUT with such a Content-Length is refused and stores nothing.",
 ["inputs"],"every header value of up to 12 characters, at every position in the ring buffer including across the wrap",
 "Tests use two or three small numbers that never wrap or overflow.",
 [RB,PC],[("decimal parser","rbuf_strntol"),("header dispatch","http_read_header_extraction")],["parsed value; bytes accepted as the body; response"])
p("C07","Storage blocks are never shared, lost or outside the block file",
 "At every moment each block of the block file is either free or owned by exactly one stored (or still being read) value; allocating never yields an owned block, releasing makes it allocatable exactly once, the reported free/total counts match, and the block file is always long enough to hold every allocated block.",
 ["histories","inputs"],"any sequence of allocations and releases from any consistent allocator state",
 "Tests allocate a few blocks in order; double ownership needs particular free/replace/delete interleavings and shows up as another key's data.",
 [D],[("allocate from free list, else extend","db_block_allocate_new"),("release / truncate tail","db_block_free")],["block ownership through stored values; blocks_exist/blocks_free in db_get_details()"],
 [("free_blocks/blocks_exist/blocks_free","free list and block file size","db.h db_details")])
p("C08","A download in progress completes with the version it started with",
 "Once a GET has been answered with headers for a stored value, the client receives exactly the full bytes of that version, even when the key is replaced, deleted, expired or evicted, or its table deleted, by other connections while the body is still being sent; later requests see the new state.",
 ["schedules","histories"],"every interleaving point of the body transfer with every replacing, deleting or evicting request, for block and single-file values",
 "Needs a slow reader and a mutation at an exact moment; the tests contain only a few sequential multi-connection scripts.",
 [D,HR,PC],[("entry reference counting","db_entry_incref / db_entry_deref"),("iteration number in file names","get_key_path"),("soft delete","db_entry_handle_softdelete")],["bytes received by the slow reader"])
p("C09","Incomplete uploads are never visible and release what they reserved",
 "While a PUT body has not been completely received, no other request (GET, HEAD, listing-then-GET, or after a restart) obtains any part of the new value. If the uploading connection goes away or the body never completes, the partial value disappears, its storage is released for reuse and the server's size accounting returns to what it was.",
 ["schedules","histories"],"abandonment at every byte of the request, for small and large values, new and existing keys, with another connection observing",
 "The tests abort an upload at one or two fixed points and do not observe storage accounting.",
 [D,PC],[("writing flag","db_entry_get_write, db_complete_writing"),("cleanup on close","cache_destroy, db_target_entry_close")],["GET by another connection; db_get_details() and files afterwards"])
p("C10","Concurrent connections can mutate the same keys and tables safely",
 "For every interleaving of requests of several connections on the same keys and tables - with each request possibly split so that it is half received while others run - each request gets the answer of some sequential order (a PUT takes the old value away when it starts and provides the new one when it completes; a PUT into a table deleted meanwhile is discarded), no connection is left using released data, and nothing is released twice or kept forever.",
 ["schedules","histories"],"all interleavings, at request-piece granularity, of two or three connections running GET, PUT, DELETE key, DELETE table, listing and BULK requests on overlapping names",
 "Tests run a few fixed interleavings; reference-count errors need a specific overlap of half-received requests.",
 [D,PC,HR],[("table and entry reference counts","db_table_incref/db_table_deref, db_entry_incref/db_entry_deref"),("deleted flags","db_entry_handle_delete, db_table_handle_delete")],["responses; memory safety; db_get_details() once idle"])
p("C11","Entries expire at their X-Ttl deadline and not before",
 "A value stored with X-Ttl: n (n>0) is returned while fewer than n seconds have passed since it was stored, reported with a remaining X-Ttl never larger than n, and is never returned once more than n (whole) seconds have passed, whether or not the background expiry has run; a value stored without X-Ttl never expires. Expiry removes only expired values.",
 ["inputs","histories"],"every TTL in range, every clock value at each request, with and without the background expiry pass in between",
 "Tests sleep a second or two around one TTL value; boundaries, large TTLs and interaction with replacement need a symbolic clock.",
 [D,PC,HR],[("lazy expiry on lookup","db_entry_get_read"),("expire cursor","db_expire_cursor, db_expire_cursor_table"),("header","http_respond_expires")],["response to GET at each time"])
p("C12","Eviction enforces the size limit and removes the least recently used first",
 "After the periodic clean-up has run, the summed size of stored values is at most the configured maximum whenever it was above it, and the values removed are exactly the least recently used ones (order of last GET or PUT), no more than needed to reach the configured clear percentage; clean-up below the limit evicts nothing.",
 ["histories","configurations","inputs"],"every short history of PUT/GET/DELETE over several keys, every limit and clear percentage in the bound, all value sizes",
 "Tests exercise one limit with one access order; wrong list relinking or threshold arithmetic needs particular orders and sizes.",
 [D],[("LRU list","db_lru_insert, db_lru_hit, db_lru_remove_node"),("eviction","db_lru_gc, db_lru_cleanup_percent")],["which keys still answer 200; db_size_bytes"])
p("C13","Size, key and operation statistics equal the real contents",
 "When no request is in progress, the reported total size equals the sum of the sizes of all stored values, the reported number of keys equals the number of stored keys, and the counters equal the number of keys fetched (GET or HEAD that found its key), stored and deleted, after every history of puts, replacements, deletes, table deletes, expiries, evictions and aborted uploads.",
 ["histories"],"every short history of mixed operations including aborted uploads and repeated deletes",
 "Tests never compare the counters with the contents after replacements, collisions, table deletes or aborted uploads.",
 [D,HR],[("accounting at allocate/delete","db_target_write_allocate, db_entry_handle_delete, db_entry_actually_delete"),("report","http_respond_stats")],["db_get_details(); response of the statistics request"])
p("C14","Deleting a table removes exactly that table's keys",
 "After DELETE /table is answered, every key of that table answers 404 (until stored again) and its storage becomes reusable, while every key of every other table is unaffected; storing into the same table name afterwards creates a fresh table containing only the new keys.",
 ["histories","inputs"],"every short history over two tables with several keys, including deletion of empty, absent, colliding and re-created tables",
 "The tests delete one small table once.",
 [D,PC],[("table deletion","db_table_handle_delete, db_delete_table_entry, db_table_actually_delete")],["GET of every key of both tables; db_get_details()"])
p("C15","Listing returns exactly the table's live keys, within X-Start/X-Limit",
 "A GET /table without X-Start/X-Limit lists every live key of the table (the first 10,000 of them, the built-in limit) exactly once and nothing else, and the counts it announces agree with it; with X-Limit: n at most n keys are returned, and with X-Start: s the first s keys of that order are left out, so that pages together name every key once and no key is ever invented (keys expired but not yet collected or being uploaded may still be named).",
 ["inputs","histories"],"every small set of keys with every bucket occupancy pattern, every X-Start and X-Limit value; a table larger than the built-in limit",
 "Tests list one or two keys; whether a key is skipped depends on the hash bucket it falls in.",
 [HR,PC],[("bucket iteration","http_respond_listing"),("limits","http_respond_listingentries, http_read_header_extraction")],["listing response body and headers"])
p("C16","A clean stop and restart preserves every stored value exactly",
 "After a clean shutdown (or completed index save) and restart on the same directory, every live key answers with the same bytes and the same expiry time as before and no other key exists; values stored afterwards never overwrite a reloaded value, and reloaded values can be replaced, deleted and evicted like any other, releasing their storage.",
 ["histories","inputs"],"every short history before the save, key names and table names of any bytes, small and large values, followed by operations after reload",
 "The tests never restart the server on an existing directory and compare contents.",
 [D],[("index save","db_index_flush"),("reload","db_load_from_save, db_open")],["GET after restart; block ownership after restart"])
p("C17","A crash at any moment never makes wrong data appear after restart",
 "If the process is killed at any point - between any two file-system operations, including during an index save - then after restart on the surviving directory every key that answers returns exactly a value that was completely stored for that key, never a mixture or another key's data, and the server starts up and accepts new values.",
 ["crash_points","histories"],"a crash before every file-system mutation of every short history containing puts, replacements, deletes and index saves, followed by reload",
 "Tests never kill the server; the surviving combination of index, block file and key files depends on the exact crash point.",
 [D],[("atomic replacement of index and block file","db_index_flush"),("recovery","db_load_from_save, db_open")],["GET after restart on the surviving files"])
p("C18","Disk errors never corrupt stored data or wedge the server",
 "When a disk operation (open, write, extend, flush, rename) fails or writes fewer bytes than asked, at any point, the affected request may fail but no previously stored value changes, no wrong or partial value is ever returned as complete, memory stays intact and the server goes on serving requests.",
 ["fault_sequences","histories"],"every choice of a failing or short disk operation in short histories of puts, gets and deletes with small and large values",
 "Tests never inject disk failures.",
 [D,PC],[("write loop in body handler","http_cache_handle_request_body"),("open/extend error handling","db_target_open, db_entry_open_create, db_block_allocate_new"),("index write","full_write, db_index_flush")],["responses and GETs after the fault"])
p("C19","Responses are complete and in order whatever the socket accepts per write",
 "However few bytes the client socket accepts at each write, and however often it reports that it is not ready, the bytes the client finally receives are exactly the bytes of the complete response(s), in order, with none lost, repeated or truncated, for every kind of response.",
 ["schedules","fault_sequences"],"every partition of each response into accepted pieces, with not-ready results in between, for header, block, file, listing, error and statistics responses",
 "Test clients always drain the socket, so writes are never short.",
 [H,HR],[("partial write continuation","http_write_handle"),("body transfer continuation","http_respond_contentbody")],["bytes received by the client"])
p("C20","Every response is one well-formed HTTP message with a truthful length",
 "Every response sent consists of a status line, header lines and an empty line, and when it announces a Content-Length the body has exactly that many bytes (none for HEAD); a keep-alive connection can therefore be used for the next request and gets its own response in order, while a response announcing Connection: Close is followed by closing.",
 ["inputs","histories"],"every kind of request including all error cases, statistics, HEAD, BULK and listings, followed by a further request on the same connection",
 "Tests compare a few fixed responses; lengths computed from data (statistics, values, header lists) vary with state.",
 [HR,"src/core/http.h",H,PC],[("templates","http_templates, http_templates_init"),("computed lengths","http_respond_stats, http_respond_contentlength")],["response byte stream"])
p("C21","Every accepted client is served, whatever the thread timing",
 "For every interleaving of the accepting thread with the serving thread and of client arrivals, each accepted connection is eventually handed to the serving loop exactly once, starts with a clean state, and is served; none is lost, duplicated, or used after it was released, and stopping the server while connections arrive releases every descriptor.",
 ["schedules"],"all interleavings (at synchronisation points) of the acceptor and the serving loop with up to a few arriving clients",
 "Races between the two threads depend on timing the tests cannot control.",
 [CN],[("accept thread and queue","connection_handle_accept"),("serving loop","connection_event_loop"),("registration","connection_add, connection_remove")],["responses to each client; descriptors left open"])
p("C22","Monitoring port answers, streams and survives any client",
 "On the monitoring port, GET/HEAD / and unknown paths get their documented answer, a streaming client gets the streaming headers followed by state records at its interval only, and any sequence of monitoring clients connecting, stalling, disconnecting or sending arbitrary bytes at any time, together with the periodic timer, never corrupts memory, disturbs another client or stops the server.",
 ["inputs","schedules","histories"],"arbitrary request bytes within the bound, disconnect or stall at every point, timer firing at every point, up to three clients",
 "Test scripts open one or two well-behaved monitoring clients.",
 [MO,CN],[("monitoring list","monitoring_add, monitoring_destroy"),("periodic output","monitoring_check")],["bytes received by monitoring clients; memory safety"])
p("C23","Connections and values release every descriptor, file and buffer",
 "When all clients have disconnected, the number of open descriptors is what it was before they connected; after deletes, replacements or evictions no value file of a dead value remains and every allocation made for requests, connections, keys and tables has been released; stopping the server closes every socket - for every history of requests and disconnects.",
 ["histories","schedules"],"every short history with disconnects at any request byte, followed by idle and by shutdown",
 "Leaks accumulate slowly and no test counts descriptors, files or memory.",
 [CN,D,PC],[("teardown","connection_cleanup, http_cleanup, cache_destroy"),("database close","db_close, db_target_entry_close")],["open descriptors, directory contents, live allocations at the end"])
p("C24","Bind and size options configure exactly what was written",
 "A comma-separated list of bind options (IPv4 with port, port only, bracketed IPv6 with port, each optionally marked transparent, or a unix socket path) yields exactly the addresses, ports and paths written, independent of the other list elements; malformed lists are refused, and no option string can make the parser access memory out of bounds. Numeric options take the value written.",
 ["inputs","configurations"],"every option string of up to a bounded length over the relevant alphabet, alone and combined in lists",
 "Only default options are used by the tests.",
 [ST],[("bind parser","parse_binds"),("option parser","settings_parse_arguments")],["settings structure after parsing"])
p("C25","The key hash is MurmurHash3 and depends only on the key bytes",
 "The 32-bit hash used for keys and tables equals reference MurmurHash3_x86_32 with the project's seed for every byte string, reads exactly the given bytes, and therefore gives the same file and bucket placement on every run.",
 ["inputs"],"every byte string up to the length bound and every seed",
 "Tests never look at hash values.",
 [HA],[("hash","MurmurHash3_x86_32")],["hash output"])
p("C26","The hash map behaves as a map under every history of operations",
 "For every sequence of insertions, lookups, deletions and the resizes they cause, the in-memory hash map used for tables and keys finds exactly the elements inserted and not deleted, with their values, iterates over each of them exactly once, and terminates.",
 ["histories","inputs"],"every short sequence of put/get/del with arbitrary 32-bit keys, across resizes and with tombstones",
 "Collision chains with deleted slots and in-place rehash depend on exact key values and order.",
 [KH],[("open addressing with tombstones","kh_put, kh_get, kh_del, kh_resize")],["lookup results and iteration"])
p("C27","Each request has exactly the effect its method and path name",
 "GET, HEAD and listing never change stored data; PUT changes only the key it names; DELETE removes only the key or table it names; BULK deletes exactly the keys named by its X-Delete headers in its table; any other method or malformed path is refused without effect.",
 ["inputs","histories"],"every method string and path of up to a bounded length, on a store with several keys; all X-Delete sequences in the bound",
 "Tests use each well-formed method once; near-miss methods and paths (prefixes, empty names, extra slashes) are an input space.",
 [PC,H],[("method recognition","http_read_requeststartmethod"),("path split","http_read_requeststarturl1, http_read_requeststarturl2"),("bulk delete","http_read_header_extraction")],["stored contents before and after; response status"])
p("C28","The PID file names the serving process and keeps a second server out",
 "While a server started with --make-pid serves, in the foreground or as a daemon, its PID file holds exactly the decimal number of the serving process, whatever the file contained before; a second server started with the PID file of a running one does not serve, leaves the file as it is and does not touch stored data; after a clean stop the file is gone, or still there if --leave-pid was given; if the file cannot be opened, emptied or written the server does not serve.",
 ["inputs","configurations","faults"],"every process number, old file content within the bound, foreground and daemon mode, another server present or not, one failing operation at any point of the start",
 "Test scripts use a fresh PID file per server, never read it in daemon mode and never start two servers with one.",
 ["src/server/scache.cpp",ST],[("PID file","write_pid, main"),("daemon mode","fork_off")],["PID file contents and lock while serving, after stopping and after a refused start"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
