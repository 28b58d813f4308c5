"""Which harness decides which property, within which bounds."""
ASSUME = ["the modelled operating system (rt/world.cpp) behaves like Linux for the calls the server makes", "clang -O1-level IR of the sources means what the sources mean; the executor's instruction semantics (cross-checked by native replays)", "z3 answers are right"]
CHECKS = {}; NA = {}
def check(id, **kw): CHECKS[id] = kw
check("C04", bounds="buffer capacity 16 (quick) / 64 (thorough), all 65536 position values, all contents, all lengths; numbers and comparisons up to 12 bytes", outside="other capacities (the code is parametric in BUFFER_SIZE)",
      runs=[dict(name="ring", unit=True, harness=["c04_ring.cpp"], defs=["-DBUFFER_SIZE=16"], defs_thorough=["-DBUFFER_SIZE=64"], timeout=150, timeout_thorough=700, reach=["done", "copy wraps", "compare wraps", "number wraps", "skip wraps", "write", "lengths"])])

# ---------------------------------------------------------------- histories of requests against the reference model (harness/hist.cpp)
PUT, GET, HEAD, DEL, DELT, BULK, LIST, TIME, GC, RESTART, ABORT, PUTTTL, LISTX = (1 << i for i in range(13))
def R(name, harness, reach, params={}, q={}, t={}, defs=(), hdefs=(), timeout=100, bounds="", **kw):
    return dict(name=name, harness=[harness], defs=list(defs), hdefs=list(hdefs), params=params, params_quick=q, params_thorough=t, reach=list(reach), timeout=timeout, timeout_thorough=800, bounds=bounds, **kw)
def H(name, ops, q, t, tables=("a", "b"), keys=("x", "y"), sizes=(3, 4096, 4097), collide="", big=0, defs=(), reach=("end",), final=7, timeout=100, ttls=(), times=(), **params):
    tt = params.pop("tiers", ("quick", "thorough")); p = dict(params); p.update(ops=ops, final=final)
    L = lambda n: "{" + ",".join('"%s"' % x for x in n) + "}"
    hd = ["-DTABLES=" + L(tables), "-DKEYS=" + L(keys), "-DSIZES={" + ",".join(map(str, sizes)) + "}"] + ([f"-DCOLLIDE(k,j)={collide}"] if collide else []) + ([f"-DVX_BIG={big}"] if big else []) + (["-DTTLS={" + ",".join(map(str, ttls)) + "}"] if ttls else []) + (["-DTIMES={" + ",".join(map(str, times)) + "}"] if times else [])
    return dict(name=name, harness=["hist.cpp"], hdefs=hd, defs=list(defs), params=p, params_quick={"steps": q}, params_thorough={"steps": t}, timeout=timeout, timeout_thorough=800, reach=list(reach) + ["end"], tiers=tt,
                bounds=f"every history of {q} (thorough {t}) operations; tables {', '.join(map(N, tables))}; keys {', '.join(map(N, keys))}; value sizes {', '.join(map(str, sizes))}")
N = lambda x: x if len(x) < 40 else f"{x[0]}... ({len(x)} bytes)"
HB = "values: arbitrary bytes at start, middle, end and around offset 4096, sizes as listed per run; see runs[].bounds for the operations"
HO = "longer histories, more names, other sizes"
check("C02", bounds="3 tables or keys whose 32-bit MurmurHash3 values are equal (same length, different length, one a prefix of the other) or adjacent, every history of 3-4 operations on them", outside=HO,
      runs=[H("keys-same-length", PUT | GET | HEAD | DEL | BULK, 3, 4, tables=("a",), keys=("xdkic", "oj6af"), sizes=(3, 4097), collide="1", reach=["put", "get hit", "get miss"]),
            H("keys-prefix", PUT | GET | DEL | BULK, 3, 4, tables=("a",), keys=("c", "ccc4jch", "z"), sizes=(3,), collide="((k)<2&&(j)<2)", reach=["put", "get hit"]),
            H("keys-restart", PUT | DEL | RESTART, 3, 4, tables=("a",), keys=("sm", "sm69bdb"), sizes=(3, 4097), collide="1", reach=["restarted"]),
            H("tables-equal", PUT | DELT | DEL, 3, 4, tables=("s3fi", "xdkic", "oj6af"), keys=("x",), sizes=(3, 4097), reach=["delete table", "get hit", "list"]),
            H("tables-prefix-adjacent", PUT | DELT | DEL | RESTART, 3, 4, tables=("sm", "sm69bdb"), keys=("x", "c"), sizes=(3,), reach=["delete table", "get hit", "restarted"]),
            H("tables-adjacent", PUT | DELT, 4, 5, tables=("2tpg", "jvn3d", "lbtlc"), keys=("x",), sizes=(3,), reach=["delete table", "get hit"])])
check("C01", bounds=HB + "; names of up to 16200 bytes; block numbers around 2^19, 2^20 and 2^31", outside=HO + "; values over 140001 bytes (announced sizes of up to 2 GB are in C13)",
      runs=[H("store", PUT | GET | HEAD | DEL | DELT | BULK, 3, 4, tables=("a",), reach=["put", "get hit", "get miss", "bulk", "delete table", "delete"]),
            H("names-long", PUT | GET | DEL | LIST | RESTART, 2, 3, tables=("t" * 255,), keys=("k" * 256, "k" * 300), sizes=(3, 4097), reach=["put", "get hit", "list", "restarted"]),
            H("names-longer", PUT | DEL | BULK | LIST, 2, 3, tables=("t" * 1000,), keys=("k", "k" * 255, "m" * 3000), sizes=(3,), reach=["put", "get hit", "list", "bulk"]),
            H("names-longest", PUT | GET | DEL | BULK | LIST | RESTART, 2, 3, tables=("t",), keys=("k" * 16200, "k" * 16199), sizes=(3, 4097), big=40000, reach=["put", "get hit", "list", "bulk", "restarted"]),
            H("store-large", PUT | GET | DEL | RESTART, 2, 3, tables=("a",), sizes=(65535, 65537, 140001), big=140001, reach=["put", "get hit", "restarted"]),
            R("large-numbers", "large.cpp", ["stored", "download", "no block", "end", "done"], params={"mode": 0, "numbers": 6}, unit=True),
            H("store-two-tables", PUT | GET | DEL | DELT, 3, 3, sizes=(1, 4096, 4097), final=1, reach=["put", "get hit", "get miss"]),
            H("store-gc-each-put", PUT | DEL | DELT, 3, 4, tables=("a",), sizes=(1, 4096, 9000), defs=["-DDB_LRU_EVERY=1"], final=1, reach=["put", "get hit", "get miss"])])
check("C13", bounds=HB, outside=HO,
      runs=[H("stats", PUT | GET | DEL | DELT | BULK | ABORT, 2, 3, final=2, each=1, reach=["put", "delete table", "bulk", "delete", "stats", "aborted upload"]),
            H("stats-expiry", PUTTTL | PUT | GET | HEAD | DEL | TIME | GC, 3, 4, tables=("a",), sizes=(3, 4097), final=7, reach=["get expired", "gc", "stats"]),
            H("stats-long", PUT | DEL | DELT, 4, 5, keys=("x",), sizes=(3, 4097), final=2, each=1, reach=["put", "delete table", "delete", "stats"])])
check("C14", bounds=HB, outside=HO,
      runs=[H("tables", PUT | GET | DEL | DELT, 4, 5, keys=("x",), sizes=(3, 4097), each=1, reach=["put", "delete table", "get miss"]),
            H("tables-two-keys", PUT | DELT | BULK, 3, 4, sizes=(3, 4097), each=0, reach=["put", "delete table", "get miss"]),
            H("tables-leak", PUT | DELT | DEL | ABORT, 2, 3, sizes=(3, 4097), leak=1, reach=["delete table", "leak check"])])
check("C16", bounds=HB + "; 60 (thorough 80) keys in 7 tables, in blocks and in files, with short and long names, with and without X-Ttl, over two restarts with one of 5 removals, 4 sets of changes and 3 ways to stop", outside=HO,
      runs=[H("restart", PUT | PUTTTL | DEL | DELT | RESTART, 3, 4, tables=("a",), sizes=(3, 4097), reach=["restarted", "get hit", "delete", "delete table"]),
            H("restart-long-names", PUT | DEL | RESTART, 2, 3, tables=("t" * 255,), keys=("k" * 255, "k" * 256, "m" * 1000), sizes=(3, 4097), reach=["restarted", "get hit", "put"]),
            H("restart-two-tables", PUT | DEL | RESTART, 3, 4, keys=("x",), sizes=(3, 4096, 4097), each=1, reach=["restarted", "get hit", "delete"]),
            H("restart-time", PUT | PUTTTL | TIME | RESTART | GET, 3, 4, tables=("a",), keys=("x",), sizes=(3, 4097), reach=["restarted", "get hit", "get expired"]),
            H("restart-flush", PUT | DEL | GC | RESTART, 3, 4, tables=("a",), sizes=(3, 4097), fork_mode=1, reach=["restarted", "get hit", "gc"]),
            R("many", "many.cpp", ["restarted", "expired", "index saved", "end", "done"], params={"mode": 0}, q={"keys": 60}, t={"keys": 80, "tables": 9}),
            R("large-numbers", "large.cpp", ["stored", "after the restart", "end", "done"], params={"mode": 0, "numbers": 2, "restart": 1}, unit=True)])
check("C23", bounds=HB, outside=HO,
      runs=[H("leaks", PUT | GET | DEL | DELT | BULK | ABORT, 2, 3, leak=1, reach=["leak check", "aborted upload"]),
            H("leaks-expiry", PUTTTL | PUT | TIME | GC | ABORT | LIST, 2, 3, leak=1, reach=["leak check", "aborted upload"]),
            H("leaks-gc", PUT | ABORT | DELT | GC, 3, 4, tables=("a",), keys=("x",), sizes=(3, 4097), leak=1, fork_mode=1, defs=["-DDB_LRU_EVERY=1"], reach=["leak check", "aborted upload"])])
CROWD = dict(harness="crowd.cpp", reach=["served", "end", "done"], hdefs=["-DWX_CROWD"], timeout=200)
check("C11", bounds=HB + "; X-Ttl 1..2 and times 0..4 s symbolic, 4-5 operations; X-Ttl and times of up to 2^31-1 s at representative values, over restarts", outside=HO + "; sub-second timing",
      runs=[H("ttl", PUT | PUTTTL | GET | TIME | GC, 4, 5, tables=("a",), keys=("x",), sizes=(3,), reach=["get expired", "get hit", "gc"]),
            H("ttl-long", PUTTTL | GET | TIME | GC | RESTART, 3, 4, tables=("a",), keys=("x",), sizes=(3,), ttls=(300, 70000, 2147483646, 2147483647), times=(299, 300, 301, 70000, 2147483646), reach=["get expired", "get hit", "gc", "restarted"]),
            H("ttl-two-keys", PUTTTL | PUT | HEAD | TIME | GC, 3, 4, tables=("a",), sizes=(3, 4097), final=15, reach=["get expired", "get hit", "gc"]),
            H("ttl-two-tables", PUTTTL | TIME | LIST | DELT, 3, 4, keys=("x",), sizes=(3, 4097), defs=["-DDB_LRU_EVERY=1"], reach=["get expired", "get hit", "list"])])

CHECKS["C13"]["runs"].append(R("large-sizes", "large.cpp", ["aborted", "end", "done"], params={"mode": 1}))
CHECKS["C13"]["bounds"] += "; two uploads announcing 1 byte to 2 GB, given up"
CHECKS["C23"]["runs"].append(R("crowd", params={"clients": 36}, t={"clients": 100}, **CROWD))
CHECKS["C23"]["bounds"] += "; 36 (thorough 100) connections at once, one of which behaves differently"
check("C15", bounds="a table of 10,001 keys, of which none, every thousandth or 200 in the middle are deleted, listed whole (up to the built-in limit of 10,000), with X-Limit, and in pages of 4000; tables of up to 5 (thorough 6) keys: every subset stored, any one deleted (and stored again), X-Start and X-Limit each absent or any value from 0 to number of keys + 2, page by page with page sizes 1-3; listings while every socket write is cut to one byte; histories mixing listings with other requests", outside="larger tables; listings interleaved with changes by other connections are in C10",
      runs=[R("many-keys", "biglist.cpp", ["stored", "whole", "all", "pages", "end", "done"], params={"keys": 10001}, defs=["-DDB_LRU_EVERY=1000000"]),
            R("subsets", "list.cpp", ["list", "pages", "delete", "end"], q={"keys": 5}, t={"keys": 6}),
            R("orders", "list.cpp", ["list", "pages", "end"], params={"rotate": 1, "again": 1}, q={"keys": 3}, t={"keys": 4}),
            R("slow-socket", "list.cpp", ["list", "pages", "end"], params={"wr": 2}, q={"keys": 2}, t={"keys": 3}),
            H("histories", PUT | DEL | LISTX | PUTTTL | TIME, 2, 3, tables=("a",), sizes=(3,), reach=["list"])])
S2 = "-DSIZES={100,4097}"
check("C12", bounds="2-4 keys in one or two tables, value sizes 1, 100, 4096, 4097 (and 2 GB values by setting the recorded sizes), up to 2 touches (GET, HEAD, replacing PUT, DELETE, an aborted upload, deletion of a table) in any order, over a restart, every size limit from 0 to 20000 bytes (16 GB), clear shares 0, 20, 50, 100 %, clean-up on demand and with an upload; 20 (thorough 48) keys in 5 tables used again in one of 9 ways, with every size limit up to 250000 bytes", outside="more keys; other clear shares",
      runs=[R("order", "evict.cpp", ["evicted", "some evicted", "end"], params={"keys": 3, "tables": 2}, q={"touches": 1}, t={"touches": 2}, hdefs=[S2]),
            R("order-one-table", "evict.cpp", ["evicted", "some evicted", "end"], params={"keys": 2, "tables": 1, "abort_min": 1}, q={"touches": 2}, t={"touches": 3}, hdefs=[S2]),
            R("restart", "evict.cpp", ["evicted", "some evicted", "restarted", "end"], params={"keys": 3, "tables": 2, "restart": 1, "before": 1}, q={"touches": 1}, t={"touches": 2}, hdefs=[S2]),
            R("sizes", "evict.cpp", ["evicted", "some evicted", "second clean-up", "end"], params={"keys": 2, "again": 1}, q={"touches": 1}, t={"touches": 2}),
            R("with-upload", "evict.cpp", ["evicted", "some evicted", "end"], params={"keys": 3, "tables": 2, "every": 1, "touches": 1}, hdefs=[S2], defs=["-DDB_LRU_EVERY=4"]),
            R("many", "many.cpp", ["evicted", "end", "done"], params={"mode": 1}, q={"keys": 20, "tables": 5}, t={"keys": 48, "tables": 7}, defs=["-DDB_LRU_EVERY=1000000"], timeout=140),
            R("huge", "evict.cpp", ["evicted", "some evicted", "end"], params={"maxmb": 16000, "touches": 0}, q={"keys": 3}, t={"keys": 4}, hdefs=["-DUNIT_HUGE", S2], unit=True)])
check("C27", bounds="method field: every byte string of up to 7 bytes; path: every byte string of up to 4 bytes alone and around a known table or key name (names not in the store: one free byte, the others fixed), for all 7 methods; BULK/PURGE: every 1 or 2 header lines with 1-3 arbitrary bytes in header name or value, whole and cut at every byte", outside="longer methods and paths",
      runs=[R("method", "reqs.cpp", ["refused", "get", "put", "delete", "listing", "delete table", "end"], params={"mode": 0}, q={"len": 7}, t={"len": 7}),
            R("path", "reqs.cpp", ["refused", "no effect", "listing", "put other name", "end"], params={"mode": 1}, q={"len": 3}, t={"len": 4}),
            R("path-slash", "reqs.cpp", ["refused", "get", "put", "delete", "delete table", "end"], params={"mode": 2, "min": 3}, q={"len": 3}, t={"len": 4}),
            R("key", "reqs.cpp", ["refused", "get", "put", "delete", "put other name", "end"], params={"mode": 3}, q={"len": 2}, t={"len": 3}),
            R("table", "reqs.cpp", ["refused", "get", "put", "delete", "end"], params={"mode": 5}, q={"len": 3}, t={"len": 3}),
            R("table-end", "reqs.cpp", ["refused", "no effect", "end"], params={"mode": 4}, q={"len": 1}, t={"len": 3}),
            R("admin", "reqs.cpp", ["refused", "no effect", "clean-up", "end"], params={"mode": 2, "admin": 1, "limit": 1, "len": 3}),
            R("admin-path", "reqs.cpp", ["refused", "no effect", "clean-up", "end"], params={"mode": 1, "admin": 1, "limit": 1, "len": 4}),
            R("bulk", "bulk.cpp", ["deleted", "kept", "end"], q={"lines": 1}, t={"lines": 2, "full": 1}),
            R("bulk-two", "bulk.cpp", ["deleted", "kept", "end"], params={"lines": 2}),
            R("bulk-cut", "bulk.cpp", ["deleted", "kept", "end"], params={"lines": 1, "cut": 1})])
CB = "40 conversations (every kind of request incl. refused ones, and pipelined sequences) with arbitrary body bytes"
check("C03", bounds=CB + "; one cut at every byte, pieces of 1-7 bytes throughout, two cuts at all pairs of positions for the request kinds (thorough: for all), a half-closed sender, every position of the ring buffer's end inside the conversation (buffer of 512 bytes)", outside="other conversations, three or more cuts (beyond regular pieces)",
      runs=[R("one-cut", "twin.cpp", ["same"], params={"cuts": 1, "meanwhile": 0}),
            R("one-cut-half-close", "twin.cpp", ["same"], params={"cuts": 1, "fin": 1}),
            R("pieces", "twin.cpp", ["same"], params={"cuts": 0}, q={"pieces": 7}, t={"pieces": 24}),
            R("byte-alone", "twin.cpp", ["same"], params={"cuts": 2, "alone": 1}),
            R("wrap", "twin.cpp", ["same"], params={"cuts": 0, "wrap": 512}, defs=["-DBUFFER_SIZE=512"]),
            R("wrap-cut", "twin.cpp", ["same"], params={"cuts": 1, "wrap": 256}, q={"from": 5, "to": 8}, t={"from": 0}, defs=["-DBUFFER_SIZE=256"]),
            R("two-cuts", "twin.cpp", ["same"], params={"cuts": 2}, q={"from": 5, "to": 8}, t={"from": 0})])
check("C19", bounds=CB + "; sockets that take nothing and one byte alternately, stop once at any byte of the first write, misbehave once (thorough: twice) at any write with any number of bytes, or stall after any number of bytes until resumed; large parts of 4 KB values cut at 12-15 representative positions", outside="other combinations",
      runs=[R("byte-by-byte", "twin.cpp", ["same"], params={"cuts": 0, "wmode": 2}),
            R("first-write", "twin.cpp", ["same"], params={"cuts": 0, "wmode": 4}),
            R("one-disturbed", "twin.cpp", ["same"], params={"cuts": 0, "wmode": 6}),
            R("stalled", "twin.cpp", ["same"], params={"cuts": 0, "wmode": 7}),
            R("two-disturbed", "twin.cpp", ["same"], params={"cuts": 0, "wmode": 8}, tiers=("thorough",)),
            R("disturbed-and-cut", "twin.cpp", ["same"], params={"cuts": 1, "wmode": 6}, q={"from": 29, "to": 30}, t={"from": 0})])
check("C20", bounds=CB + "; delivered whole, byte by byte to a slow socket; every counter of the statistics page from 1 to 20 digits; 9 kinds of requests with a header line, a name or a version of any length around the size of the receive buffer (real size, and 256 bytes), whole or in two pieces", outside="other requests; name and value sizes covered by C01 and C27",
      runs=[R("whole", "wellformed.cpp", ["head", "message", "refused", "next request", "done"]),
            R("slow", "wellformed.cpp", ["head", "message", "refused", "next request", "done"], params={"bytewise": 1, "wmode": 2}),
            R("disturbed", "wellformed.cpp", ["head", "message", "refused", "next request", "done"], params={"wmode": 6}),
            R("oversize", "oversize.cpp", ["served", "refused", "closed", "end", "done"], q={"from": 216, "count": 50}, t={"from": 10, "count": 300}, defs=["-DBUFFER_SIZE=256"]),
            R("oversize-real", "oversize.cpp", ["served", "refused", "closed", "end", "done"], hdefs=["-DBUFSZ=16384"], q={"from": 16375, "count": 18}, t={"from": 16300, "count": 120}),
            R("counters", "wellformed.cpp", ["next request", "done"], params={"from": 20, "to": 23}, hdefs=["-DUNIT_COUNTERS"], unit=True)])

# ---------------------------------------------------------------- several connections at once (harness/conc.cpp)
(C_UP, C_UP2, C_DOWN, C_HALF, C_PUT, C_GET, C_DEL, C_DELT, C_BULK, C_LIST, C_GC, C_TIME, C_TTL, C_HEAD, C_DLIST, C_DOWN2) = (1 << i for i in range(16))
def C(name, ops, q, t, keys=("x",), tables=("a",), sizes=(3, 4097), reach=(), defs=(), pre=1, **params):
    tt = params.pop("tiers", ("quick", "thorough")); L = lambda n: "{" + ",".join('"%s"' % x for x in n) + "}"
    return dict(name=name, harness=["conc.cpp"], hdefs=["-DTABLES=" + L(tables), "-DKEYS=" + L(keys), "-DSIZES={" + ",".join(map(str, sizes)) + "}"], defs=list(defs), params=dict(params, ops=ops, pre=pre), params_quick={"steps": q}, params_thorough={"steps": t}, timeout=120, timeout_thorough=800, reach=list(reach) + ["totals", "end"], tiers=tt,
                bounds=f"every sequence of {q} (thorough {t}) steps; keys {', '.join(keys)}; sizes {', '.join(map(str, sizes))}")
CO = "more simultaneous connections, longer sequences, other sizes; threads (the server serves all connections from one thread)"
check("C08", bounds="1-2 downloads that stop after 1, 300 or 4200 bytes and are resumed or reset, and up to 3-4 other steps in any order: PUT, DELETE, table DELETE, expiry, clean-up, eviction, an upload in progress, BULK, listings", outside=CO,
      runs=[C("changes", C_DOWN | C_PUT | C_DEL | C_DELT, 4, 5, sizes=(4096, 9000), reach=["download begins", "download ends", "download aborted", "delete table"]),
            C("two-keys", C_DOWN | C_PUT | C_BULK | C_DELT, 3, 4, keys=("x", "y"), sizes=(3, 9000), reach=["download begins", "download ends", "bulk"]),
            C("two-downloads", C_DOWN | C_DOWN2 | C_PUT | C_DEL, 4, 5, sizes=(4096, 9000), reach=["download begins", "download ends"]),
            C("expiry", C_DOWN | C_GC | C_TIME | C_TTL, 4, 5, sizes=(3, 9000), reach=["download begins", "download ends", "gc", "time passes"]),
            C("eviction", C_DOWN | C_GC | C_PUT, 4, 5, sizes=(4096, 9000), evict=1, reach=["download begins", "download ends", "gc"]),
            C("evict-each-put", C_DOWN | C_PUT | C_DELT, 3, 4, sizes=(4096, 9000), evict=1, defs=["-DDB_LRU_EVERY=1"], each=0, reach=["download begins", "download ends"]),
            C("uploads", C_UP | C_DOWN | C_DEL, 4, 5, sizes=(4096, 4097), reach=["download begins", "download ends", "upload ends", "upload aborted"]),
            C("listings", C_DOWN | C_DLIST | C_PUT | C_DEL | C_DELT, 3, 4, keys=("x", "y"), sizes=(3,), pre=3, reach=["listing begins", "listing ends"])])
check("C09", bounds="1-2 uploads that have delivered part of their header, or all but the first, or the last, byte of the body, continued, closed or reset, with 2-4 other steps in any order in between; every key is read after every step, totals, blocks, files and allocations are compared at the end", outside=CO,
      runs=[C("reads", C_UP | C_LIST | C_HEAD | C_DEL, 4, 5, reach=["upload begins", "upload ends", "upload aborted", "list"]),
            C("header-cuts", C_UP | C_DEL | C_BULK | C_LIST, 3, 4, upcuts=5, sizes=(3, 4096, 4097), reach=["upload begins", "upload ends", "upload aborted"]),
            C("table", C_UP | C_PUT | C_DELT | C_DEL, 3, 4, keys=("x", "y"), reach=["upload ends", "upload aborted", "delete table"]),
            C("gc", C_UP | C_GC | C_PUT, 3, 4, evict=1, reach=["upload ends", "upload aborted", "gc"]),
            C("gc-each-put", C_UP | C_UP2 | C_DELT, 3, 4, defs=["-DDB_LRU_EVERY=1"], reach=["upload ends", "upload aborted", "delete table"]),
            C("fresh-table", C_UP | C_DELT | C_DEL | C_LIST, 4, 5, pre=0, upcuts=5, sizes=(4097,), reach=["upload ends", "upload aborted"])])
check("C10", bounds="2 uploads, 1 download, 1 request cut in its header (GET, HEAD, DELETE, table DELETE, listing, BULK; cut after the path, a header line, or before the last byte) and complete requests, 3-4 steps in any order, on 1-2 keys in 1-2 tables", outside=CO,
      runs=[C("mutations", C_UP | C_PUT | C_DEL | C_DELT, 4, 5, reach=["upload ends", "delete table", "delete", "put"]),
            C("two-uploads", C_UP | C_UP2 | C_DEL, 3, 4, upcuts=5, reach=["upload ends", "upload aborted"]),
            C("two-uploads-table", C_UP | C_UP2 | C_DELT, 4, 5, upcuts=1, sizes=(4097,), reach=["upload ends", "upload aborted", "delete table"]),
            C("half-upload", C_UP | C_HALF, 4, 5, upcuts=1, sizes=(4097,), reach=["half completed", "half aborted", "upload ends"]),
            C("half-changes", C_HALF | C_PUT | C_DEL | C_DELT, 3, 4, keys=("x", "y"), sizes=(3,), pre=3, reach=["half completed", "half aborted", "put"]),
            C("half-expiry", C_HALF | C_GC | C_TIME | C_TTL, 4, 5, pre=0, sizes=(4097,), reach=["half completed", "gc", "time passes"]),
            C("two-tables", C_UP | C_PUT | C_DELT, 3, 4, tables=("a", "b"), sizes=(4097,), upcuts=2, reach=["upload ends", "delete table"]),
            C("all", C_UP | C_DOWN | C_HALF | C_PUT | C_DELT, 3, 4, upcuts=1, sizes=(4097,), reach=["half completed", "download ends", "upload ends"]),
            C("no-copy-on-write", C_UP | C_PUT | C_DEL | C_GC, 3, 4, defs=["-DDB_ENABLE_COPY_ON_WRITE=false"], reach=["upload ends", "gc"])])

CHECKS["C13"]["runs"] += [C("uploads", C_UP | C_HEAD | C_DEL | C_DELT, 4, 5, reach=["upload ends", "upload aborted", "delete table", "head", "miss"]),
                          C("half", C_UP | C_HALF | C_DEL, 3, 4, keys=("x", "y"), sizes=(4097,), reach=["half completed", "half aborted", "upload ends"])]
CHECKS["C14"]["runs"] += [C("uploads", C_UP | C_PUT | C_DELT, 3, 4, tables=("a", "b"), reach=["upload ends", "upload aborted", "delete table"], upcuts=2),
                          C("downloads", C_UP | C_DOWN | C_DELT | C_DEL, 3, 4, keys=("x", "y"), sizes=(4097,), reach=["upload ends", "download ends", "delete table"], upcuts=1)]
CHECKS["C14"]["bounds"] += "; tables deleted while values are uploaded to them or downloaded from them"
check("C07", bounds="every order of up to 4 operations with values around the block size; a start over a block file of 0 to 20000 blocks that has no index; 1-2 downloads holding blocks of replaced or deleted values; 262 stored values of which 2-262 are deleted in one of four orders (the file is shortened above 256 free blocks), some stored again; 12 blocks with numbers around 2^19, 2^20 and 2^31 (the offsets pass 2^31 and 2^32)", outside="other orders with many blocks; more than 300 blocks in use",
      runs=[R("many", "blocks.cpp", ["end", "listing"], params={"n": 262}),
            R("leftover", "many.cpp", ["end", "done"], params={"mode": 2, "tables": 3}, q={"keys": 20}, t={"keys": 60}),
            R("large-numbers", "large.cpp", ["stored", "download", "no block", "end", "done"], params={"mode": 0, "numbers": 6}, unit=True),
            R("forty", "blocks.cpp", ["end", "listing"], params={"n": 40}, tiers=("thorough",)),
            H("replace", PUT | DEL | DELT, 4, 5, tables=("a",), keys=("x", "y"), sizes=(1, 4096, 4097), each=0, final=7, leak=1, reach=["put", "delete", "delete table"]),
            H("collected", PUTTTL | PUT | TIME | GC, 3, 4, tables=("a",), keys=("x", "y"), sizes=(3,), final=7, defs=["-DDB_LRU_EVERY=1"], reach=["put", "gc"]),
            C("held", C_DOWN | C_DOWN2 | C_PUT | C_DEL, 4, 5, keys=("x", "y"), sizes=(4096,), each=0, reach=["download begins", "download ends", "delete"]),
            C("uploads", C_UP | C_DOWN | C_PUT | C_DELT, 3, 4, sizes=(3, 4096, 4097), each=0, reach=["upload ends", "upload aborted", "download ends"])])
check("C25", bounds="every byte string of 0 to 300 bytes with the project's seed, of 0 to 40 bytes with every seed; strings of up to 20 bytes with one arbitrary byte anywhere", outside="longer strings",
      runs=[R("few", "hash.cpp", ["hash", "tail", "blocks"], params={"lengths": 21, "few": 1}, hdefs=["-DUNIT_HASH"], unit=True),
            R("every-string", "hash.cpp", ["hash", "tail", "blocks"], q={"lengths": 301}, t={"lengths": 3100}, hdefs=["-DUNIT_HASH"], unit=True),
            R("every-seed", "hash.cpp", ["hash", "tail", "blocks"], params={"anyseed": 1}, q={"lengths": 41}, t={"lengths": 301}, hdefs=["-DUNIT_HASH"], unit=True)])
check("C26", bounds="3 arbitrary 32-bit keys, every history of 3 operations (thorough 4); keys equal in their upper 26 bits with every combination of low bits, 3-7 keys and 2-6 operations, growing the table up to twice; 1-40 keys in 8 spacings, five deletion patterns, repeated deletion and insertion; the server with up to 40 keys or tables", outside="longer histories; more keys",
      runs=[R("any-keys", "hmap.cpp", ["arbitrary keys", "end"], params={"keys": 3, "any": 1}, q={"steps": 3}, t={"steps": 4}, unit=True),
            R("low-bits", "hmap.cpp", ["arbitrary keys", "end"], params={"keys": 3}, q={"steps": 5, "low": 4}, t={"steps": 6, "low": 5}, unit=True),
            R("grown", "hmap.cpp", ["arbitrary keys", "end"], params={"keys": 5, "pre": 4}, q={"steps": 3, "low": 5}, t={"steps": 4, "low": 6}, unit=True),
            R("many", "hmap.cpp", ["many", "end"], params={"many": 40}, unit=True),
            R("server-keys", "blocks.cpp", ["end", "listing"], params={"n": 40}),
            R("server-tables", "blocks.cpp", ["end"], params={"n": 40, "tables": 1})])

check("C06", bounds="Content-Length, X-Ttl, X-Start and X-Limit of 1 to 3 arbitrary bytes (thorough 4), and 13 values of up to 26 digits (around 2^31, 2^32, 2^64, with leading zeros) with one arbitrary byte at any place; with and without the space, with other header lines before and after; every position of the ring buffer's end (buffer of 256 bytes); the number reader itself on up to 12 digits is in C04", outside="other values of more than 4 digits with several arbitrary bytes",
      runs=[R("length", "nums.cpp", ["refused", "stored", "large", "end"], params={"mode": 0}, q={"len": 3}, t={"len": 4}),
            R("length-values", "nums.cpp", ["refused", "stored", "large", "end"], params={"mode": 0, "tmpl": 1}),
            R("length-places", "nums.cpp", ["refused", "stored", "large", "end"], params={"mode": 0, "places": 1}, q={"len": 2}, t={"len": 3}),
            R("length-wrap", "nums.cpp", ["refused", "stored", "large", "end"], params={"mode": 0, "len": 2, "min": 2, "wrap": 256}, defs=["-DBUFFER_SIZE=256"]),
            R("length-edge", "nums.cpp", ["refused", "large", "end"], params={"mode": 0, "len": 11, "min": 10, "top": 1}),
            R("ttl", "nums.cpp", ["refused", "ttl", "no ttl", "end"], params={"mode": 1}, q={"len": 2}, t={"len": 3}),
            R("ttl-values", "nums.cpp", ["refused", "ttl", "no ttl", "end"], params={"mode": 1, "tmpl": 1}),
            R("ttl-wrap", "nums.cpp", ["refused", "ttl", "end"], params={"mode": 1, "len": 1, "wrap": 256}, defs=["-DBUFFER_SIZE=256"], tiers=("thorough",)),
            R("start", "nums.cpp", ["refused", "listing", "end"], params={"mode": 2}, q={"len": 3}, t={"len": 4}),
            R("start-values", "nums.cpp", ["refused", "listing", "end"], params={"mode": 2, "tmpl": 1}),
            R("limit", "nums.cpp", ["refused", "listing", "end"], params={"mode": 3}, q={"len": 3}, t={"len": 4}),
            R("limit-values", "nums.cpp", ["refused", "listing", "end"], params={"mode": 3, "tmpl": 1})])
check("C24", bounds="bind texts of 0 to 5 (thorough 6) arbitrary bytes for either port; 14 texts with IPv4, IPv6, unix, transparent and several addresses with 1-2 arbitrary bytes replaced or one inserted anywhere; unix paths of 1-120 bytes; the options in 4 forms and 2 orders with and without path, pid file, size and share; size limits of 1-3 arbitrary digits and 7 long ones, 8 shares; wrong options", outside="other texts; -d (daemon), abbreviated long options",
      runs=[R("text", "options.cpp", ["ipv4", "unix", "transparent", "refused", "end"], params={"mode": 0}, q={"len": 5}, t={"len": 7}),
            R("text-monitor", "options.cpp", ["ipv4", "unix", "transparent", "refused", "end"], params={"mode": 0, "monitor": 1}, q={"len": 4}, t={"len": 6}),
            R("templates", "options.cpp", ["ipv4", "ipv6", "unix", "transparent", "refused", "end"], params={"mode": 1, "insert": 1}, q={"free": 1}, t={"free": 2}),
            R("templates-two", "options.cpp", ["ipv4", "ipv6", "unix", "transparent", "refused", "end"], params={"mode": 1, "free": 2}, t={"free": 3}),
            R("forms", "options.cpp", ["pid file", "limited", "end"], params={"mode": 2, "forms": 1}),
            R("size", "options.cpp", ["limited", "not limited", "end"], params={"mode": 3}, q={"len": 3}, t={"len": 4}),
            R("wrong", "options.cpp", ["refused", "end"], params={"mode": 4}),
            R("unix-length", "options.cpp", ["refused", "unix", "end"], params={"mode": 5, "last": 1}),
            R("sizes", "options.cpp", ["limited", "not limited", "end"], params={"mode": 6}),
            R("shares", "options.cpp", ["share", "end"], params={"mode": 7})])

check("C28", bounds="every process number from 1 to 4194304; in the foreground and in the background (with and without keeping the output, with and without a terminal); no PID file before, or one of 0 to 24 arbitrary bytes; another server holding it or not; removed or left at the end; one failing open, write, short write, truncation or fork at any point of the start", outside="two servers starting at the same moment; a server ending while another starts; database paths shared without a PID file",
      runs=[R("start", "options.cpp", ["foreground", "background", "second server refused", "left", "removed", "end"], params={"mode": 8, "anypid": 1}),
            R("faults", "options.cpp", ["foreground", "background", "start refused", "end"], params={"mode": 8, "faults": 1}),
            R("two-faults", "options.cpp", ["foreground", "background", "start refused", "end"], params={"mode": 8, "faults": 2}, tiers=("thorough",))])

# ---------------------------------------------------------------- crashes and disk errors (harness/disk.cpp)
D_PUT, D_GET, D_DEL, D_DELT, D_SAVE, D_STOP, D_UP, D_LIST = 1, 2, 4, 8, 16, 32, 64, 512
def D(name, ops, q, t, reach=(), tables=("a",), keys=("x", "y"), sizes=(3, 4097), timeout=200, **params):
    tt = params.pop("tiers", ("quick", "thorough")); defs = params.pop("defs", ()); L = lambda n: "{" + ",".join('"%s"' % x for x in n) + "}"
    return R(name, "disk.cpp", ["done", "restarted"] + list(reach), params=dict(params, ops=ops), q={"steps": q}, t={"steps": t}, defs=defs, hdefs=["-DTABLES=" + L(tables), "-DKEYS=" + L(keys), "-DSIZES={" + ",".join(map(str, sizes)) + "}"], timeout=timeout, tiers=tt,
             bounds=f"every history of {q} (thorough {t}) operations; tables {', '.join(tables)}; keys {', '.join(keys)}; value sizes {', '.join(map(str, sizes))}")
KILL = ["killed", "hit", "none"]
check("C17", bounds="one kill (thorough two) before any file operation - of a request, of an index save in the same or in a forked process (with or without the parent surviving the child), of a clean stop or of the start-up - in every history of 2-4 operations, then a restart (itself killed in the thorough tier), one more operation, new values for all keys, a clean stop and another restart; what is in the page cache survives (a killed process, not a power failure)", outside="power failures (writes reordered or lost by the disk); longer histories",
      runs=[D("histories", D_PUT | D_DEL | D_SAVE, 3, 4, KILL + ["put", "delete", "save"], crashes=1),
            D("stops", D_PUT | D_DEL | D_SAVE | D_STOP, 4, 5, KILL + ["stopped", "save"], sizes=(4097,), crashes=1, each=0, crash_from=2),
            D("stops-small", D_PUT | D_DEL | D_STOP, 3, 4, KILL + ["stopped"], sizes=(3, 4097), crashes=1, each=0, crash_from=2),
            D("forked-save", D_PUT | D_DEL | D_SAVE, 2, 3, KILL + ["save"], crashes=1, fork_mode=1),
            D("save-in-process", D_PUT | D_SAVE | D_DEL, 2, 3, KILL + ["save"], crashes=1, defs=["-DDB_ENABLE_COPY_ON_WRITE=false"]),
            D("uploads", D_PUT | D_DEL | D_SAVE | D_UP, 2, 3, KILL + ["upload begins", "save"], crashes=1),
            D("tables", D_PUT | D_DELT | D_SAVE, 2, 3, KILL + ["delete table", "save"], tables=("a", "b"), keys=("x",), sizes=(3, 4097), crashes=1),
            D("twice", D_PUT | D_DEL | D_SAVE, 1, 2, KILL, crashes=2, sizes=(4097, 3))])
check("C18", bounds="one failing disk operation (thorough two) of any kind - open, write, a write of fewer bytes than asked, extend, rename, unlink, copy of the block file, flush, seek, read, fork, registration of a socket - at any point of every history of 2-3 operations, of a clean stop or of a start-up, then reads of every key after every step, new values for all keys, a clean stop and a restart", outside="persistent failures; longer histories; failing lseek at start-up",
      runs=[D("histories", D_PUT | D_DEL | D_SAVE, 3, 3, ["request failed", "put", "delete", "save", "hit"], faults=4095),
            D("downloads", D_PUT | D_GET, 3, 4, ["request failed", "put", "hit"], faults=4095, keys=("x",), sizes=(3, 4097, 9000)),
            D("stop-and-start", D_PUT | D_DEL | D_SAVE, 2, 3, ["request failed", "start refused", "hit"], faults=383, faults_start=1, faults_stop=1),
            D("uploads", D_PUT | D_DEL | D_SAVE | D_UP, 3, 3, ["request failed", "upload begins", "save", "hit"], faults=4095),
            D("tables-lists", D_PUT | D_GET | D_DELT | D_LIST | D_SAVE, 2, 3, ["request failed", "delete table", "hit"], tables=("a", "b"), keys=("x",), faults=4095, budget=2),
            D("two-faults", D_PUT | D_DEL | D_SAVE, 2, 3, ["request failed", "put", "hit"], faults=4095, budget=2),
            D("gc-each-put", D_PUT | D_DEL, 4, 5, ["request failed", "hit"], faults=4095, defs=["-DDB_LRU_EVERY=1"], keys=("x",)),
            D("fault-then-kill", D_PUT | D_DEL | D_SAVE, 2, 3, ["request failed", "killed", "hit"], faults=15, crashes=1, each=0, tiers=("thorough",))])
CHECKS["C09"]["runs"].append(D("restart", D_UP | D_PUT | D_SAVE | D_STOP, 3, 4, ["upload begins", "stopped", "save"], sizes=(3, 4097), keys=("x",)))
CHECKS["C09"]["bounds"] += "; a save, a clean stop and a restart while an upload is incomplete"

# ---------------------------------------------------------------- arbitrary bytes (harness/fuzz.cpp)
check("C05", bounds="connections starting with up to 6 arbitrary bytes, alone or followed by the rest of a request; 40 conversations with one arbitrary byte replaced or inserted anywhere (thorough: two, and delivered in two pieces or byte by byte), cut at every byte with the client closing or resetting, reading nothing more after 0-39 bytes; fields of 9 kinds filled with 9 kinds of bytes up to 17500 bytes (ring buffer of 16384) and of every length up to 40 around a ring buffer of 256; in names and paths 13 representative byte values", outside="other byte combinations; more than two arbitrary bytes in a conversation",
      runs=[R("start", "fuzz.cpp", ["end"], params={"mode": 0}, q={"len": 6}, t={"len": 6}),
            R("start-bytewise", "fuzz.cpp", ["end"], params={"mode": 0, "bytewise": 1, "fin": 1}, q={"len": 5}, t={"len": 6}),
            R("replace", "fuzz.cpp", ["end"], params={"mode": 1}),
            R("replace-split", "fuzz.cpp", ["end"], params={"mode": 1, "split": 1}, q={"from": 4, "to": 12}, t={"from": 0}),
            R("insert", "fuzz.cpp", ["end"], params={"mode": 2}),
            R("insert-half-closed", "fuzz.cpp", ["end"], params={"mode": 2, "fin": 1, "at_once": 1}, q={"from": 12, "to": 22}, t={"from": 0}),
            R("replace-two", "fuzz.cpp", ["end"], params={"mode": 1, "len": 2}, q={"from": 16, "to": 18}, t={"from": 0, "to": 29}),
            R("insert-two", "fuzz.cpp", ["end"], params={"mode": 2, "len": 2}, t={"from": 0, "to": 29}, tiers=("thorough",)),
            R("bytewise", "fuzz.cpp", ["end"], params={"mode": 1, "bytewise": 1}, tiers=("thorough",)),
            R("cut", "fuzz.cpp", ["end"], params={"mode": 3, "leaves": 1}),
            R("cut-at-once", "fuzz.cpp", ["end"], params={"mode": 3, "leaves": 1, "fin": 1, "at_once": 1}),
            R("cut-unread", "fuzz.cpp", ["end"], params={"mode": 3}, q={"blocked": 12}, t={"blocked": 100}),
            R("oversize", "oversize.cpp", ["served", "refused", "closed", "end", "done"], q={"from": 220, "count": 40}, t={"from": 10, "count": 300}, defs=["-DBUFFER_SIZE=256"]),
            R("long", "fuzz.cpp", ["end"], params={"mode": 4}),
            R("long-small-ring", "fuzz.cpp", ["end"], params={"mode": 4, "len_max": 40}, defs=["-DBUFFER_SIZE=256"])])

# ---------------------------------------------------------------- the monitoring port (harness/mon.cpp) and the accepting threads (harness/threads.cpp)
M_OPEN, M_MORE, M_TIME, M_STALL, M_LEAVE, M_SEND, M_CACHE = (1 << i for i in range(7))
def M(name, reach, q={}, t={}, **params):
    kw = {k: params.pop(k) for k in ("sched", "tiers", "timeout") if k in params}
    return R(name, "mon.cpp", ["end", "stop", "done"] + list(reach), params=dict(params, mon=1), q=q, t=t, **kw)
def MF(name, **params):
    tt = params.pop("tiers", ("quick", "thorough")); return R(name, "fuzz.cpp", ["end"], params=dict(params, mon=1), tiers=tt)
check("C22", bounds="up to 3 monitoring clients and one cache client; every sequence of 1-4 steps: a request (GET /, HEAD /, GET /conn, unknown path, wrong method, wrong URL, overlong method; whole or cut at every byte), a further request, 0-6 seconds passing (symbolic), a streaming client that takes only 0-2 more bytes or goes on reading, leaving by close, reset or shutdown, arbitrary bytes while streaming; steps one by one or several at once, ready events in any order; SIGALRM, SIGUSR1 or SIGCHLD at every access to a global variable or system call of the server during 1-2 steps; connections of up to 6 arbitrary bytes, 4 conversations with one byte replaced or inserted anywhere, long fields; a stream of 1100 records; stop with and without clients; a monitoring client among 50 cache clients", outside="a half-closing client whose output is stalled; more than 1100 records; longer sequences",
      runs=[M("answers", ["answer", "refused", "streaming", "second record", "left", "sent while streaming", "stalled client dropped"], clients=2, q={"steps": 3}, t={"steps": 4}),
            M("one-client", ["answer", "refused", "streaming", "second record", "left", "stalled client dropped"], clients=1, silent=1, q={"steps": 3}, t={"steps": 5}),
            M("cuts", ["rest", "streaming", "second record"], clients=1, cut=2, ops=M_OPEN | M_MORE | M_TIME, q={"steps": 3}, t={"steps": 4}),
            M("cuts-leave", ["rest", "left"], clients=1, cut=2, ops=M_OPEN | M_MORE | M_LEAVE, kinds=15, q={"steps": 2}, t={"steps": 3}),
            M("at-once", ["answer", "streaming", "left", "stalled client dropped"], clients=2, batch=1, q={"steps": 3}, t={"steps": 4}, timeout=120),
            M("two-streams", ["second record", "stalled client dropped", "resumed", "left"], clients=2, pre=2, kinds=1, ops=M_TIME | M_STALL | M_LEAVE, q={"steps": 4}, t={"steps": 5}, timeout=120),
            M("three-streams", ["second record", "stalled client dropped", "resumed", "left"], clients=3, pre=3, kinds=1, rotate=1, ops=M_TIME | M_STALL | M_LEAVE, q={"steps": 2, "apart": 1}, t={"steps": 3, "apart": 1}, timeout=120),
            M("three-streams-change", ["second record", "left", "streaming"], clients=3, pre=2, kinds=1, rotate=1, batch=1, ops=M_OPEN | M_TIME | M_LEAVE, q={"steps": 2}, t={"steps": 4}, timeout=120),
            M("signals", ["signal", "second record", "left"], clients=3, pre=3, kinds=1, sigs=1, ticking=1, batch=1, ops=M_TIME | M_STALL | M_LEAVE, q={"steps": 1}, t={"steps": 2}, sched=True, timeout=120),
            M("signals-two-steps", ["signal", "second record", "stalled client dropped"], clients=2, pre=1, kinds=1, ticking=1, ops=M_OPEN | M_TIME | M_STALL | M_LEAVE, q={"steps": 2, "sigs": 1}, t={"steps": 2, "sigs": 7}, sched=True, timeout=120),
            R("crowd", params={"clients": 50, "mons": 1, "mon": 1}, t={"clients": 100, "mons": 1, "mon": 1}, **CROWD),
            R("long-stream", "mon.cpp", ["long stream", "done"], params={"mon": 1, "long": 1100}),
            MF("bytes", mode=0, len=6), MF("replace", mode=1), MF("insert", mode=2, fin=1, at_once=1), MF("cut", mode=3, leaves=1, fin=1), MF("cut-unread", mode=3, blocked=100, tiers=("thorough",)), MF("long", mode=4)])

A_GET, A_PUT, A_MON, A_SILENT, A_GONE, A_STREAM = (1 << i for i in range(6))
def T(name, reach, q={}, t={}, **params):
    kw = {k: params.pop(k) for k in ("tiers", "timeout") if k in params}; kw.setdefault("timeout", 150)
    return R(name, "threads.cpp", ["done"] + list(reach), params=params, q=q, t=t, sched=True, **kw)
check("C21", bounds="1-3 clients (reading, storing, monitoring, silent, or gone before they are accepted), arriving one after the other or together at every symbolic point of the execution; up to 2 preemptions at every symbolic point between the two accepting threads and the serving thread, any thread running next; SIGTERM at every point; from the start of the process and in steady state; one refused accept(); 40 clients at once, one of which behaves differently. Points are every access to a global or volatile variable and every system call", outside="more preemptions, memory orders weaker than sequential consistency, failing allocation, exhausted descriptors (the server ends by design)",
      runs=[T("arrivals", ["arrives at a point", "served", "end"], clients=2, acts=A_GET | A_PUT | A_MON | A_GONE, q={"preempt": 1, "events": 1}, t={"preempt": 2, "events": 1}),
            T("three", ["arrives at a point", "served", "end"], clients=3, acts=A_MON, q={"preempt": 1, "events": 1}, t={"preempt": 2, "events": 1}),
            T("three-mixed", ["served", "end"], clients=3, acts=A_GET | A_MON, events=0, rotate=1, q={"preempt": 2}, t={"preempt": 3}),
            T("two-preemptions", ["arrives at a point", "served", "end"], clients=2, acts=A_GET, q={"preempt": 2, "events": 1}, t={"preempt": 3, "events": 1}),
            T("refused-accept", ["arrives at a point", "served", "end"], clients=2, acts=A_GET | A_MON, refusals=1, q={"preempt": 1, "events": 1}, t={"preempt": 2, "events": 1}),
            T("at-start", ["arrives at a point", "served", "end"], clients=1, acts=A_GET | A_MON, late=0, q={"preempt": 1, "events": 1}, t={"preempt": 2, "events": 1}),
            T("stop", ["stopped at a point", "arrives at a point"], clients=2, acts=A_GET | A_MON, stops=2, q={"preempt": 1, "events": 1}, t={"preempt": 1, "events": 2}),
            T("stop-at-start", ["stopped at a point", "killed before the start"], clients=1, acts=A_PUT | A_MON, late=0, stops=2, q={"preempt": 0, "events": 2}, t={"preempt": 1, "events": 2}),
            T("stop-streams", ["stopped at a point", "arrives at a point"], clients=2, acts=A_STREAM | A_SILENT, stops=2, mon=1, q={"preempt": 0, "events": 2}, t={"preempt": 1, "events": 2}),
            R("crowd", params={"clients": 40}, t={"clients": 100}, **CROWD)])
