#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of semantic properties)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=hook)))

p("C01", "GoPool runs every submitted function exactly once",
  "Every function passed to GoPool.Go while the pool is open is executed exactly once, eventually, without needing any later call to Go: no submission is lost or run twice, for any minlimit/maxlimit/queue limit with maxlimit >= 1 and queue limit >= 1, including when other submitted functions panic. When all submitted functions have finished, NumUnExecu is 0.",
  ["schedules", "configurations"],
  "every interleaving of submitting goroutines, the dispatcher and the workers, for every (minlimit, maxlimit, queue limit), every number of submissions and every subset of panicking functions",
  "gopool has only benchmarks that count nothing; the loss windows are a few instructions wide between the dispatcher's last look at the counter and its unlock.",
  ["pool/gopool/gopool.go"],
  [("TryLock-elected single dispatcher draining funcnPool", "pool/gopool/gopool.go:Go,funcn,_funcn"), ("worker re-queues itself, also after a panic", "pool/gopool/gopool.go:run,put")],
  [("tnum", "functions submitted and not yet dispatched", "GoPool.tnum"), ("funcnPool", "FIFO of submitted functions", "GoPool.funcnPool"), ("pool", "idle core workers", "GoPool.pool")],
  ["entry and return of GoPool.Go", "start and end of each submitted function", "quiescence"])
p("C02", "GoPool never runs more than maxlimit functions at once",
  "While a GoPool has never been closed or turned off, at most max(minlimit, maxlimit) of the functions submitted to it are running at any instant, and that limit is recovered after functions panic: a panicking function neither leaks nor frees more than its own slot.",
  ["schedules", "configurations"],
  "every interleaving of submitters, dispatcher and workers, every (minlimit, maxlimit), every subset of panicking functions",
  "No test measures concurrency in the pool at all.",
  ["pool/gopool/gopool.go"],
  [("in-flight counter compared with minlimit/maxlimit before creating a worker", "pool/gopool/gopool.go:_funcn"), ("put decrements once per dispatched function", "pool/gopool/gopool.go:put")],
  [("count", "functions dispatched and not yet finished", "GoPool.count"), ("id", "workers created", "GoPool.id")],
  ["start and end of each submitted function"])
p("C03", "GoPool.Close and TurnOff never drop an accepted function",
  "Functions accepted by Go before Close or TurnOff(true) are still executed exactly once, and functions submitted after either of them are executed exactly once too; Close may be called repeatedly and from several goroutines, and neither Close, TurnOff nor a Go call that overlaps Close makes the caller panic or hang.",
  ["schedules", "histories"],
  "every interleaving of Go, Close (once or more), TurnOff and the workers, with functions queued, dispatched, running or panicking at the moment of the close",
  "No test calls Close or TurnOff.",
  ["pool/gopool/gopool.go"],
  [("close flag makes Go start goroutines directly", "pool/gopool/gopool.go:Go,_funcn"), ("Close cancels the workers and closes the channels", "pool/gopool/gopool.go:Close,run,put")],
  [("close", "pool no longer schedules on workers", "GoPool.close"), ("_closeflag", "Close was called", "GoPool._closeflag")],
  ["Go, Close, TurnOff return", "start and end of each submitted function", "quiescence"])
p("C04", "Await hands a value to the waiter of its own id, in either order",
  "When one waiter at a time waits on an id (Wait, WaitWithCancel or SyncWait) and CloseAndPut(id, v) is called, at any moment from well within a second before the wait begins until well before its timeout, the wait returns v with a nil error; if instead Close(id) is called, it returns the zero value with a nil error. A wait never returns a value put for another id or a value already returned to another wait, also when ids are reused and when different ids share an internal lock. SyncWait calls Done on the WaitGroup it was given once it has registered and before it waits.",
  ["schedules", "histories"],
  "every interleaving of waiters and signallers over several ids, both arrival orders, reuse of ids immediately after a wait returned, every muxlimit >= 1",
  "TestAwait runs one waiter and one signaller, sleeps, and only logs the result.",
  ["lock/await.go", "lock/lock.go", "hashmap/map.go"],
  [("one buffered channel per id, created by whichever side looks first under the striped lock", "lock/await.go:Get"), ("bounded retry until the waiter registers", "lock/await.go:CloseAndPut,Close")],
  [("m", "id -> channel of the registered waiter", "Await.m")],
  ["call and return of Wait/WaitWithCancel/SyncWait/Close/CloseAndPut with virtual time"])
p("C05", "FastAwait hands a value to the waiter of its own id, in either order",
  "For an id that is waited on once, CloseAndPut(id, v) called at any moment from well within three seconds before the wait begins until well before its timeout makes that wait return v with a nil error, and Close(id) makes it return the zero value with a nil error; a wait never returns a value put for another id, and of several concurrent signals to one id exactly one is delivered. Signals for ids that were never put to sleep and already completed return without waiting the whole retry period.",
  ["schedules", "histories"],
  "every interleaving of waiters and signallers over several ids, both arrival orders, several signallers of the same id",
  "TestFastAwait runs one waiter and one signaller, sleeps, and only logs the result.",
  ["lock/fastawait.go", "cache/bloom.go", "hashmap/map.go"],
  [("buffered channel registered before waiting", "lock/fastawait.go:Wait"), ("bounded retry unless the id is known to be finished", "lock/fastawait.go:CloseAndPut,isDel")],
  [("db", "id -> channel of the registered waiter", "FastAwait.db"), ("bf", "ids that are finished", "FastAwait.bf")],
  ["call and return of Wait/WaitWithCancel/Close/CloseAndPut with virtual time"])
p("C06", "Await/FastAwait waits end on time, and leave nothing behind",
  "A wait with a positive timeout always returns: with an error not before its timeout has elapsed if no signal arrived, and WaitWithCancel returns isCancel=true with an error once its context is cancelled, for every timeout value including zero. When a wait has returned, for whatever reason, nothing stays registered for its id (Has is false), and a signal that arrives later or at the same moment returns within its retry period without panicking or blocking its caller.",
  ["schedules", "fault_sequences"],
  "every interleaving of timeout, cancellation, Close, CloseAndPut and the wait itself",
  "Tests never cancel, and never look at what is left after a timeout.",
  ["lock/await.go", "lock/fastawait.go"],
  [("select over timer, context and channel, with deferred removal", "lock/await.go:Wait,WaitWithCancel,SyncWait; lock/fastawait.go:Wait,WaitWithCancel"), ("recover around sends to a closed channel", "lock/lock.go:recoverpanic")],
  [("m / db", "registered waiters", "Await.m, FastAwait.db")],
  ["return values, virtual time of return, Has(id) afterwards"])
p("C07", "Numlock excludes per key and never self-blocks or leaks",
  "Between a successful Lock or TryLock of a key and the matching Unlock (through Numlock.Unlock(key) or the returned mutex) no other Lock or TryLock of the same key succeeds, for every int64 key including negative ones and every muxNum >= 1. TryLock never blocks and succeeds whenever no key is held, and a Lock waiting for a key proceeds once it is released.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of Lock/TryLock/Unlock of several goroutines, every int64 key, every muxNum",
  "Only exercised indirectly through Await, with one waiter.",
  ["lock/lock.go"],
  [("key modulo muxNum selects one of muxNum mutexes", "lock/lock.go:Numlock.Lock,TryLock,Unlock")],
  [("lockm", "stripe -> mutex", "Numlock.lockm")],
  ["return of Lock/TryLock/Unlock"])
p("C08", "Strlock is a reader-writer lock per string key",
  "For every string key (also empty) and every muxNum >= 1: a writer (Lock, successful TryLock) excludes all other writers and readers of the same key until Unlock, readers (RLock, successful TryRLock) of a key can hold it together and exclude writers until the last RUnlock, and the returned RWMutex is the one that was locked. TryLock and TryRLock never block, succeed when no key is held, and blocked callers proceed once the conflicting holders released.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the six operations over several keys and goroutines",
  "No test uses Strlock.",
  ["lock/lock.go", "util/encode.go"],
  [("hash(key) modulo muxNum selects one of muxNum RWMutexes", "lock/lock.go:Strlock")],
  [("lockm", "stripe -> RWMutex", "Strlock.lockm")],
  ["return of the six operations"])
p("C09", "LimitLock admits at most limit holders and times out cleanly",
  "At most `limit` callers hold a LimitLock at any instant; Lock returns an error only after `timeout` has elapsed since the call, and then occupies no slot, and a Lock waiting while a slot is freed before its timeout gets it. LockCount equals the number of successful Locks, and when no call is in progress Cc equals the number of current holders.",
  ["schedules", "configurations"],
  "every interleaving of Lock, Unlock and timeouts of several goroutines, every limit >= 1 and timeout",
  "No test uses LimitLock.",
  ["lock/lock.go"],
  [("buffered channel of capacity limit raced against a timer", "lock/lock.go:LimitLock.Lock,Unlock")],
  [("ch", "occupied slots", "LimitLock.ch"), ("count/_count", "acquisitions and releases", "LimitLock")],
  ["return of Lock/Unlock with virtual time", "Cc and LockCount"])
p("C10", "Map and MapL are linearizable maps with exact length",
  "Put, Get, Has and Del of Map and MapL take effect atomically between call and return as operations of one map: Put reports the previous value, Del reports whether the key was present, and values round-trip including nil interface values. Range visits every key that is present throughout with its value and stops when told, and whenever no call is in progress MapL.Len is the number of keys in the map.",
  ["schedules", "inputs", "histories"],
  "every interleaving of concurrent calls on overlapping keys, every key and value including nil values of interface type",
  "No test asserts anything on Map or MapL.",
  ["hashmap/map.go"],
  [("sync.Map with Swap/LoadAndDelete results deciding the counter", "hashmap/map.go:MapL.Put,Del")],
  [("len", "number of keys", "MapL.len")],
  ["return values", "Len at quiescence"])
p("C11", "LimitMap never exceeds its capacity and evicts the least recently put",
  "A LimitMap of capacity c >= 1 never holds more than c entries, in every history and schedule. Operations behave atomically as a map in which inserting a new key into a full map evicts exactly the entry whose last Put is oldest and nothing else; a Put of a present key returns and replaces its value and refreshes it, Get and Len change nothing, and Del and RemoveMulti remove exactly the given keys.",
  ["schedules", "histories", "configurations"],
  "every sequence and interleaving of Put/Get/Del/RemoveMulti/Len for every capacity",
  "TestLimitMap stores fewer entries than the capacity and asserts nothing.",
  ["hashmap/limitmap.go"],
  [("map plus recency list under one RWMutex", "hashmap/limitmap.go:Put")],
  [("cache/order", "entries and their put order", "LimitMap")],
  ["return values", "Len"])
p("C12", "LimitHashMap is a bounded map that never mixes up keys",
  "A LimitHashMap of capacity c >= 1 never holds more than c entries, whatever c and the number of segments. Get returns the value of the last Put of exactly that key (for every supported key type, values including nil interface values) or reports it absent, never another key's value; an entry disappears only through Del, Clear or the eviction, by a Put of a new key into a full segment, of that segment's earliest inserted entry. Concurrent Put, Get, Del and Contains are atomic; Clear and Len act on one segment at a time.",
  ["schedules", "histories", "inputs", "configurations"],
  "every sequence and interleaving of Put/Get/Del/Contains/Clear/Len, every key of the fourteen key types, every capacity and segment count",
  "TestLimitHashMap uses one int64 map below capacity and asserts nothing.",
  ["hashmap/limithashmap.go"],
  [("hash selects a segment with its own lock, map and insertion list", "hashmap/limithashmap.go:getSegment,Put"), ("per-type hash function", "hashmap/limithashmap.go:NewLimitHashMapWithSegment")],
  [("segments", "segment -> entries in insertion order", "LimitHashMap.segments")],
  ["return values", "Len"])
p("C13", "LinkedHashMap keeps put order, its limit and its length",
  "A LinkedHashMap with limit n >= 1 behaves atomically as a map whose entries are ordered from newest to oldest put: Put moves a key to the front and replaces its value, MoveToFront moves it, inserting a new key beyond the limit evicts exactly the oldest entry, and Len, Front, Back, Get and Delete agree with that order (to Get alone, which takes no lock, an entry being evicted may stay visible until the evicting call returns). LoadOrStore returns the present value with loaded=true and keeps it, or stores and returns the given value with loaded=false; an iterator yields all entries in order, in both directions, also when entries already yielded are deleted meanwhile.",
  ["schedules", "histories", "configurations"],
  "every sequence and interleaving of all operations for every limit",
  "TestLinkedHashMap prints the result of one fixed sequence.",
  ["hashmap/linkedhashmap.go"],
  [("doubly linked list and index updated under one mutex; lock-free Get", "hashmap/linkedhashmap.go")],
  [("list", "entries newest first", "LinkedHashMap.list"), ("count", "number of entries", "LinkedHashMap.count")],
  ["return values", "iteration in both directions"])
p("C14", "TreeMap is a linearizable sorted map",
  "Put, Get and Del of TreeMap take effect atomically as operations of one map, Put reporting the previous value; Ascend and Descend visit every entry exactly once in strictly increasing, respectively decreasing, key order from one consistent snapshot, and stop as soon as the callback returns false, for every key type, tree degree >= 2 and size.",
  ["schedules", "histories", "configurations"],
  "every sequence and interleaving of the five operations, every degree and key set",
  "Test_treeMap inserts a handful of keys and prints them.",
  ["hashmap/treemap.go"],
  [("B-tree under an RWMutex", "hashmap/treemap.go")],
  [("tree", "entries ordered by key", "TreeMap.tree")],
  ["return values", "visited sequences"])
p("C15", "Consistenthash routes deterministically with minimal disruption",
  "Get and GetStr return, for a non-empty node set, a member of that set that depends only on the key, the replica count and the current set of nodes, not on the history of Add and Del; for an empty set, also one emptied by Del, they return ok=false. Adding a node moves keys only to it and deleting a node moves only the keys it owned; GetNextNodeStr(value, step) returns the first min(step, n-1) distinct other nodes after the owner on the ring, and Nodes returns exactly the current set.",
  ["histories", "inputs", "schedules"],
  "every history and interleaving of Add and Del (repeated, empty, to exhaustion), every key and replica count >= 1",
  "No test uses Consistenthash.",
  ["hashmap/consistenthash.go"],
  [("sorted ring of virtual points, binary search with wrap-around", "hashmap/consistenthash.go:Get,GetStr,GetNextNodeStr"), ("ring rebuilt on Del", "hashmap/consistenthash.go:Del")],
  [("keys", "sorted virtual points", "Consistenthash.keys"), ("_m", "current nodes", "Consistenthash._m")],
  ["return values"])
p("C16", "LruCache is a bounded, linearizable LRU map",
  "An LruCache with maxEntries n >= 1 never holds more than n entries and operations take effect atomically: Add inserts or replaces and makes the key most recent, a successful Get returns the last added value (nil included) and makes it most recent, Remove and RemoveMulti drop exactly the given keys, and an Add beyond n evicts exactly the least recently used entry.",
  ["schedules", "histories", "configurations"],
  "every sequence and interleaving of Add/Get/Remove/RemoveMulti, every maxEntries",
  "Only benchmarks exist, asserting nothing.",
  ["cache/lrucache.go"],
  [("groupcache LRU under one mutex (Get mutates recency)", "cache/lrucache.go")],
  [("cache", "entries by recency", "LruCache.cache")],
  ["return values"])
p("C17", "BloomFilter has no false negative for the last expectedItems items",
  "After Add(x) returned, Contains(x) is true until at least expectedItems further Adds have been started (those that ran at the same time as Add(x) count), whatever the order and interleaving of Adds and Contains and however often the filter has rotated, and neither call panics or hangs; a filter to which nothing was added contains nothing, and items stop being reported after rotations so that the filter does not saturate (after 3*expectedItems+1 further distinct Adds almost all old items are gone).",
  ["schedules", "histories", "configurations"],
  "every interleaving of concurrent Adds and Contains, every length of history across rotations, every expectedItems >= 1 and false positive rate in (0,1)",
  "Test_bf adds 31 items sequentially and only prints misses; FastAwait relies on the filter concurrently.",
  ["cache/bloom.go"],
  [("three rotating bit arrays: current, previous and cleared", "cache/bloom.go:getBitIndex"), ("bit set/test in current or previous", "cache/bloom.go:setBit,testBit")],
  [("bits", "three generations of bits", "BloomFilter.bits"), ("numCount", "number of Adds", "BloomFilter.numCount")],
  ["Add/Contains returns"])
p("C18", "fastio appends every write whole, once, at the reported offset",
  "When every Write and WriteSync of a fastio File has returned successfully and the file is then closed, the file holds its original content followed by the data of each call exactly once and contiguously, in an order in which a call that returned before another started comes first. WriteSync returns the offset at which its data starts, with that data readable through ReadAt on return; Write does not depend on the caller's slice after it returned, every call returns the number of bytes accepted, and WriteAt on an opened file writes at the given position.",
  ["schedules", "histories", "inputs"],
  "every interleaving of concurrent Write and WriteSync calls of any sizes, followed by Close at any time after they returned",
  "fastio has no tests.",
  ["fastio/file.go", "fastio/fw.go"],
  [("first caller writes directly, later ones queue and one of them drains the queue through a buffered writer", "fastio/fw.go:Write,WriteSync,ioWrite")],
  [("ch/wc", "queued writes", "mwriter"), ("offset", "logical end of file", "fileHandle.offset"), ("ioend", "a drain is in progress", "mwriter.ioend")],
  ["return values", "file content after Close"])
p("C19", "fastio reports write errors and never wedges",
  "When the underlying file fails a write (no space, closed, short write), the WriteSync calls whose data did not reach the file completely return an error, and a Write that returned success before is reported by a later Write, WriteSync or Close; no call blocks forever, neither the failing one nor any later one, and a later write succeeds if the file works again.",
  ["fault_sequences", "schedules"],
  "every position and kind of write failure under every interleaving of concurrent writers",
  "fastio has no tests; no test injects I/O errors.",
  ["fastio/file.go", "fastio/fw.go"],
  [("error returns of direct and drained writes", "fastio/fw.go:Write,WriteSync,ioWrite")],
  [("mu/ioend", "drain ownership", "mwriter")],
  ["return values", "quiescence"])
p("C20", "Mmap appends occupy disjoint ranges inside the file",
  "Concurrent Append and AppendSync calls return disjoint offsets, contiguous from startOffset, and bs is found in the file and in Bytes at the returned offset; a call that does not fit returns an error and changes nothing. WriteAt and WriteAtSync write exactly their range, inside the file only, and push the append position behind it; no call changes the file size, and after Close, Unmap or a Sync call the file contains the bytes.",
  ["schedules", "inputs", "histories"],
  "every interleaving of Append/AppendSync/WriteAt/WriteAtSync with any lengths (zero and exact fit included) and offsets",
  "mmap has no tests.",
  ["mmap/mmap.go", "mmap/sync_unix.go"],
  [("range reservation under a mutex, copy outside it", "mmap/mmap.go:Append,WriteAt")],
  [("offset", "append position", "Mmap.offset")],
  ["return values", "Bytes and file content"])
p("C21", "Buffer is a byte FIFO that honours the io contracts",
  "A Buffer returns through Read exactly the bytes written, in order, each once, and io.EOF when nothing is left and the destination is not empty; every write method appends exactly its bytes (WriteInt32: 4 bytes, big endian) and returns their number and leaves its argument unchanged. Len, Bytes and String reflect the unread content, Reset empties it, and the write methods, Bytes, String, Read and Free of a nil Buffer do not panic.",
  ["histories", "inputs"],
  "every sequence of writes, reads of any size, resets, on buffers from any constructor",
  "Package buffer has no tests.",
  ["buffer/buffer.go"],
  [("append to and re-slice of the backing slice", "buffer/buffer.go:Write,Read")],
  [("*Buffer", "unread bytes", "buffer.Buffer")],
  ["return values"])
p("C22", "Object pools hand out reset objects to one owner at a time",
  "An object obtained from a pool (pool/buffer.NewPool, pool/buffer.BufferPool, buffer.NewBufferByPool) is reset and never handed to a second caller until it was put back, in every interleaving of gets and puts; Put clears the caller's pointer and returns false exactly for nil, and Get never returns nil for any requested size.",
  ["schedules", "histories"],
  "every interleaving of Get/Put/Free by several goroutines, every size and pool size >= 1",
  "The pool packages have no tests.",
  ["pool/buffer/pool.go", "pool/buffer/buffer.go", "buffer/buffer.go"],
  [("sync.Pool plus reset on Get", "pool/buffer/pool.go:Get,Put; pool/buffer/buffer.go:Get,Put")],
  [("pool", "idle objects", "pool.pool")],
  ["identity and content of objects returned by Get"])
p("C23", "KeyStore returns exactly what was last written, across reopen and crash",
  "KeyStore.Read returns exactly the bytes of the last completed Write, for every content and size and also when it is shorter than the previous one, from the same handle, a second handle or after reopening, and concurrent Reads and Writes behave atomically. If the process dies at any point during Write, a reopened store still returns the content of either that Write or the previous one.",
  ["inputs", "histories", "schedules", "crash_points"],
  "every content and sequence of Writes, every interleaving with Reads, every point between or inside the file operations of a Write at which the process may die",
  "KeyStore has no test at all.",
  ["keystore/bin.go", "util/compress.go", "util/encode.go"],
  [("whole-file replacement of the compressed content under a mutex", "keystore/bin.go:Write,Read")],
  [("file", "compressed content", "_keyStore.fname")],
  ["Read results", "file content at crash points"])
p("C24", "StoreAdmin is a durable, linearizable credential map",
  "The admin, client, mq and other tables of a StoreAdmin are independent maps whose Put, Get, Del and List operations take effect atomically under concurrency, and each Put and Del is durable on return: a new StoreAdmin that Loads the same KeyStore sees exactly the same tables. User entries keep the name, type and MD5 digest (upper-case hex, as util.Md5Str) of the password, never the password itself, and Load of an empty or missing store yields empty tables.",
  ["histories", "schedules", "crash_points"],
  "every sequence and interleaving of the operations on the four tables, with reloads at every point",
  "StoreAdmin has no test.",
  ["keystore/keystore.go", "keystore/store.go", "keystore/bin.go"],
  [("in-memory bean written through on each change under a mutex", "keystore/keystore.go"), ("thrift encoding of the bean", "keystore/store.go")],
  [("kb", "the four tables", "storeAdmin.kb")],
  ["return values", "tables after Load"])
p("C25", "AES and RSA helpers decrypt what they encrypted, and nothing else breaks",
  "Decrypting with the same keys returns exactly the encrypted message, for every message (every length, also empty), key and iv string; a different AES key or iv never yields the message; encryption leaves the caller's message buffer, including its spare capacity, unchanged. Malformed ciphertext, keys or key files make the functions return an error instead of panicking or returning neither data nor error.",
  ["inputs", "histories"],
  "every message, key, iv and ciphertext, in any sequence on a shared Aes value",
  "TestAES and TestKey print one result each.",
  ["keystore/aes.go", "keystore/key.go"],
  [("CBC with PKCS#7 padding", "keystore/aes.go:EncrypterCbc,DecrypterCbc"), ("RSA PKCS#1 v1.5", "keystore/key.go")],
  [], ["return values", "caller's buffers"])
p("C26", "Every compressor round-trips and never passes off damaged data as intact",
  "For every codec of packages compress and util (zlib with and without level, gzip, snappy, zstd with and without level) decompressing the compressor's output with the matching function returns exactly the input, for every input including empty, and the input is unchanged; a result stays what it is when the functions are called again, also concurrently. Truncated (to one byte or more) or checksum-damaged zlib, gzip and zstd data is never returned as a success with different content.",
  ["inputs", "fault_sequences"],
  "every input and level, every truncation point and damaged checksum byte",
  "TestZlib and Test_Gzip print one result each; package compress has no tests.",
  ["compress/compress.go", "util/compress.go"],
  [("compressor closed before its output is taken", "compress/compress.go:Zlib,ZlibLevel,Gzip; util/compress.go:Zlib,Gzip"), ("decompressor errors returned", "compress/compress.go:UnZlib,UnGzip; util/compress.go:UnZlib,UnGzip")],
  [], ["return values"])
p("C27", "UUIDs are unique, well formed and round-trip",
  "UUIDs generated in one process, by any number of goroutines, are pairwise distinct, have version 4 and the RFC 4122 variant, and Parse(u.String()) yields a UUID with the same bytes that Equals the original; Equals holds exactly for equal bytes, and Version and Variant report the bits of the UUID, Int64 is the big-endian number of its first eight bytes and Base58 the encoding of that number. String has the canonical 8-4-4-4-12 form, and Parse rejects every string that is not of that form.",
  ["schedules", "inputs", "histories"],
  "every interleaving of generators, every UUID value, every string",
  "Test_UUID_UNI samples uniqueness of one goroutine; nothing checks Equals or Parse.",
  ["uuid/uuid.go"],
  [("atomic sequence number embedded in the low 62 bits", "uuid/uuid.go:NewUUID,getSeq"), ("fixed layout formatting and parsing", "uuid/uuid.go:String,Parse")],
  [("seq", "last sequence number issued", "localbase.seq")],
  ["generated values"])
p("C28", "Websocket handler delivers each message and closes once",
  "NewHandler either returns an error and runs no callback (nothing reachable, handshake refused, invalid URL, unusable certificates, or a server whose certificate is not signed by the given CertFiles or CertBytes), or a Handler, after having run OnOpen exactly once and before any other callback. Each message the peer sends before it ends the connection is passed to OnMessage exactly once and unmodified as long as neither side aborts the connection; each Send that succeeds, concurrent ones included, arrives at the peer as exactly one intact message. Once Close has returned, or OnError or OnClose has begun, Send returns an error and Error is non-nil; after Close or the end of the connection OnError (with a non-nil error) and OnClose each run exactly once, and neither runs while the connection is alive. After the end the connection itself is closed, as the peer can see.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of sends, received messages, local Close and peer close",
  "Package websocket has no tests.",
  ["websocket/wshandle.go"],
  [("send mutex", "websocket/wshandle.go:sendws"), ("single read loop ending in Close and OnClose", "websocket/wshandle.go:read")],
  [("err", "reason the handler ended", "Handler.err")],
  ["callbacks", "Send results", "messages seen by the peer"])
p("C29", "Signal listener fires once, for a listed signal only",
  "After ListenSignalEvent(f, sigs...) returned, the first delivery of any of the listed signals calls f exactly once with that signal, without blocking the caller of ListenSignalEvent; signals that are not listed never call f, and several listeners each receive their own call. From the return on, deliveries of the listed signals, later ones included, no longer have their default effect on the process.",
  ["histories", "schedules"],
  "every sequence of listed and unlisted signals and listeners",
  "Package gosignal has no tests.",
  ["gosignal/gosignal.go"],
  [("buffered notify channel registered before return", "gosignal/gosignal.go")],
  [], ["calls of f"])
p("C30", "HTTP post helpers transmit the request and return the whole reply",
  "Post, Post2 and Post3 send exactly one POST request over one new connection, to the URL, carrying exactly the given body bytes, headers and cookie, and ask the server to close the connection when told to; for a reply that is not a redirect they return the complete response body with a nil error, whatever its size and status. If nothing was reached, the URL or a header is invalid, the exchange fails or the reply is cut short, they return an error and no body. The arguments are left unchanged, and calls in parallel do not disturb each other.",
  ["inputs", "fault_sequences"],
  "every body, header set, cookie, reply and point of failure",
  "Package httpclient has no tests.",
  ["httpclient/post.go"],
  [("request built per call on a fresh transport; reply read to the end", "httpclient/post.go:Post3")],
  [], ["request seen by the server", "return values"])
p("C31", "Integer, base58, gob, json and thrift encodings are faithful",
  "Decoding returns exactly the encoded value: the int16/32/64 and int64-array conversions (big endian; shorter inputs are read as left-padded, longer ones from their front), base58 of every uint64 (and decoding rejects every byte outside its alphabet), and util's and thrift's JSON, gob, protobuf and thrift codecs. Distinct values have distinct encodings, and decoding damaged or truncated thrift, gob or JSON data returns an error or a value without panicking.",
  ["inputs"],
  "every value and every byte string",
  "Test_int64Tobs covers 998 small positive values; base58 and thrift have no tests.",
  ["util/num.go", "base58/base58.go", "util/gob.go", "util/protobuf.go", "thrift/serialize.go"],
  [("byte-wise shifts", "util/num.go"), ("repeated division", "base58/base58.go")],
  [], ["return values"])

p("C32", "Digests, dates, files and small helpers of util compute what they name",
  "CRC8 (polynomial 7), CRC32 (IEEE), CRC64 (ECMA), FNV-1a 32 and 64, MD5, SHA-1 and BLAKE2b-256 return the value the algorithm defines for every input (Md5Str and Sha1Str in upper-case hex), leave the input alone and do not depend on what other goroutines compute; Hash64 depends on the content only, UUID64 values are distinct and a UUID's Base58 decodes to its Int64. RandUint(n) and RandInt64Strict(n) return values from 0 to n-1 and can return each of them. StrToTimeFormat yields the instant of a valid 'YYYY-MM-DD hh:mm:ss' in Shanghai time (asked from 1992 on; one-digit hours, more spaces and fractions of a second are left open) and an error for anything else; Concat and StringToSlice keep every byte; MatchString tells whether the pattern matches, false when it is invalid; IsFileExist and ReadFile tell of and return exactly the file at a path, through symbolic links, and an error when there is none; Recover turns a panic into an error with its message (or swallows it for a nil pointer) and leaves the error alone otherwise; CheckGzipType accepts gzip headers only.",
  ["inputs", "histories", "schedules"],
  "every input of every length, every date, every history of files, goroutines in parallel",
  "util_test.go prints a few results; no test compares a digest, a date or a file with a known value.",
  ["util/encode.go", "util/compress.go", "fast/fast.go", "uuid/uuid.go"],
  [("crc8 table and hash constructors", "util/encode.go:CRC8,CRC64,FNVHash32,FNVHash64,MD5,SHA1,Blake2b"), ("range of random numbers", "util/encode.go:RandUint,RandInt64Strict"), ("fixed layout and location", "util/encode.go:StrToTimeFormat"), ("memory-mapped read copied before it is unmapped", "util/encode.go:ReadFile")],
  [("files", "what each file holds", "the file system")],
  ["return values"])

p("C33", "Image processing yields the pixels, sides and format that were asked for",
  "Encode applies its options in the order crop (CropAnchor, then CropSide), ScaleUpper, ScaleLower, resize, gray, invert, rotate, flip, blur, and writes the asked Format, or the source's when none or an unsupported one is asked. Without resampling the pixels are exactly those of the source at their new places (lossless formats): crops are cut off or moved to stay inside the image, Rotate turns by multiples of 90 degrees counter-clockwise, Invert and Gray map every pixel; resampling leaves an image of one colour as it is. The sides keep the image's ratio to within a pixel: Mode0 gives the largest that fits the long and short side (never enlarged), Mode1 and Mode5 exactly the asked box as far as the image is that large (width and height, long and short side), Mode2 to Mode4 the smallest that covers it, ScaleUpper covers and ScaleLower fits its box, with at most the given number of pixels. Data that is no image comes back unchanged. QualityByBinary keeps format and sides, and the pixels of lossless formats; ResizeGIF keeps frames, delays, disposals and loop count. No call changes its input or an earlier result, also when calls run in parallel.",
  ["inputs", "histories", "schedules"],
  "every image, format, combination of options and sides, every sequence of steps each applied to the result of the one before, goroutines in parallel",
  "Package image has no test at all, and the build leaves it out.",
  ["image/image.go", "image/adjust.go"],
  [("pipeline", "image/image.go:Encode"), ("sides of the modes", "image/image.go:praseMode,getMinAndkeepRatio,getMaxAndkeepRatio,getSideByThubnail"), ("crops and scales", "image/adjust.go"), ("frame-wise resizing on one canvas", "image/image.go:resizeGIF")],
  [],
  ["decoded results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
