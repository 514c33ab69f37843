import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
MR="gogenerics/gconcurrent/mr/mr.go"; SM="gogenerics/gconcurrent/sync/map.go"
LRU="library/cachex/lrucache.go"; FS="library/cachex/file.go"; CH="library/cachex/cache.go"; BS="library/bitset/bitset.go"
p("M01","sync.Map: operations on each key are linearizable",
 "However many goroutines call Load, Store, Swap, LoadOrStore, LoadAndDelete, Delete, CompareAndSwap and CompareAndDelete on one map, the results seen for each key are those of some one-at-a-time order of the calls that respects real time and starts from an absent key. CompareAndSwap and CompareAndDelete take effect, and report true, exactly when the key is present with a value equal to the given old value. No call panics, blocks forever or takes part in a data race.",
 ["schedules","histories"],"every interleaving of every mix of the eight operations by any number of goroutines, including interleavings through promotion, expunging and resurrection of keys",
 "The tests copied from the standard library use a handful of goroutines under the real scheduler; the windows between the fast path and the locked slow path (promotion, expunge, resurrect) are a few instructions wide, and CompareAndSwap/CompareAndDelete are never called with a mismatching old value under contention.",
 [SM],[("atomically published read-only map + mutex-guarded dirty map","Map.read, Map.dirty, Map.mu"),("per-entry atomic pointer with nil/expunged states","entry.p, tryExpungeLocked, unexpungeLocked"),("promotion after enough misses","missLocked")],
 [("Map.read/dirty/misses","two-level map state","map.go"),("entry.p","value, nil (deleted) or expunged","map.go")],["return values of the eight operations"])
p("M02","sync.Map: Range visits what it must, at most once, with values that were there",
 "During a Range call the function is called at most once per key; it is called for every key that is present throughout the call (unless the function returned false, after which it is not called again) and never for a key that is absent throughout the call, and each value it receives was the key's value at some moment of the call. The function may itself call any method of the map without deadlock, and concurrent Range calls disturb neither each other nor other operations.",
 ["schedules","histories"],"every interleaving of Range with writers, deleters and other Ranges, and every callback that itself mutates the map",
 "Range racing with promotion, deletion and re-insertion of the keys it is about to visit is only sampled by one stress test that checks a single invariant.",
 [SM],[("promotion of the dirty map at the start of Range","Map.Range"),("iteration over an immutable key set with atomic loads","Map.Range, entry.load")],None,["calls of the Range callback"])
p("R01","mr: every item mapped once, every output reduced once, within the worker bound",
 "When nothing cancels, panics or expires, MapReduce and MapReduceChan call the mapper exactly once for each generated item, with at most the configured number of mappers (default 16, at least 1) running at any moment, deliver every value written by a mapper to the reducer's pipe exactly once and then close the pipe, and return the one value the reducer wrote, or ErrReduceNoOutput if it wrote none, also when the reducer stops reading early. ForEach likewise calls its function exactly once for each generated item within the worker bound. All these calls return only after every mapper call, and the reducer, have returned.",
 ["schedules","configurations","inputs"],"every schedule of generator, workers, reducer and caller; every number of items, outputs per item and workers; mappers that block or sleep",
 "The package has no test that counts deliveries under controlled schedules; conservation between unbuffered and buffered channels and a worker pool depends on the interleaving.",
 [MR],[("semaphore channel bounding workers","executeMappers pool"),("WaitGroup before closing collector","executeMappers defer"),("drain of collector after reducer","mapReduceWithPanicChan")],None,["calls of the user's mapper and reducer","returned value and error"])
p("R02","mr: cancellation and context expiry are reported, success is never invented",
 "If a mapper or reducer calls cancel before the call has finished, MapReduce, MapReduceChan and MapReduceVoid return the error of the first cancel call (ErrCancelWithNil when it was called with nil), and if the context ends and nothing cancels they return context.DeadlineExceeded or the result of the complete processing. A nil error is returned only if every generated item was mapped and every mapper output was delivered to the reducer. After cancellation or context expiry the generator is never left blocked on sending: its remaining items are consumed, and the call then returns without waiting for mappers or a reducer still running.",
 ["schedules","fault_sequences","configurations"],"cancel calls and context cancellation/deadline placed at every point of the schedule, concurrent with outputs, other cancels and completion",
 "Needs a cancel or deadline landing inside specific windows (between the done check and a send, while the reducer writes, after the last item); tests trigger cancel at one convenient moment only.",
 [MR],[("once-only cancel recording the error","cancel, once, AtomicError"),("done channel closed on cancel","finish"),("drain(source) on cancel","cancel")],None,["returned error","items the generator managed to send"])
p("R03","mr: a panic in user code surfaces in the caller, whatever the timing",
 "If the generator, a mapper or the reducer panics (with a value other than nil) and the call has not been cancelled and its context has not ended, then MapReduce, MapReduceChan, MapReduceVoid, ForEach, Finish and FinishVoid panic in the calling goroutine with one of the panic values; the panic is never swallowed, never crashes the process from another goroutine and never leaves the caller hanging. With cancellation or context expiry in play the call may instead report that error. A reducer that writes more than one value makes the call panic instead of returning a value.",
 ["schedules","fault_sequences"],"panics injected at any point of the generator, any mapper, the reducer, alone or several at once, before, during and after the other parties finish",
 "Where a panic lands relative to the other goroutines finishing decides which select branch the caller takes; the tests panic at one fixed point.",
 [MR],[("recover in each goroutine, first value handed to caller","onceChan, executeMappers, buildSource"),("re-panic in the caller","mapReduceWithPanicChan, ForEach")],None,["panic observed by the caller","process survival"])
p("R04","mr: every call terminates and leaves no goroutine behind",
 "Provided the user's own functions return and the generator or source channel ends once its items are consumed, every MapReduce, MapReduceChan, MapReduceVoid, ForEach, Finish and FinishVoid call returns (or panics), and shortly afterwards no goroutine started by the call remains blocked. This holds for every combination of cancellation, context expiry, panics, early-returning reducers, repeated writes and any number of workers.",
 ["schedules","fault_sequences","configurations"],"all schedules and all placements of cancel, context end, panic and early return; liveness is judged when the whole simulated system is quiescent",
 "A leaked goroutine or rare deadlock is invisible to a test that only looks at results, and a test cannot enumerate the schedules that cause one.",
 [MR],[("done/ctx guards around channel sends","guardedWriter.Write"),("drains of source and collector","drain, executeMappers, cancel"),("panic hand-over channel","onceChan")],None,["goroutines alive at quiescence","return of the call"])
p("R05","mr: Finish, FinishVoid and MapReduceVoid run everything and report faithfully",
 "Finish returns nil only if every function was run exactly once and returned nil; otherwise it returns, unchanged, the error of one of the functions that failed, and no function is ever run twice. FinishVoid returns only after every function has been run exactly once and has returned. Both let all their functions run at the same time, and MapReduceVoid returns the very error passed to cancel, whatever that error is or wraps.",
 ["schedules","fault_sequences","inputs"],"every schedule; any subset of functions failing with any error (including the package's own sentinel errors), functions that depend on each other running concurrently",
 "The error chosen and the functions skipped depend on the schedule; tests use one failing function and errors unrelated to the package's sentinels.",
 [MR],[("built on MapReduceVoid/ForEach with one worker per function","Finish, FinishVoid"),("mapping of the no-output sentinel","MapReduceVoid")],None,["returned error","calls of the functions"])
p("L01","LRUCacheV2: concurrent single and batch operations act atomically",
 "Concurrent Get, MGet, Set, MSet and Delete calls on one LRU cache return results equal to those of some one-at-a-time order of the calls, each batch call being one step, consistent with real time and with a sequential LRU cache of the same capacity and usage limit. No call panics, deadlocks or takes part in a data race. MGet results line up with the requested keys position by position, duplicates included.",
 ["schedules","histories","configurations"],"every interleaving of all five operations by any number of goroutines, any capacity and usage limit",
 "The tests are single-threaded.",
 [LRU],[("mutex around every operation","LRUCacheV2.mux"),("map + doubly linked list","lruMap, lruList")],[("lruMap/lruList","entries and their recency","lrucache.go")],["operation results"])
p("L02","LRUCacheV2: capacity, recency, expiry and usage limit hold over any history",
 "A capacity below one is refused by a panic, and the cache never serves more distinct keys than its capacity; inserting beyond it evicts exactly the least recently written or successfully read key, expired entries included. A value is served until its ttl of elapsed (monotonic) time has passed and not afterwards, whatever the wall clock does, and at most the usage-limit number of times since it was last set. Deleted, evicted, expired or used-up entries are reported as misses with the zero value until set again.",
 ["histories","schedules","inputs","configurations"],"every history of operations interleaved with the passage of simulated time and wall-clock jumps; any capacity, limit and ttl",
 "Tests use one or two keys, real sleeps and no clock jumps; the interplay of recency, expiry and usage count needs long histories.",
 [LRU],[("recency list","lruList MoveToFront/PushFront/Back"),("per-entry expiry and use count","item2, getOne, doSet")],None,["operation results"])
p("F01","FileStore: concurrent use of one store never tears, corrupts or loses values",
 "With a healthy disk, concurrent Get, MGet, Set, MSet, Delete and background cleaning on one FileStore never return an error, and for each key the results are those of some one-at-a-time order of the calls on it consistent with real time: a read returns a complete value that was set (as far as JSON represents it), and an acknowledged unexpired value stays readable until it is overwritten or deleted. No call panics, deadlocks or takes part in a data race.",
 ["schedules","histories"],"every interleaving, at system-call granularity, of readers, writers, deleters and the cleaning goroutine",
 "The tests are sequential; the windows lie between truncating, writing, reading and removing a file.",
 [FS],[("one file per key, whole-file read and write","getFilePath, readFile, Set"),("removal of expired/unparsable files","readFile, scanExpire")],[("files under Dir","one JSON record per key","file.go")],["operation results"])
p("F02","FileStore: crashes and disk errors never produce wrong data and heal",
 "Whatever disk errors, short or torn writes, process kills or power losses strike a FileStore, a read returns either a value that was really set for that key and not since superseded or deleted by an acknowledged call, or a miss, or an error - never anything else; only a power loss, which takes back writes the disk had not yet completed, may bring back an earlier value of the same key. A write acknowledged before a process kill and not being overwritten or deleted at that moment is still readable from a new store on the same directory, and a read that fails because the disk reports an error does not destroy the stored value. A Set whose write failed reports an error, and once faults stop every key can be set and read again, with at most one failing read per damaged entry.",
 ["crash_points","fault_sequences","histories"],"a kill, power loss or error (EIO, ENOSPC, EACCES, short write) at any system call of any operation",
 "Tests run on a healthy disk and never restart.",
 [FS],[("unparsable record removed on read","readFile"),("error propagation","Set, Get")],None,["results before and after restart","simulated disk"])
p("F03","FileStore: expired data is never served and cleaning removes only garbage",
 "A value is never served at or after the wall-clock time at which it was set plus its ttl, and before that time neither reads nor cleaning remove it, for every ttl representable (very long ttls mean it simply does not expire). Cleaning removes expired entries once a cleaning cycle has elapsed and an operation is performed, leaves live entries and files that are not cache entries alone, is not stopped by entries or directories that cannot be read nor by values whose decoding panics, and at most one cleaning runs at a time and is started within each cycle.",
 ["schedules","histories","inputs","configurations"],"every schedule of operations and cleanings, every ttl and cycle (including sub-second ones), clock steps",
 "Tests wait real seconds for one expiry; the once-per-cycle guarantee is a race between callers.",
 [FS],[("absolute expiry stored with the record","fileCacheItem.Exp, Alive"),("status flag and last-run time gate","gc, gcStatus, lastGC"),("directory scan","scanExpire")],None,["operation results","directory scans and unlinks on the simulated disk"])
p("F04","FileStore: distinct keys are isolated and batch calls are per-key faithful",
 "Distinct keys, of any comparable JSON-encodable key type without pointers (types of the same package path and name, as of functions of one package, count as one when keys are held in interfaces), never observe, overwrite or delete each other's values. MGet answers each requested position as Get would, MSet and Delete act on every given key even if some fail and then return an error that includes every failure, and Purge leaves no previously set key readable when it returns nil and returns an error if it could not remove an entry; it removes nothing but entries. Purge returns nil when the disk is healthy, even with concurrent operations. All this holds for values and batches of any size and however the directory is named (relative, unclean, through symbolic links).",
 ["inputs","fault_sequences","schedules"],"all keys (strings, numbers, structs, arrays, interfaces), any per-key fault, purges concurrent with other operations",
 "Tests use a few string keys and a healthy disk.",
 [FS],[("key to path mapping","getFilePath"),("error joining","MSet, Delete, Purge")],None,["operation results"])
p("H01","Chain: reads fall through levels, refill above, and handle failing levels",
 "Get and MGet on a Chain return, for each key, the value of the first level (in order) that has it; every level above that one is then written that value with its own ttl, and no level below is consulted for that key. When a level fails, reading stops and the failure is returned unless ContinueOnReadErr is set, in which case the next levels are still consulted and a found value is returned; failures while refilling never affect the result, and if no level has the key the outcome of the last level consulted is returned. Every level gets the caller's context, and results line up with the requested keys position by position, duplicates included.",
 ["fault_sequences","inputs","configurations"],"every pattern of hits, misses, errors, stalls and partial results across any number of levels and keys",
 "Tests use two healthy levels.",
 [CH],[("ordered fall-through and refill","Chain.Get, Chain.MGet, setForGet, msetForMGet"),("remaining-keys bookkeeping","keysNotFound, indexMap")],None,["calls received by each level","results"])
p("H02","Chain and MGet helper: writes reach every level, failures are all reported",
 "Set, MSet and Delete on a Chain are applied to every level with that level's own ttl and the caller's context even if some levels fail; the call returns nil exactly when no level failed, and otherwise an error that includes each level's failure. The MGet helper's result splits the requested keys into hits and misses without loss or invention, stopping when asked, and is safe to use when the underlying read failed without results, every key then counting as a miss.",
 ["fault_sequences","inputs","configurations"],"every subset of failing levels, any number of keys, failing and succeeding batch reads",
 "Tests use healthy levels.",
 [CH],[("error collection","Chain.Set/MSet/Delete, errors.Join"),("result accessors","MGetResult")],None,["calls received by each level","results"])
p("B01","BitSet: concurrent operations on one bit set are linearizable",
 "Concurrent Set, Get, Count, Size, Bytes, Binary, String, Not, Sub, Range and Clear on one bit set return results equal to those of some one-at-a-time order of the calls consistent with real time, on a sequence of bits that grows by whole bytes, where negative offsets count from the end and ranges include both ends. Each multi-bit read is a snapshot of a single moment, and results returned earlier never change afterwards. No call panics, deadlocks or takes part in a data race.",
 ["schedules","histories","inputs"],"every interleaving of all operations, every offset and range, including growth during reads",
 "The tests are sequential and use a few fixed ranges.",
 [BS],[("RWMutex around every operation","BitSet.mu"),("byte-wise arithmetic with masks","Count, Sub, validRange, getBit")],[("set","the bits, most significant first","bitset.go")],["operation results"])
p("B02","BitSet: operations over several bit sets are atomic and deadlock-free",
 "And, Or, Xor and AndNot return the bitwise combination of the receiver's and arguments' contents as they all were at one single moment of the call, sized to the longest operand, leaving the operands unchanged. They never deadlock with each other or with writers, whatever the order in which sets are passed, including a set passed more than once or combined with itself.",
 ["schedules","configurations"],"every interleaving of multi-set operations with writers, every choice and order of operands",
 "Needs two combining operations with opposite operand order and a writer queued between them; tests are sequential.",
 [BS],[("read locks on all operands held together","And, op")],None,["operation results","progress"])
p("P01","gpool: a pooled object is in the hands of one holder at a time",
 "For any concurrent use of a Pool or ArrayPool, an object returned by Get is not returned again by any Get until it has been Put back, each Put makes it available at most once, and Get returns either an object previously Put into the same pool, unchanged, or a fresh one (from the pool's constructor; for ArrayPool an empty slice with the configured capacity). Get never fails or blocks, whether or not the garbage collector empties the pool.",
 ["schedules","fault_sequences"],"every interleaving of Get and Put by any number of goroutines, pool eviction at any moment",
 "The tests call Get and Put once, sequentially.",
 ["gogenerics/gcontainers/gpool/syncpool.go"],[("delegation to sync.Pool","Pool.Get/Put, ArrayPool.Get/Put")],None,["identities of objects handed out"])
p("E01","AtomicError: a race-free register for errors of any type",
 "Concurrent Set and Load on an AtomicError behave as one register: Load returns nil until the first non-nil Set, then the very error of a most recent Set, and Set(nil) changes nothing. This holds for errors of any mixture of concrete types, without panics and without data races.",
 ["schedules","inputs"],"every interleaving of setters and loaders, any mixture of concrete error types",
 "The test sets one error type from one goroutine.",
 ["gogenerics/gconstraints/errors.go"],[("atomic.Value","AtomicError.err")],None,["results of Load"])
p("S01","SkipList: is an ordered map whatever the random levels",
 "For every sequence of random numbers used to pick node heights and every history of Insert, Delete, ChangeValue, Find, FindGreaterOrEqual, smallest/largest, Next, Prev and count operations, the skip list answers exactly as a sorted map would, walking it forwards or backwards visits every key once in order and wraps around. Inserting an existing key replaces its value. An element obtained earlier keeps its place and shows the current value until its key is deleted.",
 ["fault_sequences","histories","inputs"],"every entropy stream (including degenerate ones: all zeros, all ones, alternating) combined with every history",
 "Tests see only the level patterns the live generator happens to produce, so towers of extreme height and long runs of equal heights are never exercised.",
 ["gogenerics/gds/gskiplist/skiplist.go"],[("height from trailing zeros of a random word, growing by one level at a time","generateLevel, Insert"),("start/end level links","startLevels, endLevels, Delete")],None,["operation results"])
p("Z01","fastrand: ranges, permutations and fills hold for every entropy stream",
 "Whatever words the underlying random source yields, the bounded generators return values inside their documented half-open ranges (floats in [0,1), non-negative signed integers), can reach every value of the range and, for a uniform source, the signed generators and permutations are uniform; Read fills exactly the given bytes and nothing beyond; Perm, Shuffle and gslice.Shuffle yield permutations that neither lose nor duplicate an element. The functions are safe for concurrent use, and Int31n, Int63n, Intn and Shuffle panic on invalid bounds.",
 ["fault_sequences","inputs","schedules"],"every entropy stream including boundary words, every bound and length, concurrent callers",
 "Boundary words of the source have negligible probability under the live generator.",
 ["hack/fastrand/fastrand.go","gogenerics/gcontainers/gslice/slice.go"],[("multiply-shift and rejection sampling","Int31n, Int63n, Uint32n"),("Fisher-Yates","Shuffle, Perm"),("unsafe 8-byte fill","Read")],None,["returned values"])
p("K01","cryptox: encryption draws a full fresh IV or refuses, and round-trips",
 "Each CBC or CTR encryption uses exactly one block of freshly drawn entropy as its IV, however the entropy source fragments its reads, and if the source fails before a whole block has been read the call panics instead of returning a ciphertext. For every key, plaintext and encoding, also with concurrent callers, decrypting the result with the same mode returns the plaintext. The plaintext and key buffers, including the spare capacity behind them, are never modified.",
 ["fault_sequences","inputs","schedules"],"every fragmentation and failure point of the entropy source, every plaintext length and key size, concurrent callers sharing buffers",
 "Tests use the live entropy source, which never fails or returns short reads.",
 ["library/cryptox/cryptox.go"],[("io.ReadFull on the entropy source","AESCBCEncrypt, AESCTREncrypt"),("PKCS#5 padding","pkcs5Padding")],None,["ciphertexts","caller buffers"])
p("K02","cryptox: decrypting damaged data fails cleanly, never crashes or corrupts",
 "For ciphertext damaged in any way (bits flipped, bytes lost or added, wrong encoding, truncated to nothing) or a key of the wrong size, ECB, CBC and CTR decryption return an error or the bytes the mode defines, and never panic; ECB and CBC succeed only if the decrypted padding is valid PKCS padding. The input and key buffers are never modified.",
 ["fault_sequences","inputs"],"every damage to every ciphertext byte and length, both encodings, all modes, concurrent callers",
 "Tests decrypt well-formed ciphertext and a few fixed bad ones.",
 ["library/cryptox/cryptox.go"],[("length and padding checks","AESDecrypt, AESCBCDecrypt, pkcs5Unpadding"),("decoders","decode")],None,["returned errors and bytes","caller buffers"])
p("X01","Pure helpers and read-only accessors are safe for concurrent callers",
 "The read-only accessors of the containers (heap, list, queue, ring, set, map, slice, tree and skip list lookups, iteration and printing) called concurrently on one unchanging instance, and the stateless helpers (string, password, numeric, slice and map helpers, digests and unsafe conversions) called concurrently with shared inputs, return exactly what they return when called alone. Operations on distinct instances never affect each other. None of these takes part in a data race or changes its inputs, spare slice capacity included, unless documented to work in place.",
 ["schedules","inputs"],"every interleaving of any number of callers over shared inputs and over independent instances",
 "All tests of these packages are sequential.",
 ["gogenerics/gcontainers/glist/list.go","gogenerics/gcontainers/gslice/slice.go","gogenerics/gcontainers/gmap/map.go","gogenerics/gcontainers/gset/set.go","gogenerics/gcontainers/gheap/heap.go","gogenerics/gcontainers/gqueue/fifo.go","gogenerics/gcontainers/gring/ring.go","gogenerics/gds/grbt/rbt.go","gogenerics/gds/gskiplist/skiplist.go","gogenerics/gnumerics/math.go","library/stringx/stringx.go","library/password/password.go","library/cryptox/cryptox.go"],[("no hidden shared state","all functions of these packages")],None,["results","race detector reports"])
# not applicable
def na(id,title,stmt,files,mech):
    p(id,title,stmt,["inputs","histories"],"every input and every sequential history of calls","The tests sample a few inputs; the property quantifies over all of them (but involves no schedule, clock, fault or randomness).",files,mech)
na("N01","grbt: red-black tree is an ordered map with bounded height",
 "For every sequence of insertions, updates and deletions under any strict weak order, the tree answers lookups, sub-trees and traversals exactly as a sorted map would and its height stays logarithmic.",["gogenerics/gds/grbt/rbt.go"],[("insert/delete fix-up rotations","insertFix, deleteFix")])
na("N02","gheap: pops come out in order",
 "For every sequence of pushes and pops under any strict weak order, each pop returns a minimal element of what is in the heap and no element is lost or duplicated.",["gogenerics/gcontainers/gheap/heap.go"],[("sift up/down","siftUp, siftDown")])
na("N03","glist, gring, gqueue: linked structures keep their elements and order",
 "Every sequence of list, ring and queue operations leaves exactly the elements and order that the same operations on a plain sequence would.",["gogenerics/gcontainers/glist/list.go","gogenerics/gcontainers/gring/ring.go","gogenerics/gcontainers/gqueue/fifo.go"],[("pointer relinking","insert, remove, move, Link, Unlink")])
na("N04","gmap, gset, gslice, gnumerics: collection helpers compute what they document",
 "For all inputs the map, set, slice and numeric helpers return exactly the documented result (equality, uniqueness, merging, reversal, minima and maxima).",["gogenerics/gcontainers/gmap/map.go","gogenerics/gcontainers/gset/set.go","gogenerics/gcontainers/gslice/slice.go","gogenerics/gnumerics/math.go"],[("straight-line loops","whole packages")])
na("N05","stringx and password: text helpers compute what they document",
 "For all strings the case converters, entity decoders, JSON quoting and password classification return the documented result without panicking.",["library/stringx/stringx.go","library/password/password.go"],[("rune scanning","whole packages")])
na("N06","cryptox digests: equal the standard algorithms",
 "For all inputs Md5, Sha1, Sha256, Sha512 and the FNV helpers equal the standard digests.",["library/cryptox/cryptox.go"],[("delegation to the standard library","Md5..Fnv1aToUint32")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
