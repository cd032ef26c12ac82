import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
S="stenos/internal/stenos.cpp"; B="stenos/internal/block_compress.h"; L="stenos/internal/lz_compress.h"; T="stenos/internal/tiny_pool.h"; Z="stenos/internal/zstd_wrapper.h"; V="stenos/cvector.hpp"; H="stenos/stenos.h"
p("C01","Lossless round trip under every schedule",
 "For any input, element size, level, block size, thread count on either side and any interleaving of the library's threads, compressing into a buffer of the documented bound succeeds and decompressing the resulting frame succeeds, reports the original size and restores every byte.",
 ["schedules","inputs","configurations"],
 "all inputs x element sizes 1..4096 x levels 0..9 x block-size settings x thread counts (compress and decompress chosen independently) x pool sizes x thread interleavings",
 "The tests round-trip a few sizes of three data distributions with element sizes up to 15 on whatever interleaving the machine happens to produce; they never control the schedule and hardly reach multi-superblock, custom-block or exact-multiple sizes.",
 [S,B,L,"stenos/internal/delta.cpp","stenos/internal/shuffle.cpp",T],
 [("superblock strategy selection and its inverse",S+": compress_generic_superblock / decompress_generic_superblock"),("parallel loops over superblocks",S+": stenos_compress_generic / stenos_decompress_generic"),("block encoders",B)],
 observe=["stenos_compress_generic","stenos_decompress_generic","stenos_compress","stenos_decompress"])
p("C02","Concurrent callers do not affect one another",
 "Calls made at the same time from different threads, each with its own context and buffers, behave as if each were made alone: every call succeeds, every frame decodes to its own caller's input, and no caller's buffers outside its own destination are modified.",
 ["schedules","histories","configurations"],
 "all interleavings of 2..4 caller threads mixing compression, decompression and time-limited compression over the shared pool",
 "No existing test uses the library from more than one thread at a time, and an interleaving cannot be sampled by re-running.",
 [S,T,B,Z],[("per-context buffers",S+": stenos_context_s"),("one process-wide task queue shared by all callers",T+": tiny_pool"),("thread-local scratch and zstd contexts",Z+", "+B)])
p("C03","Every call returns: no deadlock or lost wakeup, on any core count",
 "Under every interleaving, any number of concurrent callers, any core count the machine reports (including unknown) and spurious wakeups, every compression or decompression call returns within a bounded number of steps, and unloading the library or exiting the program terminates.",
 ["schedules","configurations","fault_sequences"],
 "all interleavings of caller and pool threads x reported core counts x spurious condition-variable wakeups",
 "A lost wakeup needs one precise interleaving of two waiting callers; tests run a single caller on the core count of the build machine.",
 [T,S],[("task queue with condition variables, wait for idle",T+": push / wait / do_work"),("pool created at load, joined at unload",S+": get_pool")],
 state=[("waiting/processing counters","idle detection of the pool",T)])
p("C04","No data races in documented concurrent use",
 "When several threads use the library concurrently with distinct contexts and buffers, or access a compressed vector concurrently through its documented thread-safe access paths, no two threads ever perform conflicting unsynchronised accesses, and no memory is used after being released.",
 ["schedules"],
 "all interleavings of caller and pool threads, vector readers and parallel iteration; races judged by happens-before, not by luck",
 "Races do not show in functional tests; none of the tests is concurrent.",
 [T,S,Z,B,V],[("mutex/condition variables and lock-free task buffer list",T),("atomics in the time constraint",Z),("per-bucket spin locks",V)])
p("C05","Time-limited compression is always correct, whatever the clock does",
 "With any time budget and any behaviour of a monotonic clock (stalled, coarse, jumping ahead, slow or fast machine, budget already expired), compression succeeds in a buffer of the documented bound and the frame decompresses to the exact input.",
 ["schedules","inputs","configurations","fault_sequences"],
 "budgets from 1 ns to hours x simulated clock behaviours x inputs x thread counts x interleavings",
 "Which strategy is chosen per superblock depends on real elapsed time; the tests never set a budget, so no time-limited frame is ever decoded.",
 [S,Z,"stenos/timer.hpp"],[("level selection from remaining time",Z+": clevel_for_remaining"),("time-limited superblock sizing and header",S+": prepare / stenos_compress_generic")])
p("C06","Time budget is honoured",
 "Once the time budget of a time-limited compression has run out, the remaining input is only copied: no further entropy coding is started beyond the superblocks already in progress, so the overrun is bounded by the work in flight plus one memory copy.",
 ["schedules","inputs","configurations","fault_sequences"],
 "budgets x machine speeds and stalls of the simulated clock x inputs x thread counts x interleavings",
 "Needs control over the passage of time; the tests never set a budget.",
 [Z,S],[("switch to memcpy when remaining time is insufficient",Z+": clevel_for_remaining, finish_memcpy")])
p("C07","Output never leaves the destination and the documented bound suffices",
 "Compression and decompression never write outside the destination they are given nor read outside the source, for any destination capacity: with less room than needed they report an error, and with the documented bound for the default block size compression always succeeds.",
 ["inputs","configurations","schedules"],
 "all destination capacities from 0 to bound+k (biased to the exact limit +-1) x inputs x levels x thread counts x interleavings",
 "Tests always pass a destination of the documented bound, from heap buffers where a small overrun goes unnoticed.",
 [S,B],[("capacity checks per superblock and in parallel copy",S),("capacity checks in the block encoder",B)])
p("C08","Damaged frames never cause memory errors or hangs",
 "Decompressing (or querying) any byte sequence, in particular a valid frame after bit flips, lost, duplicated, torn or reordered regions, truncation, or decoding it with the wrong element size or a too small destination, returns an error or a size within the destination, without reading or writing outside the buffers, crashing or looping.",
 ["inputs","fault_sequences","schedules"],
 "storage/transport faults applied to valid frames x decode configurations x thread counts",
 "Tests only decode frames they have just produced, intact.",
 [S,B,L],[("input validation in decoding",S+": stenos_decompress_generic, decompress_generic_superblock"),("bounds-checked block decoding",B+", "+L)])
p("C09","Truncated frames are always detected",
 "Every proper prefix of a frame with a non-empty payload is rejected by decompression with an error for any thread count, and querying a frame header from any sufficiently long prefix reports the true uncompressed size while a shorter one reports an error.",
 ["inputs","crash_points","configurations"],
 "every truncation point (crash while writing, short read) of frames of all strategies x thread counts",
 "Tests never decode an incomplete frame.",
 [S],[("sequential bound checks",S+": stenos_decompress_generic / stenos_get_info")])
p("C10","Allocation failure is contained",
 "If memory allocation fails at any point inside the library, the call returns an error code or still produces a correct result; it never crashes, throws through the C interface, leaves work running on the caller's buffers or corrupts them, and the same context and thread work normally once memory is available again.",
 ["fault_sequences","schedules","histories"],
 "every allocation site and combination (context, buffers, tasks, zstd, thread-local scratch) failing during any call x thread counts x interleavings",
 "Tests never make an allocation fail.",
 [S,T,B,Z],[("checked allocations and error codes",S+": CBuffer::make, ensure_has_buffers"),("task allocation",T),("thread-local compression buffer",B)])
p("C11","A reused context behaves like a fresh one",
 "The result of any call depends only on its arguments and the parameters currently set on the context, not on which calls (successful, failed or under injected faults) were made with the context before; resetting a context restores all default parameters.",
 ["histories","configurations","fault_sequences"],
 "all histories of parameter changes, compressions, decompressions (valid and damaged), failures and resets on one context",
 "Tests use one context per call or the same settings repeatedly.",
 [S],[("buffers kept in the context keyed by superblock size",S+": prepare / clear_buffers / ensure_has_buffers"),("reset",S+": stenos_reset_context")])
p("C12","Memory is conserved",
 "Everything the library allocates is released when its owner goes away (context destroyed, calling thread finished, vector destroyed, library unloaded), exactly once, after any history including failed calls, and repeating the same call on a context does not make its memory grow without bound.",
 ["histories","schedules","fault_sequences"],
 "all histories of calls, failures, thread exits and unload",
 "Tests check only the vector's user allocator balance, not what contexts, threads or the pool hold.",
 [S,T,B,Z,V],[("destructors of context, thread-local objects and pool",S+", "+T+", "+B+", "+Z),("vector destruction",V)])
p("C13","Frames are reproducible",
 "Without a time budget, the compressed frame is a function of the call's arguments and parameters only (input, element size, level, block size, one or several threads, destination capacity): repeating it on another thread or context, after other calls, with more threads, or under another interleaving gives byte-identical output.",
 ["schedules","histories","configurations"],
 "all thread counts, interleavings, calling threads and preceding histories (including contents of reused memory)",
 "Tests never compare two compressed frames, and dependence on stale memory only shows for particular histories.",
 [S,B,L],[("independent superblocks written in order",S+": stenos_compress_generic"),("encoder scratch state",B+", "+L)])
p("C14","Compressed vector behaves like std::vector",
 "Over any sequence of operations, a compressed vector has the same size, content and return values as a standard vector given the same operations, whatever the compression level, context policy and moment of (de)compression of its parts; an operation that fails by exception leaves it valid and consistent, and unchanged for insertion or removal at the end.",
 ["histories","fault_sequences","configurations"],
 "all operation sequences x element types x levels x context limits x throwing elements x allocation failures",
 "Tests run fixed operation scripts once with no failing allocation or element operation.",
 [V],[("bucket list, per-bucket compression and raw buffer contexts",V+": CompressedVectorInternal"),("exception handling in modifying operations",V)])
p("C15","Element lifetimes are exact",
 "Elements stored in a compressed vector are constructed and destroyed exactly once: at any time the number of live elements equals the vector's size, none is used after destruction, and none survives clearing or destruction, over any history including exceptions.",
 ["histories","fault_sequences"],
 "all operation sequences with element types of non-trivial construction and destruction x throwing constructors x allocation failures",
 "The tests only compare a global counter at the end of one fault-free script.",
 [V],[("construct/destroy on (de)compression and on modification",V)])
p("C16","Concurrent reads of a compressed vector are correct",
 "Any number of threads reading the same compressed vector through constant access, iterators and element references at the same time each see exactly the stored values, whatever buckets get decompressed, recompressed or evicted by the others.",
 ["schedules","configurations"],
 "all interleavings of 2..4 reader threads x context limits small enough that readers evict each other's decompressed data",
 "No test reads a vector from two threads.",
 [V],[("shared spin lock per vector and reference counts per bucket",V)])
p("C17","Concurrent in-place modification loses no update",
 "When several threads concurrently visit elements of a compressed vector with the provided iteration function, each element of each range is visited exactly once per call, visits of one element exclude each other, and every modification is found afterwards, also when a visitor stops early or throws or memory runs out.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of visitors over overlapping or disjoint ranges x context limits x visitors stopping early or throwing",
 "test_for_each runs once on one uncontrolled interleaving.",
 [V],[("bucket locking during for_each and dirty marking",V)])
p("C18","Serialization round trip",
 "At any point of a vector's history its serialized form deserializes to an equal vector and is a valid compressed frame of the same elements, through any stream or buffer that delivers data correctly; a stream or destination that fails or is too small is reported as an error.",
 ["histories","fault_sequences","configurations"],
 "all operation histories before serialization (partly modified, compressed or evicted buckets) x stream faults (short, failing, full) x element sizes",
 "test_serialize serializes one freshly filled vector to a working stream.",
 [V,S],[("serialize / deserialize",V),("frame header helper",S+": stenos_private_create_compression_header")])
p("C19","Deserializing damaged data leaves a usable vector",
 "Deserializing a truncated, short, torn or failing stream reports an error, never crashes, leaks or reads outside the data, and leaves a vector that can be cleared, filled again and destroyed normally.",
 ["fault_sequences","crash_points","histories"],
 "every truncation point and failing read, header damage, on empty and non-empty target vectors",
 "Tests only deserialize what they have just serialized.",
 [V,S],[("deserialize error handling",V)])
p("C20","Held element references stay valid",
 "A reference or iterator wrapper held on an element keeps denoting that element, reading and writing its current value, while any other elements are read, written, decompressed or evicted, as long as the vector's size is not changed; its decompressed chunk is not taken away by such accesses. (The mutable visiting functions exclude every other user of a block, so they are not called over a block while holding a reference into it.)",
 ["histories","configurations","schedules"],
 "all access histories with 1..4 simultaneously held references x context limits",
 "Tests take references transiently; eviction while a reference is held depends on the access history.",
 [V],[("reference counted raw buffers excluded from eviction",V)])
p("C21","Timer reports elapsed time exactly",
 "The timer returns exactly the nanoseconds of monotonic clock time passed since it was last started, for any clock readings (second and nanosecond boundaries, zero and very long intervals), independently per timer.",
 ["inputs","fault_sequences","histories"],
 "all clock readings x interleaved start/read histories of several timers",
 "Requires control of the clock; the tests do not use the timer.",
 ["stenos/timer.hpp",S],[("difference of two clock readings","stenos/timer.hpp")])
p("C22","Frames are portable between machines",
 "A frame produced by a node with one set of SIMD instructions, core count and thread setting is decoded exactly by a node with any other.",
 ["configurations","inputs","schedules"],
 "pairs of producer/consumer builds with different instruction sets (baseline, SSE4.1, AVX2, native) x inputs x levels x thread counts",
 "Tests compress and decompress in one process built for one instruction set.",
 [B,"stenos/internal/shuffle.cpp","stenos/internal/delta.cpp"],[("runtime and compile time dispatch",B+", stenos/internal/shuffle.cpp, stenos/internal/delta.cpp")])
p("C25","A compressed vector stays compressed and reports its memory truthfully",
 "Whatever elements are read, written, visited or referenced, alone or by several threads, and whichever operations fail, the number of decompressed chunks a compressed vector keeps is bounded by the references held and accesses in progress (plus a small constant) and never grows with the number of elements touched; shrink_to_fit releases them; and memory_footprint() covers every byte obtained from the allocator.",
 ["histories","schedules","fault_sequences"],
 "all access histories over vectors of many blocks x held references x allocation failures x concurrent readers or visitors",
 "Tests check contents, never how many chunks are decompressed, and cannot see allocator failures during eviction.",
 [V],[("eviction of decompressed chunks",V),("footprint report",V)])
p("C26","Stored data stays readable across releases",
 "Frames and serialized vectors written by the reference release of this library are decoded exactly by the current tree, and those written by the current tree are decoded exactly by the reference release, for all inputs, levels, block sizes and thread counts: a system whose nodes run both keeps all its data.",
 ["inputs","configurations","schedules"],
 "pairs of nodes (current tree, reference release) x direction x inputs x levels x block sizes x thread counts, frames and serialized vectors",
 "Every test compresses and decompresses with the same build, so a change made consistently to both sides goes unseen.",
 [S,B,"stenos/cvector.hpp"],[("frame and block formats",S+", "+B),("serialized vectors","stenos/cvector.hpp")])
p("C23","Compression speed and ratio",
 "Higher levels compress at least as well as lower ones on compressible data, and throughput scales with the number of threads up to the core count.",
 ["inputs","configurations"],
 "all inputs and machines","Benchmarks are not tests and depend on the machine.",
 [S,Z],[("strategy choice",S)])
p("C24","Bit and byte utilities are exact",
 "The public bit-manipulation helpers (population count, bit scan, byte swap, little-endian access) compute their mathematical definition for every argument on every supported platform.",
 ["inputs"],
 "all 8/16/32/64 bit arguments","No test calls them directly.",
 ["stenos/bits.hpp"],[("compiler builtins with portable fallbacks","stenos/bits.hpp")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import subprocess
