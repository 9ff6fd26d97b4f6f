#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = "include/stxxl/bits/"
p("C01", "Asynchronous file I/O returns exactly the bytes last written",
  "For every file access method, a read that starts after earlier writes have completed returns exactly the bytes most recently written to each position of the requested range, and bytes inside a file-backed file that were never written read as zero, as do the bytes past the end of a read that begins inside the file (syscall and linuxaio access). "
  "A write changes the bytes of its own range and nothing else, regardless of how many requests are outstanding, on how many files and disk queues, and in which order they complete. "
  "The reported file size is the one last set, or implied by writes beyond the old end, and discarding a region, which leaves its own content undefined, never changes the content of any other region.",
  ["histories", "schedules", "configurations"],
  "all sequences of asynchronous read / write / set_size / discard requests with any offsets and sizes, over all file implementations, queue assignments and completion orders",
  "tests write a handful of sequential blocks per file type and read them back in order; overlapping lifetimes, ends of file, mixed sizes and translation-layer reuse are never sampled",
  ["lib/io/syscall_file.cpp", "lib/io/mmap_file.cpp", "lib/io/mem_file.cpp", "lib/io/linuxaio_file.cpp", "lib/io/linuxaio_queue.cpp", "lib/io/linuxaio_request.cpp", "lib/io/fileperblock_file.cpp", "lib/io/wbtl_file.cpp", "lib/io/ufs_file_base.cpp", "lib/io/simdisk_file.cpp", "lib/io/create_file.cpp"],
  [("serve() of each file type", "lib/io/*_file.cpp"), ("write-buffered translation layer mapping", "lib/io/wbtl_file.cpp"), ("one worker thread per disk queue", "lib/io/request_queue_impl_qwqr.cpp, request_queue_impl_1q.cpp")],
  observe=["file::aread", "file::awrite", "file::size", "file::set_size", "file::discard"])
p("C02", "Every I/O request completes exactly once and wakes everyone waiting on it",
  "Every submitted request finishes exactly once: its completion handler runs exactly once with that request (not at all if it was cancelled), before wait() on it returns, and polling never goes back from finished to unfinished; waiting for any or all of a set of requests returns only when one or all of them have really finished, and always returns then. "
  "A request whose cancellation succeeds never transfers data afterwards, is reported as finished, and wakes its waiters, while one whose cancellation is refused completes normally. "
  "After all requests on a file are finished the file no longer counts them as references, and shutting a disk queue down serves everything submitted before.",
  ["schedules", "histories"],
  "all interleavings of submitters, queue workers, pollers, waiters and cancellers, over all sets of requests and all queue kinds",
  "the only tests are one fixed cancel sequence and wait_all over a few writes; races between notification, cancellation and waiting need adversarial schedules",
  ["lib/io/request.cpp", "lib/io/request_with_state.cpp", "lib/io/request_with_waiters.cpp", "lib/io/serving_request.cpp", "lib/io/linuxaio_request.cpp", "lib/io/linuxaio_queue.cpp", "lib/io/request_queue_impl_qwqr.cpp", "lib/io/request_queue_impl_1q.cpp", "lib/io/request_queue_impl_worker.cpp", I+"io/request_operations.h", I+"io/disk_queues.h", I+"common/state.h", I+"common/onoff_switch.h", I+"common/semaphore.h"],
  [("OP -> DONE -> READY2DIE state machine", "lib/io/request_with_state.cpp"), ("waiter sets and on/off switches", "lib/io/request_with_waiters.cpp"), ("queue removal under the queue mutex", "lib/io/request_queue_impl_qwqr.cpp:cancel_request")],
  state=[("request state", "OP while in flight, READY2DIE when finished", "request_with_state::m_state"), ("waiters", "switches to turn on at completion", "request_with_waiters::m_waiters")],
  observe=["request::wait/poll/cancel", "wait_all/wait_any/poll_any/cancel_all", "completion handlers", "file::get_request_nref"])
p("C03", "I/O failures are reported to the request that failed and to nobody else",
  "If the operating system fails an operation of a request (an error, or a transfer that ends early without end of file), then waiting for exactly that request throws an I/O error, and it never returns as if the data had been transferred. "
  "Partial transfers are continued until the whole range is transferred; all other requests, before and after, complete successfully with correct data, and no queue stops or hangs. "
  "Failing to open, create or size a file, or a block with more data than the disks can hold, raises an exception instead of continuing with wrong data.",
  ["fault_sequences", "histories", "schedules"],
  "all sequences of faults (error codes, short transfers) injected into the system calls of any request, for all system-call based file types",
  "no test injects a fault; the disks used by the test suite never fail",
  ["lib/io/syscall_file.cpp", "lib/io/mmap_file.cpp", "lib/io/linuxaio_queue.cpp", "lib/io/linuxaio_request.cpp", "lib/io/serving_request.cpp", "lib/io/ufs_file_base.cpp", "lib/io/fileperblock_file.cpp", "lib/io/wbtl_file.cpp", I+"io/request_interface.h", I+"common/error_handling.h"],
  [("io_error caught in serve() and stored in the request", "lib/io/serving_request.cpp"), ("check_errors on wait/poll", "lib/io/request.cpp")],
  observe=["request::wait", "request::poll", "create_file", "read/write/lseek/ftruncate/io_getevents results"])
p("C04", "I/O statistics count exactly the transfers that were performed",
  "The number of reads, writes and bytes reported by the I/O statistics between two snapshots equals the number and volume of the transfers that were served in that interval, whatever the number of disk queues and threads; cancelled requests are not counted. "
  "Differences and sums of snapshots are exact component-wise arithmetic; I/O and wait times are non-negative, the parallel (any-request-active) time never exceeds the summed time of the single requests, and the interval's elapsed time bounds the parallel time, all up to the granularity of the measurement. Requests that fail are outside of this property.",
  ["histories", "schedules"],
  "all histories of concurrent requests and snapshots",
  "statistics are printed by tests and hardly ever compared with what was transferred",
  ["lib/io/iostats.cpp", I+"io/iostats.h", "lib/io/serving_request.cpp", "lib/io/linuxaio_request.cpp"],
  [("scoped timers around each served request", I+"io/iostats.h"), ("mutex protected counters", "lib/io/iostats.cpp")],
  observe=["stats::get_instance", "stats_data operators"])
p("C05", "External block allocation never overlaps and never loses space",
  "At any time all allocated blocks are pairwise disjoint and lie inside their disks, free plus allocated bytes add up to the size of every disk, and the allocation counters equal the bytes really held, whatever the sequence and interleaving of allocations and deallocations. "
  "Freed space is merged and reusable: after everything is freed one allocation of the whole disk succeeds again. "
  "A request for more than the free space of a disk that may not grow raises an out-of-space error and leaves every previously allocated block intact; disks that may grow do grow, and every placement strategy only names existing disks.",
  ["histories", "schedules", "configurations"],
  "all sequences of allocations / deallocations of single and grouped blocks of different sizes, over all disk configurations, strategies and threads",
  "tests allocate a few blocks in a fixed order on one disk configuration and never inspect the placement",
  ["lib/mng/disk_allocator.cpp", "lib/mng/block_manager.cpp", I+"mng/disk_allocator.h", I+"mng/block_manager.h", I+"mng/block_alloc.h", I+"mng/block_alloc_interleaved.h", I+"mng/bid.h"],
  [("free-space map with first fit and coalescing", "lib/mng/disk_allocator.cpp"), ("per-disk distribution by strategy", I+"mng/block_manager.h:new_blocks_int")],
  state=[("free_space", "map offset -> length of free regions", "disk_allocator"), ("free_bytes", "sum of free regions", "disk_allocator")],
  observe=["block_manager::new_block(s)/delete_block(s)", "get_total_bytes/get_free_bytes", "get_*_allocation"])
p("C06", "Disk configuration is read as written and disks are cleaned up as configured",
  "A configuration line is parsed into exactly the path, size, access method and options it states, formatting a parsed line and parsing it again gives the same configuration, and malformed lines are rejected with an error rather than misread. "
  "The configuration file search follows the documented order, flash disks are placed after regular disks and their ranges are reported correctly. "
  "When the program ends, disk files marked for deletion no longer exist, disks opened as unlinked never remain visible, and disks of fixed size keep their configured size.",
  ["inputs", "configurations"],
  "all configuration lines over the documented grammar (and malformed variants) and all environments for the search order",
  "test_config parses about a dozen fixed lines",
  ["lib/mng/config.cpp", I+"mng/config.h", "lib/mng/block_manager.cpp", "lib/io/create_file.cpp"],
  [("disk_config::parse_line / fileio_string", "lib/mng/config.cpp"), ("config::find_config / load_config_file", "lib/mng/config.cpp"), ("block_manager destructor", "lib/mng/block_manager.cpp")],
  observe=["disk_config members", "config::get_instance", "files on disk after exit"])
p("C07", "Block pools and buffered block streams deliver every block intact and in order",
  "A block handed to a write pool is written unmodified to its place before its buffer is reused; a later read through the pools returns the newest content whether the block is still being written, was prefetched (hinted), was invalidated, or is on disk only, and pools never hold more blocks than their size, also while being resized. "
  "Buffered output and input streams, forward and reverse, and the block prefetcher and writer deliver exactly the stored records in exactly the stored order for every number of buffers and every valid prefetch order. "
  "A computed prefetch schedule is always a valid order that names every block exactly once.",
  ["histories", "schedules", "configurations"],
  "all sequences of pool operations (steal, write, hint, read, invalidate, resize, swap), all buffer counts and stream lengths, all I/O completion orders",
  "tests run one fixed sequence per class with generous buffers and a fast disk",
  [I+"mng/write_pool.h", I+"mng/prefetch_pool.h", I+"mng/read_write_pool.h", I+"mng/buf_istream.h", I+"mng/buf_istream_reverse.h", I+"mng/buf_ostream.h", I+"mng/buf_writer.h", I+"mng/block_prefetcher.h", "lib/algo/async_schedule.cpp", I+"algo/async_schedule.h"],
  [("busy/free lists", I+"mng/write_pool.h"), ("hint map", I+"mng/prefetch_pool.h"), ("schedule simulation", "lib/algo/async_schedule.cpp")])
p("C08", "Swappable blocks keep their content under any paging algorithm",
  "A swappable block that has been initialised or written and not yet given up reads back exactly its last content at every later acquisition, however often it was swapped out in between, with any number of internal slots and any paging algorithm (online, recorded and offline replayed). "
  "Blocks never initialised read as the configured default value; reference counts keep acquired blocks in memory; extracting and initialising external blocks hand over the exact content; simulation never touches data and predicts a run that gives the same results.",
  ["histories", "configurations"],
  "all sequences of acquire / release / initialise / deinitialise / extract / explicit timestep operations over all algorithms and memory sizes",
  "test_block_scheduler runs one fixed sequence per algorithm with small memory",
  [I+"mng/block_scheduler.h"],
  [("swappable_block state machine", I+"mng/block_scheduler.h"), ("LRU / LFD / prefetching algorithms", I+"mng/block_scheduler.h")])
p("C09", "The I/O and block management layers may be used from several threads",
  "Threads that concurrently submit, wait for, poll and cancel I/O requests, create and close files, allocate and free external blocks, query statistics and use different containers at the same time never cause a data race, a deadlock, a lost update or corrupted data. "
  "Each thread sees exactly the results it would see if it worked alone on its own blocks.",
  ["schedules", "histories"],
  "all interleavings of threads in the I/O and block management layer, first-use initialisation included",
  "the test suite is single threaded apart from the queue workers, and a race does not fail a test",
  [I+"io/disk_queues.h", I+"mng/block_manager.h", I+"mng/disk_allocator.h", I+"singleton.h", "lib/common/exithandler.cpp", "lib/io/request_queue_impl_qwqr.cpp", "lib/io/linuxaio_queue.cpp", "lib/io/linuxaio_request.cpp", "lib/io/request_with_state.cpp", "lib/io/file.cpp", "lib/io/wbtl_file.cpp", "lib/io/iostats.cpp"],
  [("mutexes of queues, allocators, files, statistics", "lib/io, lib/mng"), ("documented guarantee", "doc/faq.dox (Thread-Safety)")])
p("C10", "The external vector behaves like an in-memory vector",
  "For every sequence of element accesses, iterator movements, appends, removals, resizes, copies, swaps, fills and buffered reads or writes, an external vector gives the same results as an in-memory vector, for any page size, number of cached pages, block size, allocation strategy and replacement policy, including pages evicted and reloaded any number of times. "
  "Constant access never changes content, flushing never loses or changes elements, and buffered readers and writers cover exactly their range, forwards and backwards.",
  ["histories", "configurations"],
  "all operation sequences over all template parameter combinations and sizes, especially around page and block boundaries",
  "tests use large fixed patterns with one or two cache configurations",
  [I+"containers/vector.h", I+"containers/pager.h"],
  [("page table, slots and write-back of dirty pages", I+"containers/vector.h"), ("random / lru pager", I+"containers/pager.h"), ("vector_bufreader, vector_bufreader_reverse, vector_bufwriter", I+"containers/vector.h")],
  observe=["vector interface", "vector_bufreader / vector_bufwriter"])
p("C11", "A vector bound to a file keeps its elements in that file",
  "After a vector constructed on a file has been flushed, closed or destroyed, the file holds the vector's elements in order from its beginning (exactly these once the vector is destroyed), and a new vector constructed on that file, with or without its size given, has the same size and elements whatever the size modulo page and block. "
  "Exporting a flushed vector yields files whose content is exactly the elements, and growing, shrinking or reading a file-bound vector never alters elements that were not written.",
  ["histories", "configurations"],
  "all sizes, growth and shrink histories, file types, reopenings",
  "test_vector_sizes and test_vector_export cover one element type and a few sizes, writing once",
  [I+"containers/vector.h", "lib/io/ufs_file_base.cpp", "lib/io/fileperblock_file.cpp", "lib/io/file.cpp"],
  [("size_from_file_length / truncate at destruction", I+"containers/vector.h"), ("export_files", I+"containers/vector.h")])
p("C12", "External stacks are last-in first-out with exact size",
  "For every stack variant (single buffer, grow-shrink, pooled grow-shrink, migrating), every sequence of pushes, pops, top accesses, swaps and size queries gives the same results as an in-memory stack, whatever the block and page size, pool sizes, prefetch aggressiveness and the number of crossings of a block boundary in either direction. "
  "A migrating stack changes between its internal and external representation without losing, duplicating or reordering elements.",
  ["histories", "configurations"],
  "all push/pop/swap/copy sequences over all variants and parameters",
  "tests push a large sequence and pop it back monotonically",
  [I+"containers/stack.h"],
  [("block-wise caching of the top of the stack", I+"containers/stack.h"), ("migrating_stack threshold", I+"containers/stack.h")])
p("C13", "Queue, sequence and deque preserve order and content",
  "Every sequence of pushes and pops at the permitted ends, front and back accesses, resizes, swaps and iterations on an external queue, sequence or deque gives the same results as on an in-memory double-ended queue, whatever the block size, the prefetch and write pool sizes and how often it empties and refills. "
  "Streaming over a sequence, forwards or backwards, yields exactly its elements in order and does not change it, and a deque keeps its content when it wraps around or grows.",
  ["histories", "configurations"],
  "all operation sequences over all pool sizes and parameters",
  "tests run monotone fill-and-drain phases and a few random phases with default parameters",
  [I+"containers/queue.h", I+"containers/sequence.h", I+"containers/deque.h"],
  [("head and tail blocks with shared pools", I+"containers/queue.h"), ("double-ended block list", I+"containers/sequence.h"), ("circular use of a vector", I+"containers/deque.h")])
p("C14", "The external ordered map behaves like an in-memory ordered map",
  "For every sequence of insertions, hinted insertions, assignments, erasures by key, iterator or range, lookups, bound queries, bulk constructions, swaps and comparisons, the external ordered map gives the same results as an in-memory ordered map with the same comparison (for keys other than the comparison's max_value()), whatever the node and leaf sizes, cache sizes that suffice for the height of the tree, and prefetch setting. "
  "Iteration visits every element exactly once in key order in both directions, and an iterator stays on its element while other elements are inserted or erased.",
  ["histories", "configurations"],
  "all operation sequences over all node, leaf and cache sizes",
  "test_map_random compares a limited number of operations in one or two configurations with large nodes and does not keep iterators across modifications",
  [I+"containers/map.h", I+"containers/btree/btree.h", I+"containers/btree/node.h", I+"containers/btree/leaf.h", I+"containers/btree/node_cache.h", I+"containers/btree/iterator.h", I+"containers/btree/iterator_map.h", I+"containers/btree/root_node.h"],
  [("B+-tree split / fuse / balance", I+"containers/btree"), ("node cache with reference counts", I+"containers/btree/node_cache.h"), ("iterator registry", I+"containers/btree/iterator_map.h")])
p("C15", "The external hash map behaves like an in-memory hash map",
  "For every sequence of insertions, overwriting insertions, accesses, erasures, lookups, counts, clears, rehashes and bulk insertions, the external hash map holds exactly the same key-value pairs as an in-memory map, however elements are spread between its internal buffer and external blocks and however bad the hash function is. "
  "Iteration visits every element exactly once, erased keys stay erased, and the reported size equals the number of elements.",
  ["histories", "configurations"],
  "all operation sequences over buffer sizes, load factors, hash functions and cache sizes",
  "tests use mostly distinct random keys in one order of phases",
  [I+"containers/unordered_map.h", I+"containers/hash_map/hash_map.h", I+"containers/hash_map/block_cache.h", I+"containers/hash_map/iterator.h", I+"containers/hash_map/iterator_map.h", I+"containers/hash_map/util.h"],
  [("internal buffer with delete markers merged into external buckets", I+"containers/hash_map/hash_map.h:_rebuild_buckets"), ("block cache", I+"containers/hash_map/block_cache.h")])
p("C16", "The external priority queue always delivers the current extreme element",
  "For every interleaving of pushes and pops, with any comparison, duplicates and element counts that fill and merge all buffer levels, the top of the external priority queue is always an extreme element among those inserted and not yet removed, each inserted element is removed exactly once, and size and emptiness are exact. "
  "This holds for any memory and pool size, insertion heap size, merge arity and number of levels for which the queue is configured.",
  ["histories", "configurations"],
  "all push/pop interleavings over all configurations",
  "test_pqueue pushes a fixed descending sequence and pops it once",
  [I+"containers/priority_queue.h", I+"containers/pq_ext_merger.h", I+"containers/pq_int_merger.h", I+"containers/pq_mergers.h", I+"containers/pq_losertree.h", I+"containers/pq_helpers.h"],
  [("insert heap, delete buffer, group buffers, internal and external mergers", I+"containers/priority_queue.h"), ("loser trees with segments", I+"containers/pq_losertree.h")])
p("C17", "The parallel priority queue neither loses nor reorders elements",
  "For every sequence of single pushes, bulk pushes from several threads, single and bulk pops and limit-bounded bulk operations, the parallel external priority queue delivers elements in priority order, each inserted element exactly once, and never an element beyond a given limit. "
  "Its size is exact, and the results do not depend on the number of threads, heap sizes, memory limit or the flush points in between.",
  ["histories", "schedules", "configurations"],
  "all sequences of operations in bulk and single mode over thread counts and memory sizes",
  "test_ppq runs phase-wise workloads with fixed seeds and random data of one distribution",
  [I+"containers/parallel_priority_queue.h", I+"common/winner_tree.h"],
  [("insertion heaps per thread, internal arrays, external arrays, extract buffer", I+"containers/parallel_priority_queue.h"), ("minima winner tree", I+"containers/parallel_priority_queue.h")])
p("C18", "External matrices compute the mathematically correct result",
  "Element access, row, column and row-major iteration, transposition, addition, subtraction, scaling, zero setting and every provided multiplication algorithm of external matrices and vectors give exactly the result of the same computation on in-memory matrices (for exact arithmetic), for any positive dimensions not only multiples of the block side, any memory size and any transposed or copied operands. "
  "Operands are never modified and copies are independent of their originals (as long as no iterator that has been dereferenced is kept across the copying).",
  ["inputs", "histories", "configurations"],
  "all dimensions, block sides, memory sizes, algorithms and operand histories",
  "test_matrix checks square sizes with structured content and one memory size",
  [I+"containers/matrix.h", I+"containers/matrix_arithmetic.h", I+"containers/matrix_low_level.h", I+"mng/block_scheduler.h"],
  [("swappable block matrix quad-trees and transposition flags", I+"containers/matrix.h"), ("naive / recursive / Strassen-Winograd multiplication", I+"containers/matrix_arithmetic.h")])
p("C19", "External sorting returns a sorted permutation of its input",
  "External sorting of a range of a vector, by comparison or by integer key, leaves exactly the same elements in non-decreasing order in the range, and elements outside of the range untouched, for every input distribution, range position relative to blocks, number of runs and merge passes and every memory limit that is accepted. "
  "Stable key sorting keeps elements of equal key in their original order.",
  ["inputs", "configurations"],
  "all ranges, inputs, memory sizes, block sizes and key types",
  "tests sort whole vectors of random data with memory for a single pass",
  [I+"algo/sort.h", I+"algo/ksort.h", I+"algo/stable_ksort.h", I+"algo/sort_helper.h", I+"algo/intksort.h", I+"algo/inmemsort.h", I+"algo/losertree.h", I+"algo/run_cursor.h", I+"algo/adaptor.h", "lib/algo/async_schedule.cpp"],
  [("run formation and recursive multiway merge with prefetching", I+"algo/sort.h"), ("head and tail handling of unaligned ranges", I+"algo/sort.h")])
p("C20", "Sorters and sorting streams emit every pushed element in sorted order",
  "A sorter, and the run creators and run mergers of the stream layer (from streams, by pushing, and from pre-sorted runs), emit every element that was put in exactly once and in sorted order, for every number of elements from none to many runs over several merge passes, and every memory budget. "
  "A sorter can be rewound and emits the same sequence again, can be cleared and reused, and its size is exact in every phase; presorted sequences of records are merged into one sorted sequence.",
  ["inputs", "histories", "configurations"],
  "all inputs, sizes, memory budgets and phase sequences",
  "tests sort a few sizes of random input once",
  [I+"stream/sort_stream.h", I+"stream/sorted_runs.h", I+"containers/sorter.h", I+"algo/losertree.h", I+"parallel/multiway_merge.h"],
  [("basic_runs_creator / runs_merger / sort", I+"stream/sort_stream.h"), ("sorter states", I+"containers/sorter.h")])
p("C21", "External scanning and shuffling algorithms visit each element exactly once",
  "Applying a function to a range, read-only or modifying, calls it exactly once per element in order and stores exactly the modified elements; generating fills exactly the range in order, and searching returns the first match or the end, for any range boundaries and number of buffers. "
  "Random shuffling leaves a permutation of the input range, does not touch elements outside of it, and can produce every permutation.",
  ["inputs", "configurations"],
  "all ranges relative to blocks and pages, all buffer counts and memory sizes",
  "test_scan and test_random_shuffle use whole vectors with default parameters",
  [I+"algo/scan.h", I+"algo/random_shuffle.h"],
  [("buffered streams over the underlying blocks", I+"algo/scan.h"), ("bucket distribution with pools", I+"algo/random_shuffle.h")])
p("C22", "Stream operators form pipelines with exact stream semantics",
  "Every stream operator (from iterators, vectors or generators, transforming with one to six inputs, tuple making and projection, duplicate removal, materialising in every variant, discarding) produces exactly the sequence defined by applying the operator to its input sequences, and reports end of stream exactly at its end, for empty, single-block and multi-block inputs. "
  "Materialising writes exactly the stream's elements and returns the iterator behind the last of them, never writing outside the target range; operators consume each input element exactly once.",
  ["inputs", "programs", "configurations"],
  "all compositions of operators, stream lengths relative to block sizes and buffer counts",
  "tests build a handful of fixed pipelines",
  [I+"stream/stream.h", I+"stream/unique.h", I+"stream/choose.h", I+"common/tuple.h"],
  [("pull interface (operator*, operator++, empty)", I+"stream/stream.h")])
p("C23", "In-memory parallel sorting and merging and tournament trees are exact",
  "Multiway merging, sequential or parallel, with or without sentinels, stable or not, outputs exactly the requested number of smallest elements of the input sequences in sorted order, advances every input by exactly what was taken from it, and, when stable, keeps equal elements in sequence order, for any number and any lengths of sequences, empty ones included. "
  "Parallel multiway mergesort yields a sorted permutation, stable if requested, multisequence partitioning splits at exactly the requested rank, and tournament trees always name a minimal active player after any sequence of updates.",
  ["inputs", "configurations", "schedules"],
  "all inputs, numbers of sequences and threads, splitting and merging strategies",
  "test_multiway_merge uses equal-length random sequences and verifies total size",
  [I+"parallel/multiway_merge.h", I+"parallel/multiway_mergesort.h", I+"parallel/multiseq_selection.h", I+"parallel/losertree.h", I+"parallel/merge.h", I+"parallel/equally_split.h", I+"common/winner_tree.h", I+"parallel.h"],
  [("exact and sampling splitting", I+"parallel/multiway_merge.h"), ("loser tree variants", I+"parallel/losertree.h"), ("winner_tree", I+"common/winner_tree.h")])
p("C24", "Containers and algorithms return all external memory they took",
  "When a container has been destroyed, or an algorithm or stream has finished and its helper objects are gone, the amount of allocated external memory is exactly what it was before, no block was released twice, and no block was written after it was released; while a container lives, the external memory it holds is bounded by its content, its configuration and its documented growth. "
  "Clearing, shrinking, swapping and copying move or release exactly the blocks involved.",
  ["histories", "configurations"],
  "all operation histories of all containers and algorithms, normal and early-terminated",
  "no test compares the allocation counters before and after, leaked external blocks stay invisible until the disk is full",
  [I+"containers/vector.h", I+"containers/stack.h", I+"containers/queue.h", I+"containers/sequence.h", I+"containers/btree/btree.h", I+"containers/hash_map/hash_map.h", I+"containers/priority_queue.h", I+"containers/parallel_priority_queue.h", I+"containers/matrix.h", I+"containers/sorter.h", I+"algo/sort.h", I+"stream/sort_stream.h", I+"mng/block_manager.h"],
  [("delete_blocks in destructors and on shrink", "containers"), ("allocation counters", I+"mng/block_manager.h")],
  observe=["block_manager::get_current_allocation", "block_manager::get_free_bytes"])
p("C25", "Utility types compute exactly what they document",
  "The 40 and 48 bit integers behave as unsigned integers of that width in arithmetic, comparison and conversion; binary buffers give back every value in the order and form it was put, and reject reads beyond their end; the command line parser assigns exactly the given arguments and rejects malformed input; size strings are parsed and formatted with the right SI and IEC factors, and integer logarithm, division, rounding and power helpers are exact. "
  "Aligned allocations are aligned, usable and freed, and tuples, simple vectors and swap-erasing vectors keep their elements.",
  ["inputs"],
  "all argument values including the boundaries of each type",
  "tests check a small number of hand-picked values",
  [I+"common/uint_types.h", I+"common/binary_buffer.h", I+"common/cmdline.h", "lib/common/cmdline.cpp", "lib/common/utils.cpp", I+"common/utils.h", I+"common/aligned_alloc.h", I+"common/tuple.h", I+"common/simple_vector.h", I+"common/swap_vector.h", I+"common/tmeta.h", I+"common/addressable_queues.h", I+"common/rand.h"],
  [("carry handling", I+"common/uint_types.h"), ("varint encoding", I+"common/binary_buffer.h"), ("option tables", "lib/common/cmdline.cpp"), ("parse_SI_IEC_size", "lib/common/utils.cpp")])
p("C26", "Reference-counted objects live exactly as long as they are referenced",
  "An object held by reference-counting pointers is destroyed exactly once, and not before the last pointer to it is gone, for every sequence of copies, assignments (including self-assignment), conversions, swaps, releases and cross-thread hand-overs; the reported reference count and uniqueness are exact. "
  "Copy-on-write access never modifies an object that somebody else refers to, and shared ownership wrappers stored in external containers keep their object alive until it is given up explicitly.",
  ["histories", "schedules"],
  "all pointer operation sequences and interleavings of threads",
  "test_counting_ptr performs one fixed sequence in one thread",
  [I+"common/counting_ptr.h", I+"common/external_shared_ptr.h", "lib/io/request.cpp", I+"io/request.h"],
  [("atomic reference counter", I+"common/counting_ptr.h"), ("release before assign ordering", I+"common/counting_ptr.h")])
p("C27", "Internal memory stays within the configured budget, whatever the amount of data",
  "The external algorithms and containers never hold more internal memory at once than the budget they were given (the memory argument of a sort, sorter, run creator, merger or shuffle; the pages of a vector's cache; the pools of stacks, queues and sequences; the node and leaf caches of a map; the buffer of a hash map with its block cache; the memory parameter of the priority queues; the memory of a block scheduler), apart from bookkeeping proportional to the number of external blocks and a fixed number of I/O buffers, however many elements they process. "
  "The same history with several times the data needs no more than the additional bookkeeping, and when a phase ends (a run is formed, a sorter is cleared, a container is destroyed) its buffers are given back.",
  ["inputs", "histories"],
  "all amounts of data, budgets and operation histories",
  "tests check results, never how much memory was in use, and their data mostly fits into the caches",
  [I+"algo/sort.h", I+"algo/ksort.h", I+"algo/stable_ksort.h", I+"algo/random_shuffle.h", I+"algo/scan.h", I+"stream/sort_stream.h", I+"stream/sorter.h", I+"parallel.h", I+"containers/vector.h", I+"containers/stack.h", I+"containers/queue.h", I+"containers/sequence.h", I+"containers/deque.h", I+"containers/btree/node_cache.h", I+"containers/hash_map/hash_map.h", I+"containers/priority_queue.h", I+"containers/parallel_priority_queue.h", I+"mng/block_scheduler.h", I+"mng/write_pool.h", I+"mng/prefetch_pool.h"],
  [("sort_memory_usage_factor", I+"parallel.h"), ("runs_creator and runs_merger memory splits", I+"stream/sort_stream.h"), ("cache and pool sizes", I+"containers/vector.h"), ("m_mem_left accounting", I+"containers/parallel_priority_queue.h")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
