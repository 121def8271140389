T_HIST = 'The unit tests run a handful of fixed histories; the guarantee ranges over every sequence of operations, sizes and interleavings of internal reorganisation.'
prop('C09', 'Hash sets and maps are exact partial functions',
     'After any sequence of insertions, replacements, reservations, deletions, clears, minimum-size changes, seals and unseals on a hash set or map of any key kind (32/64/128-bit integers, structures, pointers, strings, with or without cached hashes), every lookup returns exactly the key object and value last stored for that key or says it is absent, every insertion and deletion reports correctly whether the key was there, and the length is the number of keys held. '
     'An enumeration visits each key held exactly once, even when entries are deleted while they are visited.',
     ['histories', 'inputs'],
     'every history of operations, every table size and fill including operations issued while an incremental resize is under way, every hash distribution, every key kind',
     T_HIST, ['src/container-qhash.h', 'src/container/qhash.c', 'src/container/qhash.in.c'],
     [('double hashing with ghosts, incremental resize between an old and a new view', 'src/container/qhash.in.c'),
      ('enumeration over both views', 'src/container/qhash.c:qhash_scan')],
     ['return values, lengths, enumerations and stored entries of the qh_*/qm_* macros'])
T_SCHED = 'A unit test runs one schedule of the threads per execution, chosen by the machine; losing, duplicating or reordering items needs a preemption between two particular memory accesses.'
prop('C01', 'Lock-free queues deliver every item exactly once and in order',
     'Whatever the interleaving of the producers and the consumer, every item pushed on a multiple-producer or single-producer queue is delivered to the consumer exactly once, and after every item whose push had returned before its own push began. '
     'A push reports an empty queue to exactly one producer per batch, so that the consumer it starts always finds an item, never overlaps another consumer and leaves nothing behind; a pop or an emptiness test says that nothing is there only when nothing is or a push is in progress. '
     'A drained node is handed back exactly once, when the queue no longer uses it.',
     ['schedules', 'histories'],
     'every sequentially consistent interleaving of up to four producers and a draining, popping (blocking or not) or mixed consumer',
     T_SCHED, ['src/core/thr-mpsc.h', 'src/core/thr-spsc.h', 'src/core/thr-spsc.c'],
     [('exchange of the tail, then link of the node', 'src/core/thr-mpsc.h:mpsc_queue_push'),
      ('end of drain by compare and swap of the tail', 'src/core/thr-mpsc.h:__mpsc_queue_drain_end'),
      ('node cache between consumer and producer', 'src/core/thr-spsc.h:spsc_queue_alloc_node')],
     ['return values of push, pop and emptiness tests, nodes delivered and handed back'])
prop('C02', 'Serial queues run their jobs one at a time, in order, exactly once',
     'Whatever the interleaving of the threads, each job posted to a serial queue runs exactly once, never at the same time as another job of that queue, and after the jobs whose posting had returned before its own began; jobs of the main queue run in the main thread only, including when it sleeps in its event loop or in a wait. '
     'A synchronous post returns after its job ended, and runs it in place when the caller is already inside that queue, which the library recognises exactly. '
     'Destroying a queue first runs what was posted to it, and no job is ever left waiting.',
     ['schedules', 'histories'],
     'every program of jobs posting to each other that respects an order between the queues it blocks on, every sequentially consistent interleaving of two to four pool threads',
     T_SCHED, ['src/core/thr-job.blk', 'src/core/thr-job.h', 'src/core/thr-mpsc.h', 'src/core/thr-evc.c', 'src/core/el.blk'],
     [('one drainer per queue, elected by the push on an empty queue', 'src/core/thr-job.blk:thr_syn_queue'),
      ('wake-up of the main thread', 'src/core/thr-job.blk:thr_wakeup_thr0'),
      ('recognition of the current queue', 'src/core/thr-job.blk:thr_is_on_queue')],
     ['order, thread and nesting of the jobs run; return of synchronous posts; progress'])
prop('C03', 'Unordered jobs run once and waiting for a group waits for all of it',
     'Whatever the interleaving of the threads, each unordered job runs exactly once, even when a thread posts more jobs than it can hold. '
     'A wait on a completion group returns, and only after every job registered on the group, including those added by its own jobs, has ended; a conditional wait returns once its condition holds, a notification runs after the jobs it follows, and a parallel loop runs each position exactly once before it returns. '
     'Per-thread data of a group is held by one job at a time and each piece is collected and released exactly once.',
     ['schedules', 'histories'],
     'every program of nested jobs and groups, every sequentially consistent interleaving of two to four pool threads with work stealing and threads added while others block',
     T_SCHED, ['src/core/thr-job.blk', 'src/core/thr-job.h', 'src/core/thr-evc.c', 'src/core/thr-evc.h'],
     [('work-stealing deque', 'src/core/thr-job.blk:thr_job_dequeue'),
      ('eventcount', 'src/core/thr-evc.c:thr_ec_timedwait'),
      ('group accounting', 'src/core/thr-job.h:thr_syn__job_done')],
     ['jobs run, return of waits, thread data handed out, positions of loops'])
prop('C04', 'Timers run neither early, nor late, nor out of order, nor too often',
     'A timer of the event loop never runs before its delay has elapsed, and runs in the first pass of the loop that follows its deadline (its expiry, plus a tenth of its delay for low-resolution timers), in the order of the deadlines; the loop never sleeps past the next deadline. '
     'A one-shot timer runs once per start or restart; a repeated one runs at multiples of its period, skipping the ticks missed unless asked not to. '
     'A timer that was unregistered never runs again, and these hold when timers are registered, restarted and unregistered by the callbacks themselves.',
     ['histories', 'inputs'],
     'every history of registrations, restarts and unregistrations in and out of callbacks, every arrangement of the deadlines, callbacks of any duration',
     T_HIST, ['src/core/el.blk', 'src/core/el-epoll.in.c', 'src/container-qheap.h', 'src/el.h'],
     [('heap of the timers', 'src/container-qheap.h'), ('timer pass', 'src/core/el.blk:el_timer_process'),
      ('bound of the sleep', 'src/core/el.blk:el_timer_next_expiration')],
     ['callbacks run and their clock, time slept'])
prop('C05', 'The event loop runs what is ready, once, and nothing else',
     'In each iteration of the event loop, hooks run before the sleep once each, the ready descriptors of the highest priority present run once each with exactly the events found, then the proxies that are ready and the callbacks of the signals received; idle hooks run only after an iteration with nothing to do, inactivity of a watched descriptor is reported after its delay, and the loop sleeps only when nothing is pending. '
     'The end of each registered child is reported exactly once with its status, whether it ended before or after the registration. '
     'An event never runs after it was unregistered, even by another callback of the same iteration, its private data is given back and its descriptor closed; the loop runs as long as an event holds it and it is not told to stop.',
     ['histories', 'inputs'],
     'every history of commands on events of all kinds, in and out of callbacks, single threaded and without nested loops',
     T_HIST, ['src/core/el.blk', 'src/core/el-epoll.in.c', 'src/el.h', 'src/container-dlist.h'],
     [('one iteration', 'src/core/el.blk:el_loop_timeout'), ('descriptors', 'src/core/el-epoll.in.c:el_loop_fds'),
      ('generations of the cached lists', 'src/core/el.blk:ev_cache_list'), ('children', 'src/core/el.blk:el_sigchld_hook')],
     ['callbacks run with their arguments, time slept, values returned by the registration functions'])
T_SEQ = 'The unit tests fix a handful of values and lengths; the guarantee ranges over every content, offset, length and sequence of operations, and the code has separate paths for each alignment.'
prop('C16', 'Bit buffers and bit streams behave as sequences of bits',
     'Whatever is appended to a bit buffer (single bits, up to 64 bits, bytes at any address, runs of zeros or ones, other bit sequences, padding to a byte) and removed from its front, in either bit order, its content is exactly the concatenation of what was appended minus what was removed, unused room stays zero and no memory outside the buffer is touched. '
     'A bit stream opened on any part of such a content, at any alignment, reads, skips, clips, splits and searches from both ends exactly as on that sequence of bits, and a request it cannot satisfy is refused and leaves it where it was.',
     ['inputs', 'histories'],
     'every sequence of up to some hundred operations on buffers of up to some thousand bits in both bit orders, every alignment of the source, of the buffer and of the stream',
     T_SEQ, ['src/bit-buf.h', 'src/core/bit-buf.c', 'src/bit-stream.h', 'src/core/bithacks.c', 'src/bit.h'],
     [('word-wise appends, growth and shifts', 'src/bit-buf.h, src/core/bit-buf.c:bb_shift_left'),
      ('offset arithmetic of streams', 'src/bit-stream.h'),
      ('bit searches in both directions', 'src/core/bithacks.c')],
     ['content in memory, returned bits, lengths and refusals; address sanitizer reports'])
prop('C15', 'Compressed bitmaps are exact under every operation',
     'Whatever the sequence of appends (runs of either value, single bits, raw bits at any alignment, padding), conjunctions, differences, unions of any number of maps, complements and copies, and whatever the way the content is cut in runs, literal words and buckets, a compressed bitmap holds exactly the expected bits, maps of different lengths being extended with zeros, and reports the right length and number of ones. '
     'Enumerating ones or zeros gives exactly their positions in increasing order, also after skipping any number of them, and single bits are read right. '
     'A map that is stored and loaded back, even with another bucket size, holds the same bits; data that is cut short is refused.',
     ['inputs', 'histories'],
     'every sequence of operations on six maps of up to some 60000 bits in literal words or 2^30 bits in runs, bucket sizes from one word to the default, every alignment',
     T_SEQ, ['src/bit-wah.h', 'src/core/bit-wah.c'],
     [('run and literal encoder with a pending word', 'src/core/bit-wah.c:__wah_push_pending'),
      ('word and bit enumerators', 'src/core/bit-wah.c:wah_word_enum_next'),
      ('merge of several maps by runs or through a buffer', 'src/core/bit-wah.c:wah_multi_or'),
      ('loading and splitting in buckets', 'src/core/bit-wah.c:mp_wah_init_from_data')],
     ['stored words decoded independently, lengths and counts, enumerations, bits read; assertions and address sanitizer'])
prop('C25', 'Header compression is lossless and keeps both ends in step',
     'Whatever the sequence of headers, encoding options, table size changes and delays, the bytes the HPACK encoder writes decode, as RFC 7541 defines it, to the headers given, within the room announced, respecting what the caller asked (no indexing, never indexed, skipped tables, raw or Huffman strings); after the same bytes the encoder and the decoder hold the same dynamic table, whose size never exceeds the limit in force. '
     'The decoder gives any sequence of bytes, including hostile, truncated or badly padded ones, exactly the meaning of the RFC or refuses it, without touching memory outside its input, its tables and the room it asked for.',
     ['inputs', 'histories'],
     'every sequence of headers and size changes on tables of 0 to 10000 bytes, any representation of a header and any corruption of it',
     T_SEQ, ['src/net/hpack.c', 'src/net/hpack.h', 'src/net/hpack-priv.h'],
     [('insertion and eviction in the dynamic tables', 'src/net/hpack.c:hpack_enc_dtbl_add_hdr, hpack_dec_dtbl_add_hdr'),
      ('integers and Huffman strings', 'src/net/hpack.c:hpack_decode_int, hpack_decode_huffman'),
      ('choice of the representation', 'src/net/hpack.c:hpack_encoder_write_hdr'),
      ('extraction, then writing of a header', 'src/net/hpack.c:hpack_decoder_extract_hdr, hpack_decoder_write_hdr')],
     ['bytes written, headers read, sizes and contents of both tables, refusals; address sanitizer reports'])
prop('C12', 'A paged store survives crashes with its last completed snapshot',
     'After a process that writes to a paged store stops at any point, including between any two of its system calls during a snapshot, reopening the store gives exactly the content of its last completed snapshot, or of the one in progress when the stop came after that one was sealed: never a mixture, never less. '
     'Within a process, content written through a store is what is read back, whatever the allocations, reallocations and releases in between and whatever was reclaimed; two live allocations never overlap, and a released handle is not live.',
     ['crash points', 'histories'],
     'every history of allocations, writes, snapshots (waited for or not) and reopenings, every stop before or after one of the file operations of a snapshot',
     T_HIST, ['src/core/qps.blk', 'src/qps.h', 'src/core/qpage.c'],
     [('generations of maps and replay at open', 'src/core/qps.blk:qps_open'),
      ('snapshot and its journal', 'src/core/qps.blk:qps_snapshot'),
      ('page allocator', 'src/core/qpage.c')],
     ['content of every live allocation and trie after each step and after each reopening'])
prop('C13', 'Persistent tries are exact maps under any history',
     'A persistent trie is at every moment the map that its history of insertions, updates, removals and clearings defines: for any key, of any value size, nullable or not, a lookup gives the last value written or the default, and the statistics give the number of keys. '
     'Enumerating it gives each present key once, in increasing order with its value, also after jumping forward to any key; an enumeration that is under way while the trie is modified gives, of the keys not yet passed, exactly those still present, and the content is the same after the store is reopened.',
     ['histories', 'inputs'],
     'every history of writes, removals, lookups through fresh and kept paths, enumerations interleaved with modifications, jumps, reclaims and reopenings, over sparse and dense sets of 32-bit keys that make leaves compact, flat and split',
     T_HIST, ['src/core/qps-hat.c', 'src/core/qps-hat.in.c', 'src/qps-hat.h'],
     [('compact and flat leaves, splits and merges', 'src/core/qps-hat.in.c'),
      ('enumerators following modifications', 'src/core/qps-hat.c:qhat_tree_enumerator_find_forward'),
      ('counters', 'src/core/qps-hat.in.c')],
     ['values read, keys enumerated, numbers of keys; the structure verifier of the library'])
prop('C14', 'Persistent bitmaps are exact under any history',
     'A persistent bitmap, plain or three-valued, is at every moment the map that its history of settings, unsettings, removals and clearings defines: reading a row, and the previous state each write reports, are exact. '
     'Enumerating it, possibly after a jump forward and while it is modified, gives the rows present in increasing order, each once, with their state; the content is the same after the store is reopened.',
     ['histories', 'inputs'],
     'every history of writes, removals, reads, enumerations interleaved with modifications, jumps and reopenings over sparse and dense rows of 32 bits',
     T_HIST, ['src/core/qps-bitmap.c', 'src/qps-bitmap.h'],
     [('leaf creation, counting and deletion', 'src/core/qps-bitmap.c:qps_bitmap_set'),
      ('enumeration by roots, dispatch nodes and leaves', 'src/qps-bitmap.h:qps_bitmap_enumerator_find')],
     ['states read, states reported by writes, rows enumerated'])
prop('C06', 'Modules run only with what they depend on, and exactly while they are needed',
     'Whatever the graph of dependencies and the history of requires and releases (by hand, repeated, from constructors and destructors, with destructors that fail, ended by a forced shutdown), a module is loaded if and only if it was required by hand more often than released or a loaded module depends on it; it is initialised once, with the argument provided for it, after everything it depends on, and shut down once, before anything it depends on. '
     'A method runs exactly once on each loaded module that implements it, with the given argument, in the order of the dependencies that the method asks for, and the callbacks around a fork run that way before it, in the parent and in the child.',
     ['histories', 'inputs'],
     'every acyclic graph of modules and every sequence of requires, releases, method runs and forks; exhaustively over every graph of up to four modules in the specification, and up to eight modules on the code',
     T_HIST, ['src/core/module.c', 'src/core/module.h', 'src/core/unix.blk.c'],
     [('requiring and releasing', 'src/core/module.c:module_require_internal, module_release, module_shutdown, notify_shutdown'),
      ('methods', 'src/core/module.c:module_run_method, module_method_register_cb, modules_topo_visit'),
      ('forced shutdown', 'src/core/module.c:module_hard_shutdown')],
     ['order of the constructors, destructors and callbacks with their arguments, and the reported state of each module'])
prop('C08', 'Memory pools hand out private memory that lives exactly as long as promised',
     'Whatever the pool (stack, ring, fifo or plain) and the history of allocations, reallocations, frames pushed, popped, sealed, released in any order or rewound to a checkpoint, a live allocation lies inside memory of the pool, aligned as asked, meets no other live allocation, is zeroed when asked, and keeps its content across reallocations and everything else that happens in the pools. '
     'It stays valid until it is freed or its own frame ends, even when a ring or fifo pool is deleted before, and once a pool is deleted and its frames and blocks are released, everything has been given back to the system.',
     ['histories', 'inputs'],
     'every history of operations on one to five pools, sizes from 0 to 200000 bytes including those that exactly fill a block, alignments up to 256',
     T_HIST, ['src/core/mem-stack.c', 'src/core/mem-stack.h', 'src/core/mem-ring.c', 'src/core/mem-fifo.c', 'src/core/mem.blk', 'src/core/mem.h'],
     [('blocks, frames and in-place reallocation', 'src/core/mem-stack.c:sp_reserve, sp_realloc'),
      ('ring of blocks with frames released out of order', 'src/core/mem-ring.c:mem_ring_release, frame_get_next_blk'),
      ('pages freed with their last block', 'src/core/mem-fifo.c:mfp_free, mfp_realloc')],
     ['addresses, alignment and content of the allocations, blocks obtained from and given back to the system'])
prop('C17', 'Record files give back what was written, through truncation and damage',
     'A binary record file has the documented layout, and whoever reads any prefix of it, at whatever byte the writing stopped or stands, gets exactly the records complete in that prefix, in order and once each; as the file grows the reader goes on with the following ones, and asking for the last records gives them from the newest to the oldest. '
     'Appending after closing, or after truncating to the end of a record, continues the same sequence, also for files of the previous version. '
     'Damaging the data of a record changes no other, damaging its length loses only records that begin before the second slot that follows, and no content of a file makes the reader crash.',
     ['crash points', 'histories', 'inputs'],
     'every sequence of records of up to a few thousand bytes in slots of 28 to 5000 bytes and of 1 MB, every byte at which the file may stop, every damaged length',
     T_HIST, ['src/file-bin.h', 'src/core/file-bin.c'],
     [('placing records and slot headers', 'src/core/file-bin.c:file_bin_put_record, file_bin_get_next_entry_off'),
      ('reading, partial records and resynchronisation', 'src/core/file-bin.c:_file_bin_get_next_record'),
      ('reading backwards by slots', 'src/core/file-bin.c:t_file_bin_get_last_records')],
     ['bytes of the file, records read forward and backward at each size of the file, after growth and after damage'])
prop('C10', 'Vectors are exact sequences and sorting, searching and comparing them is right',
     'Whatever the sequence of appends, insertions, removals, replacements, extensions, copies, growths and shrinkings of its room, and whatever the size of its elements and where its memory comes from, a vector holds exactly the expected sequence and never more than its room, and growing allocates exactly what it announced. '
     'Sorting gives an ordered permutation, removing duplicates keeps one of each group of equal elements and hands over each other one, searching finds an element if and only if it is there and otherwise where to insert it, and comparing two vectors gives exactly what was added, removed and kept. '
     'Sorting, deduplicating and searching arrays of numbers are exact for each of the eight integer types.',
     ['inputs', 'histories'],
     'every history of operations on vectors of elements of 1, 4 and 40 bytes in four kinds of memory, arrays of numbers of up to some hundred elements with extreme, equal or nearly sorted values',
     T_SEQ, ['src/container-qvector.h', 'src/container/qvector.blk', 'src/sort.h', 'src/core/sort-numeric.in.c', 'src/core/sort-numeric.in.h', 'src/core/sort.blk'],
     [('replacing a range in place', 'src/container/qvector.blk:__qvector_splice'),
      ('room of a vector', 'src/container/qvector.blk:__qvector_grow, __qvector_optimize'),
      ('byte-wise stable sort of numbers', 'src/core/sort-numeric.in.c')],
     ['contents after each operation, positions found, elements handed over, room'])
prop('C11', 'Linked lists, rings, heaps and ordered trees keep their order and lose nothing',
     'After any sequence of insertions, removals, moves, splices and cuts, walking a doubly linked list forwards, backwards or from any element, or a head/tail list, gives exactly the expected elements in order, also when elements are removed while walking or move in memory; a ring gives back its elements in order from both ends through growth, skips and filterings. '
     'The top of a heap is always one of its extreme elements, each element is where it was told it is, also after its key changed, and draining it gives an ordered permutation. '
     'An ordered tree holds one node per key, finds any key and its neighbours above and below, walks in order both ways and never gets higher than twice the logarithm of its size.',
     ['histories', 'inputs'],
     'every history of operations over two lists of 24 nodes, rings of up to 150 elements at every offset, heaps of 60 elements with equal keys, trees of up to some hundred keys inserted in any order',
     T_HIST, ['src/container-dlist.h', 'src/container-htlist.h', 'src/container-ring.h', 'src/container/ring.c', 'src/container-qheap.h', 'src/container-rbtree.h', 'src/container/rbtree.c'],
     [('growth of a ring cut in two', 'src/container/ring.c:generic_ring_ensure'),
      ('four-way heap', 'src/container-qheap.h'),
      ('rebalancing on insertion and removal', 'src/container/rbtree.c')],
     ['elements walked in each direction, results of each operation, positions told, height'])
prop('C40', 'String buffers are exact sequences and parsing streams stay in their source',
     'Whatever the sequence of appends, insertions, removals, skips, trims, formatted or file reads, growths, shrinkings and undone appends, and wherever its memory comes from, a string buffer holds exactly the expected bytes followed by a zero, inside its storage; failed reads leave it as it was. '
     'Every operation of a parsing stream (skips, clips, searches, spans, tokens, trims, comparisons, splits with or without escapes, CSV records, scattered copies) consumes and gives exactly the bytes it describes, or fails and leaves the stream alone, and reads no byte outside of it. '
     'Numbers with separators and durations appended to a buffer are exact, rounded to nearest.',
     ['inputs', 'histories'],
     'every history of operations on three buffers in five kinds of memory of 1 to 140000 bytes, every stream over sources of up to some tens of bytes, every CSV record and escaped list over their special bytes',
     T_SEQ, ['src/core/str-buf.h', 'src/core/str-buf.c', 'src/core/str-stream.h', 'src/core/str-stream.c'],
     [('room, skipped area and moves of a buffer', 'src/core/str-buf.c:__sb_grow, __sb_splice, __sb_optimize'),
      ('undoing appends', 'src/core/str-buf.c:__sb_rewind_adds'),
      ('CSV records and splits', 'src/core/str-stream.c')],
     ['bytes and terminating zero after each operation, bounds of each stream, results'])
prop('C30', 'String encodings are exact and decode only what is valid',
     'Each encoder (base64 and its URL variant with line widths, in one go or in pieces, quoted-printable, URL, XML, CSV, slash and hexadecimal escapes, GSM and packed GSM, UTF-8, Latin, UCS-2 and UTF-16, domain-name encodings) appends exactly the standard encoding of its input. '
     'The decoders give back the encoded text, fail on invalid input leaving the buffer as it was, and read no byte outside of their input. '
     'Case mappings, normalisations, UTF-8 validity, lengths, positions and comparisons follow the Unicode tables.',
     ['inputs'],
     'every byte string of up to some hundred bytes, valid, nearly valid or random, cut anywhere, every cutting in pieces, all characters of the tables',
     T_SEQ, ['src/core/str-buf-quoting.c', 'src/core/str-conv.c', 'src/core/str-conv.h', 'src/core/str-buf-gsm.c'],
     [('base64 by pieces', 'src/core/str-buf-quoting.c:_sb_add_b64_update'),
      ('packed GSM septets', 'src/core/str-buf-gsm.c:sb_conv_to_gsm7, sb_conv_from_gsm7'),
      ('UTF-8 scanning', 'src/core/str-conv.h:utf8_ngetc'),
      ('domain names', 'src/core/str-buf-quoting.c:sb_add_punycode_vec, sb_add_idna_domain_name')],
     ['bytes appended, results, buffers after failures'])
prop('C33', 'Log levels follow the configuration at any time; logs and buffers lose nothing',
     'Whatever the tree of loggers (created, wiped, created again, declared statically and used later) and the history of levels set by name, before or after the logger exists, recursively or not, and reset, the level of a logger is its own one if set, else that of the closest parent set recursively, else its default one or the one it inherits, and setting a level returns the previous one. '
     'A log is emitted exactly when its level is within that of its logger, with the name, level, silence and text given, line by line when it is built by pieces, to the handler and to the innermost buffer as its options ask, and stopping a buffer returns exactly the logs captured since it was started, in order.',
     ['histories', 'inputs'],
     'every tree of up to sixteen loggers, every sequence of creations, wipes, level changes, logs and nested buffers; exhaustively for three loggers in the specification',
     T_HIST, ['src/core/log.c', 'src/log.h'],
     [('levels', 'src/core/log.c:__logger_do_refresh, logger_set_level, logger_get_by_name'),
      ('emission', 'src/core/log.c:logger_putv, logger_put_in_buf'),
      ('buffers', 'src/core/log.c:log_start_buffering_filter, log_stop_buffering')],
     ['levels read and returned, calls to the handler, contents of the buffers'])
prop('C35', 'Dates are exact: calendar, zones, formats, parsing and durations',
     'In any time zone and across changes of clock, the start of the minute, hour, day, week, month or year that contains a date, or of the next one, and the number of days between two dates are those of the civil calendar. '
     'Dates are written in ISO 8601 exactly, with their offset, and every documented form (ISO 8601 with or without time, fraction or zone, periods, RFC 822, Unix timestamps, DD-MMM-YYYY) is read as the instant it denotes; damaged or impossible dates are refused and no byte is read outside of the text. '
     'Arithmetic on seconds and microseconds is exact and normalised, durations are split and spelled exactly, and the zone and locale of the process are left as they were.',
     ['inputs'],
     'every instant of 1902 to 9999 (in zones with rules: 1971 to 2100), nine zones with whole, half-hour, negative and southern rules, all short texts of the documented forms and their damaged variants',
     T_SEQ, ['src/datetime.h', 'src/core/datetime.c', 'src/core/datetime-iso8601.c'],
     [('roundings in local time', 'src/core/datetime.c:localtime_curday, localtime_nexthour, ...'),
      ('parsers', 'src/core/datetime-iso8601.c'),
      ('timeval arithmetic', 'src/datetime.h:timeval_add, timeval_addmsec, timeval_sub'),
      ('durations in words', 'src/core/datetime.c:t_get_time_split_p_lstr_en')],
     ['timestamps, texts, results, TZ and LC_TIME after each call'])
prop('C19', 'The IOP binary format is exact, compatible across versions and safe on any input',
     'Whatever the type (scalars, optional, repeated and default fields, strings, nested structures, unions, classes, recursive types), packing a value announces exactly the size it writes, writes the documented wire format, and unpacking gives back an equal value, also by a later or earlier version of the type that differs by compatible changes. '
     'Any other sequence of bytes is decoded as the wire format says or refused, without reading outside of it, and values that violate a declared constraint (range, length, pattern, set of values, number of elements, strict enumeration, private field) are refused and reported, wherever they are nested. '
     'Streamed items are taken one by one and an incomplete one is asked for again.',
     ['inputs', 'histories'],
     'every value of forty types covering every kind of field and attribute, packed with every set of flags; the bytes of such values with any field changed, removed, inserted, cut, or with every other encoding of the same value',
     T_SEQ, ['src/iop/helpers.in.c', 'src/iop/iop.blk', 'src/iop.h', 'src/iop/internals.h'],
     [('sizes and fields on the wire', 'src/iop/helpers.in.c'),
      ('packing, unpacking and skipping', 'src/iop/iop.blk:iop_bpack, iop_bunpack, iop_bskip'),
      ('constraints', 'src/iop/iop.blk:iop_check_constraints_desc')],
     ['bytes packed, announced size, results and values unpacked, acceptance by the constraint checks'])
prop('C20', 'IOP values survive XML, JSON and YAML; XML documents are judged as typed',
     'Writing a value of any type in XML gives the documented text for the chosen flags, reading it back gives an equal value (texts made of blanks only excepted), and so does writing and reading it in JSON or YAML with lossless flags. '
     'Any other well-formed XML document is decoded as the type says or refused: elements in the order of the fields, unknown ones refused or ignored as asked, missing mandatory fields, numbers out of range or malformed, violated constraints, private fields when forbidden, classes that do not fit, unions without exactly one field, references to message parts.',
     ['inputs'],
     'every value of forty types covering every kind of field and attribute, with every set of flags; the documents of such values written in various ways (comments, entities, character data sections, prefixes, empty elements) with elements removed, repeated, moved, renamed, replaced, nested elsewhere or with odd contents',
     T_SEQ, ['src/iop/xml-pack.c', 'src/iop/xml-unpack.c', 'src/core/xmlr.c', 'src/iop/json.blk', 'src/iop/yaml.blk', 'src/core/yaml.c', 'src/core/parsing-helpers.c'],
     [('XML writing', 'src/iop/xml-pack.c:xpack_value, xpack_struct'),
      ('XML reading', 'src/iop/xml-unpack.c:xunpack_value, __xunpack_struct, xunpack_union, xunpack_class'),
      ('JSON and YAML', 'src/iop/json.blk, src/iop/yaml.blk')],
     ['the XML text, acceptance and values read from each of the three formats'])
prop('C21', 'IOP values: copies, comparisons, orders, hashes, filters and visits agree',
     'For values of any type, a copy is equal to its source and shares no memory with it, two values are reported equal if and only if their fields are, a value has a difference description if and only if it differs, and equal values have equal hashes while the documented hash does depend on every field. '
     'Sorting objects by a path of fields gives a stable ordered permutation with the objects that lack the field where it was asked, and filtering keeps exactly the objects whose field at the path has one of the given values. '
     'Visiting a value calls back for each of its fields exactly once, in order, and honours each request to skip or to stop.',
     ['inputs'],
     'every pair of values of forty types that are equal, differ in one place or are unrelated; every sequence of skip and stop requests during a visit; sorting and filtering of up to some tens of objects by every path',
     T_SEQ, ['src/iop/hashing-values.in.c', 'src/iop/for-each.in.c', 'src/iop/helpers.in.c', 'src/iop/iop.blk'],
     [('hash of a value', 'src/iop/hashing-values.in.c'),
      ('visits', 'src/iop/for-each.in.c'),
      ('comparison, copy, sort, filter', 'src/iop/iop.blk:iop_equals_desc, iop_dup, iop_msort_desc, iop_filter')],
     ['results of comparisons, copies, hashes, orders, kept objects, sequence of fields visited'])
prop('C41', 'Operations on paths lead to the places the paths denote',
     'Simplifying a path gives the one normal form of the place it denotes, so that two paths have the same simplified form if and only if they denote the same place, and the relative path from one place to another leads there from the directory of the first. '
     'Joining, extending and splitting paths give exactly the documented parts, never write outside the given room, and report the paths that do not fit. '
     'A path said to be safe never leads outside of the directory it is used from.',
     ['inputs', 'histories'],
     'every path of up to six bytes over slash, dot and a letter, every pair of shorter ones, random paths of special components with any number of slashes, and paths around the maximal length, through sequences of operations',
     T_SEQ, ['src/core/str-path.c', 'src/core/str.h', 'src/core/str.c'],
     [('normal form', 'src/core/str-path.c:path_simplify2'),
      ('relative paths', 'src/core/str-path.c:path_relative_to'),
      ('prefixes', 'src/core/str-path.c:path_va_extend'),
      ('safety', 'src/core/str-path.c:path_is_safe')],
     ['resulting paths, returned lengths and verdicts'])
prop('C42', 'Strings own what they say, and their operations give the documented values',
     'Copying, concatenating, persisting and transferring strings keep their bytes, end them with a zero, and make exactly the documented memory own them, views included, so that changes and releases of one string never reach a string that does not share its memory. '
     'Comparisons, prefixes, suffixes, searches, edit distances, patterns, trims, truncations and conversions give, for every content, the values their documentation defines, and never read or write outside the given strings and buffers. '
     'The C string helpers follow the same rules within the given sizes.',
     ['inputs', 'histories'],
     'every pair of strings of up to three letters over two letters and a capital (sampled in the quick check), and random histories of operations on four strings and views, with bytes, blanks, valid and cut UTF-8 and hexadecimal contents, in the heap, on the stack, static or mapped',
     T_SEQ, ['src/core/str-l.c', 'src/core/str-l.h', 'src/core/str.c', 'src/core/str.h'],
     [('ownership', 'src/core/str-l.c:mp_lstr_copy_'),
      ('edit distance', 'src/core/str-l.c:lstr_dlevenshtein'),
      ('patterns', 'src/core/str-l.c:ps_is_like'),
      ('words', 'src/core/str.c:strfind'),
      ('counters', 'src/core/str.c:buffer_increment_hex')],
     ['content, length, owner and termination of every string after every operation, results of comparisons'])
prop('C31', 'Numbers read from texts are the numbers written there',
     'For every text, base and length, the number readers give exactly the value written at the start of the text, multiplied by its unit or power if any, say where it ends, and never look at what follows the given length. '
     'A number that does not fit the type or the given range is always reported, with the nearest bound where the documentation says so, and never replaced by another number; whole strings are accepted only if they hold one number and blanks.',
     ['inputs'],
     'every text of up to three characters (four in the thorough check) over blank, signs, 0, 1 and x for every reader, and random texts of numbers around the bounds of the types and their quotients by the units, in seven bases, with blanks, signs, prefixes, decimals, units, exponents and trailing bytes',
     T_SEQ, ['src/core/str-num.c', 'src/core/str-num.h', 'src/core/str-l.c'],
     [('decimal numbers', 'src/core/str-num.c:memtoip_impl'),
      ('unsigned numbers', 'src/core/str-num.c:memtoullp'),
      ('numbers under constraints', 'src/core/str-num.c:strtolp'),
      ('units', 'src/core/str-num.c:memtoxll_ext'),
      ('decimals and multiples', 'src/core/str-num.c:parse_number'),
      ('whole strings', 'src/core/str-l.c:lstr_to_int')],
     ['value, end of the number, returned code and errno'])
prop('C45', 'Network addresses, filters and URLs mean what they say',
     'A filter built from an address and a mask accepts exactly the peers of its family and port whose first bits are those of the address, for every mask, and nothing else builds a filter. '
     'Two socket addresses are equal if and only if they name the same endpoint, equal ones have the same hash, and an address formatted as text resolves to itself. '
     'Hosts, ports and URLs are split into exactly the parts they hold, within the room of these parts, or refused; the slots of a rate sum to it and differ by at most one.',
     ['inputs'],
     'every IPv4 and IPv6 mask with the bits around its end, every URL tail of up to four characters over a letter, a digit and the separators, rates up to 130 over six numbers of slots, and random addresses, names, ports and URLs with cut or superfluous parts',
     T_SEQ, ['src/net/addr.c', 'src/net/addr.h', 'src/net/rate.blk', 'src/net/rate.h'],
     [('filters', 'src/net/addr.c:addr_filter_build'),
      ('identity', 'src/net/addr.c:sockunion_equal'),
      ('hosts and ports', 'src/net/addr.c:addr_parse_minport'),
      ('URLs', 'src/net/addr.c:parse_http_url'),
      ('rates', 'src/net/rate.blk:net_rctl_init_slots')],
     ['verdicts of the filters, parts, texts, resolved addresses, slots'])
