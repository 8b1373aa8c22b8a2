NOTEST = 'The unit suite covers coroutines, tasks, locks, buffers and the heap allocator only; nothing in it reaches this code, and '

prop('C01', 'Numbers never wrap: integer arithmetic and numeric parsing are exact or refused',
 'Checked integer addition, subtraction and multiplication report overflow exactly when the mathematical result does not fit, and otherwise return the mathematical result. Parsing a decimal integer, from text or from a JSON document, yields the integer that was written or fails; it never yields a different number.',
 ['inputs'], 'all pairs of 32-bit and 64-bit signed operands; all digit strings',
 NOTEST + 'a finite sample of operands cannot cover 2^128 operand pairs with overflow boundaries.',
 ['amelie/runtime/base/overflow.h', 'amelie/runtime/base/str.h', 'amelie/runtime/json/json_parser.c'],
 [('int32_add_overflow .. int64_mul_add_overflow', 'amelie/runtime/base/overflow.h'), ('str_toint', 'amelie/runtime/base/str.h'), ('json_integer_read', 'amelie/runtime/json/json_parser.c')],
 ['return value and result argument', 'encoded JSON integer'])

prop('C02', 'Binary JSON values read back exactly as they were written',
 'Every scalar, string, object marker and array marker written in the binary document encoding reads back with the same type and the same value. The writer emits exactly the number of bytes its size function announces, the reader consumes exactly those bytes, and a reader for one type never accepts a value of another type.',
 ['inputs'], 'all 64-bit integers, all double bit patterns, all string sizes and contents',
 NOTEST + 'width boundaries of the integer and string headers need every value, not a sample.',
 ['amelie/runtime/json/json.h', 'amelie/runtime/json/encode.h'],
 [('json_write_* / json_read_* / json_size_*', 'amelie/runtime/json/json.h'), ('encode_*', 'amelie/runtime/json/encode.h')],
 ['bytes in the document buffer', 'value returned by the reader'])

prop('C12', 'Row encoding keeps every column independent and addressable',
 'A row announces exactly the size it was laid out for, in one of three header forms chosen by that size. Setting a column offset or null is read back for that column and never changes another column, the stored size or the payload; a column added after the row was written reads as null. No row size or offset overflows its header form.',
 ['inputs'], 'all column counts up to 65535 and payload sizes up to the 32-bit limit',
 NOTEST + 'errors sit at the 255 and 65535 byte transitions of the header form and depend on column count and payload together.',
 ['amelie/db/row/row.h'],
 [('row_init / row_size / row_at / row_set / row_data', 'amelie/db/row/row.h'), ('row_measure', 'amelie/db/row/row.h')],
 ['row bytes', 'column pointer returned'])

prop('C13', 'Row keys have one total order, and equal keys hash equally',
 'Comparing two rows by key returns the order of the first key column that differs: integers and timestamps by value, UUIDs as 128-bit numbers, strings by unsigned bytes with a proper prefix first. It never depends on columns that are not part of the key, nor on where or how wide the row was laid out. Rows with equal keys have equal hashes.',
 ['inputs'], 'all pairs of rows, all supported key types and multi-column keys',
 NOTEST + 'order laws (antisymmetry, transitivity, hash agreement) quantify over all pairs and triples of keys.',
 ['amelie/db/row/compare.h', 'amelie/db/row/row.h', 'amelie/runtime/base/str.h', 'amelie/runtime/lib/uuid.h', 'amelie/runtime/lib/hash.h'],
 [('compare', 'amelie/db/row/compare.h'), ('row_hash', 'amelie/db/row/row.h'), ('str_compare_fn', 'amelie/runtime/base/str.h')],
 ['sign of the comparison', 'hash value'])

prop('C14', 'A hash index behaves as a map from key to row',
 'After any sequence of inserts, replacements, deletes and lookups, a hash index holds exactly the last row stored under each key: setting a key returns the row it replaced, deleting returns the row that was there, getting or iterating sees every stored key once and no other, and the count of rows is right. This holds while the table is being incrementally rehashed, and for keys whose hashes collide.',
 ['histories', 'inputs'], 'every operation from every well-formed table state; all histories of operations',
 NOTEST + 'collision chains, tombstones and the two tables of an incremental rehash only interact in particular histories.',
 ['amelie/db/index/hash.h', 'amelie/db/index/hash_store.h', 'amelie/db/index/hash_iterator.h', 'amelie/db/index/index_hash.c'],
 [('hash_set / hash_delete / hash_get', 'amelie/db/index/hash.h'), ('hash_rehash', 'amelie/db/index/hash.h'), ('hash_store_*', 'amelie/db/index/hash_store.h')],
 ['returned row', 'rows visited by an iterator'])

prop('C15', 'A tree index behaves as an ordered map with exact range scans',
 'After any sequence of inserts, replacements and deletes, a tree index holds exactly the last row stored under each key, in key order. Opening an iterator at a key positions it at the first row whose key is not less, for any key whether present or not, and iterating from there visits every later row exactly once in ascending order. Replacing or deleting through an iterator affects the row under it and no other.',
 ['histories', 'inputs'], 'every operation from every well-formed tree; all histories of operations and scan positions',
 NOTEST + 'page splits, page removal and scans that start in a gap between pages depend on tree shape and key position together.',
 ['amelie/db/index/tree.c', 'amelie/db/index/tree.h', 'amelie/db/index/tree_iterator.h', 'amelie/db/index/index_tree.c'],
 [('tree_set / tree_unset / tree_seek', 'amelie/db/index/tree.c'), ('tree_iterator_open / next', 'amelie/db/index/tree_iterator.h')],
 ['returned row', 'rows visited by an iterator'])

prop('C16', 'Merged scans return every row once, in order, newest version first',
 'Reading a table through a cursor finds exactly the row of a key, and scanning several sources as one (the indexes of all partitions of a table, and the stored branches of its cold tier) returns every key of every source, none of them skipped when another source ends first. Ordered merges come in ascending key order. When several branches hold the same key it is returned exactly once, in the version of the newest branch. Opening at a key starts at the first key that is not below it.',
 ['histories', 'inputs'], 'all contents and relative positions of the merged sources; all start keys',
 NOTEST + 'skipped or doubled rows need particular interleavings of keys, versions and exhausted sources.',
 ['amelie/db/object/merge_iterator.h', 'amelie/db/index/index_tree_merge.h', 'amelie/db/index/index_hash_merge.h', 'amelie/db/index/index_tree.c', 'amelie/db/index/index_hash.c', 'amelie/db/part/cursor.c', 'amelie/db/part/part_mapping.h'],
 [('cursor_open', 'amelie/db/part/cursor.c'), ('merge_iterator_open / next', 'amelie/db/object/merge_iterator.h'), ('index_tree_merge_open / next', 'amelie/db/index/index_tree_merge.h'), ('index_hash_merge_open / next', 'amelie/db/index/index_hash_merge.h')],
 ['rows visited by a scan'])

prop('C17', 'Stored object files return exactly the rows written, or an error',
 'Rows written to an object file (regions, region index, branches, with or without compression) are read back exactly, in order and from any start key: a lookup finds the first stored row that is not below the key, and totals and sizes in the index match the data. A file that is truncated, torn or has bytes changed is refused or read back to the last complete branch; it never yields rows that were not written.',
 ['inputs', 'crash_points'], 'all row sets and region sizes; every truncation point and byte change',
 NOTEST + 'offsets, sizes and checksums only disagree for particular region boundaries, compression outcomes or crash points.',
 ['amelie/db/object/region.h', 'amelie/db/object/region_writer.h', 'amelie/db/object/region_iterator.h', 'amelie/db/object/meta.h', 'amelie/db/object/meta_writer.h', 'amelie/db/object/meta_iterator.h', 'amelie/db/object/writer.c', 'amelie/db/object/reader.h', 'amelie/db/object/object.c'],
 [('region_writer_add / region_iterator_open', 'amelie/db/object/region_writer.h'), ('meta_writer_add / meta_iterator_open', 'amelie/db/object/meta_writer.h'), ('object_open / reader / writer', 'amelie/db/object')],
 ['rows read back', 'error raised on open or read', 'file contents'])

prop('C19', 'The catalog does what statements say, and the same again after restarts',
 'A DDL statement on storages, databases, tables, columns, indexes, tiers and functions takes effect as it says and changes nothing else, does nothing where IF [NOT] EXISTS says so, or is an error; which of these follows from the catalog alone (names, references, dependencies, what is empty). An aborted or failed statement leaves the catalog, its references and the files in use exactly as they were. What took effect is logged once, as given. The catalog saved by a checkpoint has everything in it, and after a restart the catalog with the log applied again is the one before. A crash or a failed call at any moment of a checkpoint leaves a catalog that can be read: the one before or the new one. Objects of other tables, tiers and storages are never deleted.',
 ['histories', 'crash_points', 'fault_sequences'], 'all histories of statements, aborts, checkpoints, crashes and restarts',
 NOTEST + 'aborts, restarts between any two statements and crashes inside of a checkpoint are not tried by tests.',
 ['amelie/db/catalog/catalog.c', 'amelie/db/catalog/catalog_file.c', 'amelie/db/catalog/table_mgr.c', 'amelie/db/catalog/table_mgr_alter.c', 'amelie/db/catalog/table_index.c', 'amelie/db/catalog/table_tier.c', 'amelie/db/catalog/udf_mgr.c', 'amelie/db/catalog/database_mgr.c', 'amelie/db/storage/storage_mgr.c', 'amelie/db/transaction/relation_mgr.c'],
 [('catalog_execute', 'amelie/db/catalog/catalog.c'), ('catalog_write / catalog_read', 'amelie/db/catalog/catalog_file.c'), ('table_mgr_create / table_mgr_drop / table_mgr_rename', 'amelie/db/catalog/table_mgr.c'), ('table_mgr_column_add / table_mgr_column_drop / table_mgr_column_set', 'amelie/db/catalog/table_mgr_alter.c'), ('storage_mgr_create / storage_mgr_drop / storage_mgr_rename', 'amelie/db/storage/storage_mgr.c'), ('relation_mgr_create / relation_mgr_drop', 'amelie/db/transaction/relation_mgr.c')],
 ['catalog compared with a model', 'result of a statement', 'log record', 'catalog after restart', 'files of tables and tiers'])

prop('C20', 'The write-ahead log returns every committed record exactly, and nothing else',
 'Every record appended to the write-ahead log gets the next log sequence number and reads back with the same commands and rows, in order, across file rotation and for a reader following the log. An append that the device refuses leaves no trace and is reported. After a crash at any byte, reopening keeps exactly the complete records, and new records written afterwards are readable. A damaged record is reported and never returned as valid.',
 ['crash_points', 'fault_sequences', 'histories'], 'all record contents; every byte at which a crash or a failed write can cut; all histories of append, rotate, crash and reopen',
 NOTEST + 'torn writes and damaged bytes have to be tried at every offset of every record.',
 ['amelie/db/wal/wal.c', 'amelie/db/wal/wal_file.h', 'amelie/db/wal/wal_cursor.c', 'amelie/db/transaction/record.h', 'amelie/db/transaction/write.h', 'amelie/db/transaction/write_log.h'],
 [('wal_write / wal_open / wal_truncate', 'amelie/db/wal/wal.c'), ('wal_file_pread', 'amelie/db/wal/wal_file.h'), ('wal_cursor_next / wal_cursor_readahead', 'amelie/db/wal/wal_cursor.c'), ('write_add / write_end / write_log_add', 'amelie/db/transaction')],
 ['records returned by a cursor', 'error raised', 'log sequence number', 'file contents'])

prop('C21', 'Log files are kept as long as recovery, a replica or a backup needs them',
 'Garbage collection of the write-ahead log removes exactly the files whose records all precede both the checkpoint and the position of the slowest registered reader or backup. A registered reader therefore never finds a gap, a backup lists every log file, and recovery from the checkpoint finds every later record. Opening the log directory finds all log files and nothing else.',
 ['histories', 'configurations'], 'all sets of log files, reader positions and checkpoint positions; all histories of append, rotate, checkpoint and reader activity',
 NOTEST + 'which file may go depends on the relative order of file boundaries, readers and checkpoint.',
 ['amelie/db/wal/wal.c', 'amelie/runtime/lib/id_mgr.h', 'amelie/db/wal/wal_slot.h', 'amelie/db/wal/wal_cursor.c'],
 [('wal_gc / wal_slots / wal_snapshot / wal_in_range', 'amelie/db/wal/wal.c'), ('id_mgr_gc_between / id_mgr_find', 'amelie/runtime/lib/id_mgr.h')],
 ['files in the log directory', 'records read by a registered reader'])

prop('C27', 'File reads and writes transfer every byte, or report a failure',
 'A read or write of a file either transfers exactly the requested bytes at the requested offset, each once and in order, or reports failure, whatever the operating system does in between: short transfers, interrupted calls, end of file, a full device, any number of pieces. The size a file object announces is the size of the file, including files of 2 GiB and more.',
 ['fault_sequences', 'inputs'], 'all sizes and offsets; every sequence of short transfers, interruptions and failures',
 NOTEST + 'short transfers and interruptions hardly ever happen on a test machine.',
 ['amelie/runtime/os/vfs.c', 'amelie/runtime/os/file.h', 'amelie/runtime/os/iov.h'],
 [('vfs_read / vfs_pread / vfs_write / vfs_pwrite / vfs_writev / vfs_pwritev', 'amelie/runtime/os/vfs.c'), ('file_write / file_writev / file_pread / file_import', 'amelie/runtime/os/file.h')],
 ['bytes in the file', 'bytes returned', 'error raised'])

prop('C18', 'Changes of a transaction apply to all indexes together, or not at all',
 'Inserting, upserting, updating and deleting a row changes the primary and every secondary index of a partition together; a duplicate of a unique key, a missing row or a full transaction log is refused. Rolling a transaction back, after an error or later, restores every index and row version as it was and releases the rows it created; committing keeps them and releases exactly the versions they replaced, once. Finishing the prepared transactions up to an id finishes exactly those, commits oldest first and rollbacks latest first. What a transaction hands to the write-ahead log replays to the same result, and replay leaves the identity sequence above every recovered value.',
 ['histories', 'inputs', 'fault_sequences'], 'every operation from every consistent partition; all histories of transactions, failures, commits and rollbacks',
 NOTEST + 'a rollback has to be tried after every step of every combination of operations and indexes.',
 ['amelie/db/part/part_op.c', 'amelie/db/transaction/commit.c', 'amelie/db/transaction/log.h', 'amelie/db/transaction/track.h', 'amelie/db/transaction/tr_list.h', 'amelie/db/transaction/limit.h', 'amelie/db/row/sequence.h'],
 [('part_insert / part_upsert / part_update / part_delete / part_apply', 'amelie/db/part/part_op.c'), ('tr_commit / tr_abort / tr_commit_list / tr_abort_list', 'amelie/db/transaction/commit.c'), ('track_sync', 'amelie/db/transaction/track.h'), ('sequence_sync', 'amelie/db/row/sequence.h')],
 ['rows found through each index', 'rows in use in the storage', 'error raised', 'entries in the write log'])

prop('C11', 'Row storage never hands out memory that is in use, and survives a restart',
 'Adding a row to the storage of a partition returns aligned memory of at least the requested size inside one page, not shared with any row in use; a row that cannot fit is refused. Removing a row makes its memory available again and touches no other row. Iterating visits every row in use exactly once, and totals and free lists match. During a snapshot rows that were there stay unchanged: new rows and removals are kept aside and none is lost. A storage file reads back the same rows and free space; a damaged or truncated one is refused.',
 ['histories', 'inputs', 'crash_points'], 'all row sizes; all histories of adds, removes, snapshots, saves and loads; every damaged byte or truncation of a file',
 'The unit suite adds and removes two chunks of a heap; overlap, reuse and accounting only go wrong for particular sizes and orders of adds, removes and snapshots.',
 ['amelie/db/heap/heap.c', 'amelie/db/heap/heap.h', 'amelie/db/heap/heap_iterator.h', 'amelie/db/heap/heap_file.c', 'amelie/db/heap/heap_index.c', 'amelie/db/heap/page_mgr.h'],
 [('heap_add / heap_remove / heap_bucket_of', 'amelie/db/heap/heap.c'), ('heap_push / heap_unlink / heap_up', 'amelie/db/heap/heap.h'), ('heap_iterator_open / next', 'amelie/db/heap/heap_iterator.h'), ('heap_create / heap_open', 'amelie/db/heap/heap_file.c')],
 ['addresses returned', 'rows visited by an iterator', 'row contents', 'error raised'])

prop('C22', 'Conflicting locks are never held together, and no waiting request is forgotten',
 'Locks granted on a relation at any time are pairwise compatible: an exclusive lock excludes everything, changing rows excludes a consistent read of the whole relation. A request that cannot be granted waits behind earlier ones, and is granted as soon as it is first in line and nothing granted conflicts with it; its session is woken up, from whatever thread. A session cancelled while waiting leaves no trace. A statement locks every relation it uses once, in the common order, with a lock at least as strong as each of its uses requires; locks are given back as often as taken.',
 ['schedules', 'histories'], 'every state of a relation (any set of granted locks, any line of waiting requests); all schedules of sessions, statements and cancellations',
 NOTEST + 'lost wakeups, forgotten requests and conflicting grants need a particular interleaving of sessions.',
 ['amelie/runtime/runtime/lock_mgr.h', 'amelie/runtime/runtime/lock.h', 'amelie/runtime/runtime/lock_id.h', 'amelie/runtime/runtime/access.h', 'amelie/runtime/runtime/relation.h', 'amelie/runtime/base/wait.h', 'amelie/runtime/base/bus.h'],
 [('lock_resolve / lock_mgr_lock / lock_mgr_unlock', 'amelie/runtime/runtime/lock_mgr.h'), ('access_add / access_merge / access_sort', 'amelie/runtime/runtime/access.h'), ('event_signal / event_wait', 'amelie/runtime/base/runtime.h')],
 ['locks granted', 'sessions that run', 'sessions that wait'])

prop('C23', 'Every key belongs to exactly one partition, the same one after a restart',
 'A table divides all hash values among its partitions without gap or overlap, for every permitted number of partitions; an impossible number is refused. Every row is routed to the one partition that owns the hash of its key. After a restart, whatever files a crash left behind, exactly the complete partitions are found, on their volumes, with the same hash ranges and rows, incomplete files are removed, and ids in use are not given out again. File names tell id, version and state exactly. New partitions go to the volume with the fewest, never to a paused one; dropping a table leaves no file.',
 ['configurations', 'crash_points', 'inputs'], 'all numbers of partitions and volumes; all ids, versions and states; all hash values; all sets of leftover files',
 NOTEST + 'a gap or overlap appears only for particular partition counts, and leftovers only after a crash.',
 ['amelie/db/part/part_mapping.h', 'amelie/db/part/part_mgr_recover.c', 'amelie/db/part/part_mgr.c', 'amelie/db/part/part.c', 'amelie/db/storage/id.h', 'amelie/db/storage/volume_mgr.h', 'amelie/db/storage/volume.h'],
 [('part_mapping_add / remove / map', 'amelie/db/part/part_mapping.h'), ('part_mgr_recover', 'amelie/db/part/part_mgr_recover.c'), ('id_of / id_path', 'amelie/db/storage/id.h')],
 ['partition a row is routed to', 'partitions and rows after a restart', 'files left'])

prop('C06', 'Dates are the days of the calendar, and nothing else is a date',
 'Every day from 0001-01-01 to 9999-12-31 has one day number, consecutive days have consecutive numbers, and the number converts to the date and its text and back. A text is accepted as a date exactly when it is written yyyy-mm-dd and names a day that exists; anything else, such as February 30, is refused. Adding or subtracting days gives exactly the day that many days away, or is refused when it leaves the range. Year, month and day taken from a date are the ones written.',
 ['inputs'], 'all days, all texts, all year/month/day combinations, all numbers of days',
 NOTEST + 'leap years, century rules and month ends need every day to be tried.',
 ['amelie/runtime/lib/date.c'],
 [('date_set / date_set_gregorian / date_get_gregorian / date_get', 'amelie/runtime/lib/date.c'), ('date_add / date_sub / date_extract', 'amelie/runtime/lib/date.c')],
 ['day number', 'text', 'error raised'])

prop('C07', 'Timestamps and intervals are exact, whatever the time zone',
 'A timestamp text means the instant its fields, fraction and offset say; texts that are malformed or out of range are refused. An instant written as text in any zone reads back as the same instant. The offset applied is the one the table of the zone has in force at that instant; a local time that exists in the zone becomes an instant at which its clock shows it. Adding an interval applies calendar months, then days, then time, to the microsecond, or is refused. Truncation and extraction agree with the clock, for negative intervals too. Interval texts and arithmetic are exact or refused, never wrapped.',
 ['inputs', 'configurations'], 'all texts, instants, intervals, zones and zone tables',
 NOTEST + 'errors sit at zone transitions, range ends, negative values and overflow, for particular zones only.',
 ['amelie/runtime/lib/timestamp.c', 'amelie/runtime/lib/interval.c', 'amelie/runtime/lib/timezone.c', 'amelie/runtime/lib/timezone_mgr.c'],
 [('timestamp_set / timestamp_get / timestamp_get_unixtime / timestamp_add', 'amelie/runtime/lib/timestamp.c'), ('interval_set / interval_get / interval_trunc / interval_extract', 'amelie/runtime/lib/interval.c'), ('timezone_match', 'amelie/runtime/lib/timezone.c')],
 ['instant', 'text', 'offset', 'error raised'])

prop('C05', 'Binary data survives base64 and base64url text exactly',
 'Encoding any bytes as base64 or base64url gives the text RFC 4648 defines (padded for base64, unpadded for base64url), and decoding that text gives back exactly the same bytes. Decoding a text gives the bytes its characters stand for; a text with a character outside the alphabet is refused, whatever byte that is. Encoding and decoding append to the output buffer, keep what is there and touch no memory outside of it.',
 ['inputs'], 'all byte strings and all texts',
 NOTEST + 'tails, padding and bytes above 127 need texts nobody writes in a test.',
 ['amelie/runtime/lib/base64.c', 'amelie/runtime/lib/base64url.c'],
 [('base64_encode / base64_decode', 'amelie/runtime/lib/base64.c'), ('base64url_encode / base64url_decode', 'amelie/runtime/lib/base64url.c')],
 ['text', 'bytes', 'error raised'])

prop('C08', 'UUID and UTF-8 text are accepted exactly when well-formed',
 'A text is accepted as an UUID exactly when it is 8-4-4-4-12 hexadecimal digits in either case and nothing else; the UUID has the digits written, prints them back in lower case, and reads back as the same UUID. UUIDs compare as a total order, equal only when the same. A byte sequence is accepted as a character exactly when it is well-formed UTF-8 (RFC 3629: shortest form, no surrogates, at most 10FFFF), giving its code point and moving over exactly its bytes; counting and stepping over a well-formed text, forwards or backwards, visits exactly its characters.',
 ['inputs'], 'all texts, all byte sequences, all UUIDs',
 NOTEST + 'overlong forms, surrogates, truncated sequences and trailing garbage are inputs no test tries.',
 ['amelie/runtime/lib/uuid.c', 'amelie/runtime/lib/uuid.h', 'amelie/runtime/lib/utf8.h'],
 [('uuid_set / uuid_get', 'amelie/runtime/lib/uuid.c'), ('uuid_compare', 'amelie/runtime/lib/uuid.h'), ('utf8_next / utf8_forward / utf8_backward / utf8_strlen', 'amelie/runtime/lib/utf8.h')],
 ['value', 'text', 'refusal'])

prop('C28', 'Checksums are CRC-32C on every machine, in one piece or in several',
 'The checksum of a block of data is its CRC-32C, for every length, alignment and starting value, whichever implementation (table driven or SSE 4.2) the machine selects, so that files written on one machine are accepted on another. A checksum made piece by piece equals the one made at once. Damage to one or two bits, or to any 32 bits next to each other, changes the checksum. Computing a checksum reads nothing outside of the block.',
 ['inputs', 'configurations'], 'all blocks, lengths, alignments, starting values and ways to cut a block into pieces; both implementations',
 NOTEST + 'the implementation in use depends on the machine, and tails and alignments on the data.',
 ['amelie/runtime/lib/crc.c'],
 [('crc32 / crc32_sse', 'amelie/runtime/lib/crc.c')],
 ['checksum'])

prop('C09', 'Buffers, arenas, lists, strings and queues lose and mix up nothing',
 'A buffer contains exactly the bytes written to it, in order, however often it grows; memory reserved or allocated from a buffer, an arena or a buffer cache is inside the allocation and never handed out while in use. A list has exactly the nodes linked to it, in order, from both ends. The queue between threads delivers every item exactly once, in the order each producer wrote it, whatever the interleaving; it never overwrites an item not read yet. Text helpers split, compare and convert exactly, and arithmetic reports every overflow.',
 ['schedules', 'histories', 'inputs'], 'all histories of operations and sizes; every interleaving of producers and the consumer, any queue positions; all texts and numbers',
 NOTEST + 'lost or overwritten items need a full queue and a particular interleaving.',
 ['amelie/runtime/base/ring.h', 'amelie/runtime/base/buf.h', 'amelie/runtime/base/buf_cache.h', 'amelie/runtime/base/arena.h', 'amelie/runtime/base/list.h', 'amelie/runtime/base/str.h', 'amelie/runtime/base/overflow.h'],
 [('ring_write / ring_read', 'amelie/runtime/base/ring.h'), ('buf_reserve / buf_write', 'amelie/runtime/base/buf.h'), ('arena_allocate', 'amelie/runtime/base/arena.h'), ('list_append / list_unlink', 'amelie/runtime/base/list.h'), ('str_split / str_toint / str_compare_fn', 'amelie/runtime/base/str.h')],
 ['items received', 'contents of a buffer', 'addresses returned'])

prop('C10', 'Search trees and hash tables contain exactly what was put in',
 'After any history of adding, replacing and removing nodes, looking up a key in a red-black tree or a hash table finds the node exactly when it is there; walking a tree forwards or backwards visits every node once in key order, and walking a table visits every node once. A tree stays balanced: no path from the root is more than twice as long as another. Removing a node changes the place of no other node found later, colliding or not, and growing a table loses none.',
 ['histories', 'inputs'], 'all histories of operations, keys and hash values, colliding or not',
 NOTEST + 'rebalancing cases and collisions show up only for particular orders of adding and removing.',
 ['amelie/runtime/lib/rbtree.c', 'amelie/runtime/lib/rbtree.h', 'amelie/runtime/lib/hash_table.h'],
 [('rbtree_set / rbtree_remove / rbtree_next / rbtree_prev', 'amelie/runtime/lib/rbtree.c'), ('hashtable_set / hashtable_get / hashtable_delete / hashtable_reserve', 'amelie/runtime/lib/hash_table.h')],
 ['nodes found', 'order of nodes'])

prop('C03', 'Stored documents are walked, compared and decoded by their values',
 'In any well-formed encoded document, stepping over a value moves exactly behind it; counting, indexing and searching an array or object, and following a path of keys, finds exactly the element or key that is there, the first of equal keys, or reports that there is none. Comparing two values is a total order: zero exactly for equal values, null before booleans, reals, integers, strings, objects and arrays, otherwise decided by the first difference, arrays and objects element by element. Decoding an object into typed fields takes each field only from a value of its type, copies it exactly, and refuses a missing or wrong one.',
 ['inputs'], 'all well-formed documents of any shape and nesting, all indexes, keys and paths, all lists of typed fields',
 NOTEST + 'mistakes in skipping nested values appear only for particular shapes of a document.',
 ['amelie/runtime/json/json_op.h', 'amelie/runtime/json/json_compare.h', 'amelie/runtime/json/decode.h'],
 [('json_skip / json_array_find / json_obj_find / json_obj_find_path', 'amelie/runtime/json/json_op.h'), ('json_compare', 'amelie/runtime/json/json_compare.h'), ('decode_obj', 'amelie/runtime/json/decode.h')],
 ['value found', 'order', 'fields', 'error raised'])

prop('C04', 'JSON text is read exactly as written and written as valid JSON',
 'A text is accepted as JSON exactly when it begins with a well-formed value, and the value stored is the one written: every digit of an integer, every escape and surrogate pair of a string, every key and element in order. Reading ends right behind the value and looks at no byte outside of the text. Anything else is refused with an error, whatever the nesting, and never crashes. Every stored value is exported as valid JSON (RFC 8259): quotes, backslashes and control characters are escaped, and reading the export gives an equal value, reals to the six digits printed.',
 ['inputs'], 'all texts, of any nesting, and all stored values',
 NOTEST + 'truncated numbers, odd escapes, control characters and deep nesting are inputs no test tries.',
 ['amelie/runtime/json/json_parser.c', 'amelie/runtime/json/json_export.c', 'amelie/runtime/json/escape.h'],
 [('json_parse', 'amelie/runtime/json/json_parser.c'), ('json_export', 'amelie/runtime/json/json_export.c'), ('escape_str / unescape_str', 'amelie/runtime/json/escape.h')],
 ['stored value', 'exported text', 'error raised'])

prop('C25', 'Only valid tokens authenticate, and only as the user they name',
 'A request is authenticated exactly when its token is "Bearer header.payload.digest" with header alg HS256 and typ JWT, the digest is HMAC-SHA256 of header.payload under the current, non-empty secret of the existing user named by sub, and iat and exp are set, in order, and exp is in the future. A token seen before is judged the same way: changing any of it, expiry, and dropping the user or changing the secret (once synchronized) end it. Tokens the server issues name the user, time and expiry asked for and are accepted. Users are exactly those created and not dropped, with their last secrets, also after a restart.',
 ['histories', 'inputs'], 'all tokens, genuine, forged, damaged or recombined; all histories of users, secrets, synchronization and time',
 NOTEST + 'forged and recombined tokens, cache hits and changes of users have to come in a particular order.',
 ['amelie/server/auth/auth.c', 'amelie/server/auth/auth_cache.c', 'amelie/server/auth/jwt.c', 'amelie/server/auth/jwt_encode.c', 'amelie/server/auth/jwt_decode.c', 'amelie/server/user/user_cache.h', 'amelie/server/user/user_config.h', 'amelie/server/user/user_mgr.c'],
 [('auth / auth_sync', 'amelie/server/auth/auth.c'), ('jwt_decode / jwt_decode_data / jwt_decode_validate', 'amelie/server/auth/jwt_decode.c'), ('jwt_create', 'amelie/server/auth/jwt.c'), ('user_mgr_create / drop / alter / open', 'amelie/server/user/user_mgr.c')],
 ['user authenticated or not', 'token issued', 'users after restart'])

prop('C26', 'URIs and HTTP messages mean to the reader what the writer wrote',
 'A connection URI or request URL is read as the protocol, user, secret, host, port, database, relation and arguments written in it, percent-decoded; malformed ones are refused, and nothing is left from an earlier one. Exporting an endpoint gives a URI that reads back as the same endpoint; copying or storing it keeps every field. A request or reply written by one side is read by the other with the same first line, headers in order, arguments and content, however the network splits the bytes; the next message begins right behind the content length announced. Malformed, truncated and oversized messages are refused.',
 ['inputs', 'schedules'], 'all texts, endpoints and messages; all ways the network splits a stream into pieces',
 NOTEST + 'splits inside the header end, pipelined messages and reserved characters are not tried by tests.',
 ['amelie/server/http/uri.c', 'amelie/server/http/http.c', 'amelie/server/http/endpoint.c', 'amelie/runtime/os/readahead.h'],
 [('uri_parse / uri_parse_endpoint / uri_export', 'amelie/server/http/uri.c'), ('http_read / http_read_content_limit / http_begin_request / http_begin_reply', 'amelie/server/http/http.c'), ('endpoint_copy / endpoint_read / endpoint_write', 'amelie/server/http/endpoint.c'), ('readahead_read / readahead_pushback', 'amelie/runtime/os/readahead.h')],
 ['fields read', 'content', 'error raised', 'bytes left for the next message'])

prop('C24', 'Options and state keep what was set, across restarts and crashes',
 'Setting an option, from the command line, JSON or a file, either stores exactly that value or raises an error and leaves that option as it was: unknown options, options that cannot be changed, values of another type, numbers that do not fit and zero where it is not allowed are errors. It is reported whether a saved option was set. Saving and opening the configuration or the state gives back every saved option exactly; what is not saved starts with its default. Lists shown never have hidden or secret options. State saved is on disk: after a crash at any moment it can be opened and is the one before or the one saved, never a part; a failed save leaves the one before.',
 ['histories', 'crash_points', 'inputs'], 'all values of all options, all histories of changes, saves and restarts, all moments of a crash',
 NOTEST + 'a crash inside of a save, quoting in saved text and rejected values are not tried by tests.',
 ['amelie/runtime/runtime/opt.h', 'amelie/runtime/runtime/opts.c', 'amelie/runtime/runtime/config.c', 'amelie/runtime/runtime/state.c', 'amelie/runtime/lib/arg.h'],
 [('opt_set / opt_set_json / opt_encode', 'amelie/runtime/runtime/opt.h'), ('opts_set / opts_set_argv / opts_list / opts_list_persistent', 'amelie/runtime/runtime/opts.c'), ('state_save / state_open', 'amelie/runtime/runtime/state.c'), ('config_save / config_open', 'amelie/runtime/runtime/config.c')],
 ['value of an option', 'error raised', 'state after restart'])

prop('C29', 'Nobody who waits is forgotten, and every error cleans up once',
 'A timer fires once, at its time and not before, earlier ones first, equal ones in the order started, and never after it was stopped. Waiting for an event ends when it is signalled, also when the signal came before or from another thread, or at the time given, and tells which; nobody else is woken. A message or request sent to a task is received once, in the order sent, and its sender is woken with its result; nobody abandons requests that are still being executed. A coroutine created or woken runs in turn; the end of one wakes who waits for it. Cancelling one ends its wait with an error; while cancellation is paused it takes effect at the end of the pause. An error goes to the nearest catch and runs every deferred cleanup passed, exactly once, latest first.',
 ['schedules', 'histories'], 'all orders of signals, timeouts, cancels, messages and ends of coroutines, from any thread; all nestings of errors and cleanups',
 NOTEST + 'lost wakeups and abandoned requests need a particular order of events inside the scheduler.',
 ['amelie/runtime/base/wait.h', 'amelie/runtime/base/timer_mgr.c', 'amelie/runtime/base/coroutine_mgr.h', 'amelie/runtime/base/bus.h', 'amelie/runtime/base/rpc_set.h', 'amelie/runtime/base/task.c', 'amelie/runtime/base/exception.h', 'amelie/runtime/base/defer.h'],
 [('event_wait / event_signal', 'amelie/runtime/base/runtime.h'), ('timer_mgr_add / timer_mgr_step / timer_mgr_remove', 'amelie/runtime/base/timer_mgr.c'), ('rpc / rpc_set_wait', 'amelie/runtime/base/rpc_set.h'), ('coroutine_mgr_scheduler / coroutine_cancel', 'amelie/runtime/base/coroutine_mgr.h'), ('mainloop / task_execute', 'amelie/runtime/base/task.c')],
 ['who runs, and when', 'result of a wait', 'messages received', 'cleanups run'])

prop('C30', 'Connections carry exactly the bytes sent, in order, encrypted if asked for',
 'What one end of a connection writes is what the other end reads: every byte once, in order, whatever the sizes of the writes and reads and however little the network takes or gives at a time, plain or encrypted; bytes sent and received are counted exactly, and a read reports the end exactly when the peer has closed. Nobody waits for ever: a read or write waits only for the network and lets others run meanwhile; writing to a peer which has gone is an error; a cancelled wait is an error that leaves nothing registered, and the connection stays usable. Errors of one connection never break another. A client of which encryption is asked encrypts every connection, the first and all later ones; it accepts exactly a server whose certificate is for the name asked for (a wildcard stands for one label) and, if an authority is given, signed by it; unusable certificates and keys are refused. A failed connection leaves nothing behind.',
 ['inputs', 'histories', 'schedules'], 'all sizes and splits of transfers, all answers of network and TLS library, all moments of a close or cancel, all certificate names',
 NOTEST + 'short transfers, partial TLS records, vanished peers and reconnects are not tried by tests.',
 ['amelie/runtime/os/tcp.c', 'amelie/runtime/os/tls.c', 'amelie/runtime/os/tls_context.c', 'amelie/runtime/os/poll.h', 'amelie/runtime/os/socket.c', 'amelie/runtime/os/listen.c', 'amelie/server/client/client.c'],
 [('tcp_read / tcp_write', 'amelie/runtime/os/tcp.c'), ('tls_read / tls_write / tls_handshake / tls_verify_name', 'amelie/runtime/os/tls.c'), ('poll_read / poll_write', 'amelie/runtime/os/poll.h'), ('client_connect / client_accept', 'amelie/server/client/client.c')],
 ['bytes read by the peer', 'error raised', 'whether a connection is encrypted', 'counters'])
