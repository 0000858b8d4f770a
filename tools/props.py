"""The table from which properties.jsonl and MANIFEST.json are written (tools/gen.py)."""
NOTES = ("Every check is `python3 check.py <id>`: it dumps the MIR of /repo's current working tree (the part that compiles here) with the "
         "rustc driver in driver/, interprets it abstractly (sa/interp.py, all paths, unbounded symbolic inputs) and compares each path's effects "
         "or results with the specification written in rules/*.py. Nothing of /repo is executed and no solver is used.")
TRUST = "Trusts rustc's MIR, the facts driver, the abstract interpreter and its model of the standard library. "
AI = "abstract interpretation of MIR against a decision table"
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, tech=AI, note="", na=None, state=None, how=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      tech=tech, note=TRUST + note, na=na, state=state, how=how))


EX = "src/sql/execution/expressions/"
P("V01", "AND, OR and NOT follow SQL three-valued logic",
  "For every pair of truth values TRUE, FALSE, NULL of its operands, a logical expression evaluates to the SQL three-valued result "
  "(FALSE AND NULL is FALSE, TRUE OR NULL is TRUE, NOT NULL is NULL, and so on), identically in ordinary evaluation and in join evaluation.",
  ["inputs", "programs"], "all operand truth values, all nestings (the operands are arbitrary expressions), both evaluation modes",
  "Tests evaluate a few constants; the table must hold for operands produced by any sub-expression, in both modes.",
  [EX + "logic_expression.rs"], [("LogicExpression::evaluate / evaluate_join", EX + "logic_expression.rs")],
  note="The operands' own evaluation is an oracle returning every value, so the result covers every nesting.")
P("V02", "Comparisons compare the operands' values; NULL operands give NULL",
  "Comparing two values with =, <>, <, <=, > or >= gives NULL exactly when an operand is NULL, and otherwise the truth of that relation between the operands' values; "
  "two numeric operands of any two numeric types are compared by numeric value in the wider of the two types, never after a narrowing conversion. "
  "Comparison expressions, including IS NOT NULL, give the same answers in ordinary and in join evaluation.",
  ["inputs"], "all pairs of values of all types",
  "The existing tests sample equal-typed operands; the relation has to hold for every pair of types and every ordering of the payloads.",
  ["src/types_db/value.rs", "src/types_db/types.rs", EX + "comparison_expression.rs"],
  [("Value::compare_*", "src/types_db/value.rs"), ("ComparisonExpression::evaluate", EX + "comparison_expression.rs")],
  note="Payloads are unbounded symbols; every abstract path's verdict must equal the relation in every ordering the path condition allows.")
P("V03", "Arithmetic is exact in the wider type, or an error; it never wraps or aborts",
  "Adding, subtracting, multiplying or dividing two numeric values gives the exact result in the wider of the operand types (integer division truncates towards zero); "
  "an integer result outside that type and a division by zero are reported as errors, and no numeric operands abort the process. "
  "Arithmetic expressions compute the same in ordinary and in join evaluation, with the operands in the order written.",
  ["inputs"], "all pairs of numeric values of all numeric types, including the extreme values of each type",
  "Overflow, i64::MIN / -1 and mixed-type operands are single points in a space that tests sample at small numbers.",
  ["src/types_db/value.rs", EX + "arithmetic_expression.rs"],
  [("Value::add/subtract/multiply/divide/modulo", "src/types_db/value.rs"), ("ArithmeticExpression::apply", EX + "arithmetic_expression.rs")],
  note="Float results are checked as terms (operation and widening casts), not numerically.")
P("V05", "Casts preserve the value or fail",
  "Casting a value to its own type is the identity, and casting NULL gives NULL. "
  "Casting a numeric or boolean value to another numeric or boolean type gives the same numeric value (a fraction is truncated towards zero) when the target type can represent it "
  "and an error when it is outside the target's range; it never wraps, saturates or changes the value silently.",
  ["inputs"], "all numeric and boolean values, all ordered pairs of numeric and boolean types",
  "The boundary values of each pair of types (64 pairs) are not sampled by tests.",
  ["src/types_db/value.rs"], [("Value::cast_to", "src/types_db/value.rs")],
  note="Ranges are decided on the path conditions at representative values around every threshold that occurs in them.")
P("V06", "Values that are equal hash equally",
  "Whenever two values compare equal under the equality used for hash tables and grouping, their hashes are equal, "
  "for all pairs of types including values of different types that are considered equal.",
  ["inputs"], "all pairs of values of all types",
  "A single pair of equal values with different hashes silently loses join matches and duplicates groups; tests hash a handful of values.",
  ["src/types_db/value.rs"], [("impl PartialEq/Hash for Value", "src/types_db/value.rs")],
  note="Every pair of abstract paths on which equality can hold is compared with the key fed to the hasher.")
LM = "src/concurrency/lock_manager.rs"
P("C01", "Conflicting locks are never held together; held locks are never lost",
  "Locks that different transactions hold on the same table or row are compatible under the IS/IX/S/SIX/X matrix after every request, conversion, release and transaction end, and the record of what each transaction holds agrees with the lock queues. "
  "A request never weakens what its transaction already holds, a request that conflicts with nobody is granted, a release gives back exactly the caller's locks, and it wakes exactly the waiters that no longer conflict. "
  "Nothing of an ended transaction, granted or waiting, stays behind, and none of these operations blocks on a lock it holds itself.",
  ["histories", "schedules"], "every lock state with up to three transactions holding and waiting in every combination of modes, every operation in it",
  "The tests grant a few modes on an empty table; conversions, waiters and releases beside other holders are not exercised.",
  [LM], [("LockRequestQueue::grant_lock, LockStateManager::grant_*/release_*/force_release_txn", LM)],
  tech="inductive invariant over abstract lock states, by abstract interpretation of each operation's MIR",
  note="Operations run under the manager's mutexes, so the states between them are all that schedules can produce. States have at most three transactions.",
  state=[("lock queues", "requests per table or row, in order, granted or waiting", LM), ("lock sets", "what each transaction holds", LM)])
P("C02", "Two-phase locking by isolation level and transaction state",
  "A transaction that has committed, aborted or failed acquires no lock; one that has started to release acquires none under repeatable read, serializable or snapshot isolation, and only shared ones under read committed; read uncommitted takes no shared locks at all. "
  "A row lock is never an intention mode and is granted only to a transaction whose table lock permits it; a table lock cannot be released while the transaction has row locks in that table, and releasing what is not held fails without effect. "
  "Releasing an exclusive lock (a shared one too under repeatable read and serializable) starts the shrinking phase, and no lock operation changes a committed or aborted transaction's state.",
  ["histories", "programs"], "all isolation levels, transaction states, lock modes, table locks held and lock operations",
  "The tests check single entries of the table; the rest of the combinations decide whether histories are serializable.",
  [LM, "src/concurrency/transaction.rs"], [("LockManager::lock_table/lock_row/unlock_table/unlock_row", LM), ("Transaction::set_state", "src/concurrency/transaction.rs")],
  note="The mode passed to an unlock is the mode held; one table and one row.")
P("C03", "Deadlocks are found, and only deadlocked transactions are aborted",
  "A refused request makes its transaction wait for exactly the transactions whose locks conflict with it, a granted one waits for nobody, and after a release every waiter waits for exactly those still in its way. "
  "The detector reports a deadlock exactly when the waits-for graph has a cycle and names the highest transaction of a cycle as the victim; only the victim is told to abort.",
  ["schedules", "histories"], "all waits-for graphs over three transactions in every iteration order, selected graphs over four; all combinations of granted modes and requests of up to three transactions",
  "Which edges exist depends on who holds what when the request is made, and on hash iteration order; the tests insert edges by hand.",
  [LM], [("DeadlockDetector::has_cycle, dfs_cycle", LM), ("LockManager::lock_table/lock_row/unlock_table/force_release_txn/check_deadlock", LM)],
  note="The timing of the background thread is not modelled; it calls the same detector on a copy of the graph.")

TMF, TTF, FACF, WMF = "src/concurrency/transaction_manager.rs", "src/storage/table/transactional_table_heap.rs", "src/concurrency/transaction_manager_factory.rs", "src/concurrency/watermark.rs"
TBL = "decision table over abstract states, by abstract interpretation of each operation's MIR"
P("C04", "However a transaction ends, its locks are released and its end is logged once",
  "Every path through commit and abort releases all locks of the transaction, and only after it has ended; this includes refused commits, failed page flushes and transactions that had ended before. "
  "The commit or abort record is written before the end takes effect, exactly once per transaction, and never for a transaction that has already ended. "
  "A commit is reported successful only when the transaction has committed, and a transaction that was aborted is reported as not committed.",
  ["histories", "fault_sequences"], "all transaction states, with and without a log, every combination of success and failure of the steps",
  "A path that returns early on an I/O error or a refused commit keeps locks for ever; tests run the successful path.",
  [FACF], [("TransactionManagerFactory::begin/commit/abort_transaction", FACF)], tech=TBL, note="The lock manager, log and pool are stand-ins that may fail.")
P("C05", "Transactions begin with a fresh snapshot and end exactly once",
  "A new transaction gets a fresh identifier and a read timestamp that is registered as live in the same step; after shutdown none can begin and every unfinished transaction has been aborted. "
  "Commit gives a timestamp later than every timestamp handed out before, stamps exactly the row versions the transaction wrote, and no snapshot can be taken between the timestamp and the stamping; abort and commit both unregister the snapshot. "
  "A committed or aborted transaction never changes state, timestamp or rows again.",
  ["histories", "schedules"], "all transaction states, row histories and sets of other live snapshots",
  "A snapshot that starts between a commit's timestamp and its stamping misses the commit; no test schedules that.",
  [TMF, "src/concurrency/transaction.rs"], [("TransactionManager::begin/commit/abort/shutdown", TMF), ("Transaction::set_state/commit", "src/concurrency/transaction.rs")],
  tech=TBL, note="Atomicity is decided as lock coverage: the stamping happens while the lock that begin takes is held.",
  state=[("transaction map", "live and recently ended transactions", TMF), ("active timestamps", "the live snapshots", WMF)])
P("C06", "Nothing a live snapshot can still need is discarded",
  "Timestamps handed out are unique and increasing, and the watermark is always the oldest live snapshot, or the next timestamp when there is none. "
  "Pruning and garbage collection keep the undo log and the undo link of every transaction that is unfinished or committed after the watermark, and do discard what no snapshot can reach.",
  ["histories", "schedules"], "all orders of live snapshots, commit timestamps and transaction states",
  "Discarding a version too early only shows when an old snapshot reads that row after a collection.",
  [WMF, TMF], [("Watermark", WMF), ("TransactionManager::garbage_collection, prune_completed_transactions", TMF)], tech=TBL, note="Timestamps matter only by order; orders around the watermark are enumerated.")
P("C07", "Each isolation level sees exactly the versions it should",
  "A read at snapshot, serializable or repeatable read returns the transaction's own newest version, or else the newest version committed at or before its read timestamp; read committed returns its own or the newest committed version; read uncommitted returns the newest version. "
  "When that version is a deletion, or there is none, the read finds nothing; both read paths of a table agree.",
  ["histories", "schedules"], "all isolation levels, read timestamps and version histories of a row with up to six versions, committed, uncommitted, own and deleted",
  "Which version is visible depends on the interleaving of commits with the reader's snapshot; tests fix a few.",
  [TTF, "src/storage/table/table_heap.rs", "src/storage/table/tuple.rs"],
  [("TransactionalTableHeap::get_tuple", TTF), ("TableHeap::get_tuple_with_txn", "src/storage/table/table_heap.rs"), ("TupleMeta::visibility_status", "src/storage/table/tuple.rs")],
  tech=TBL, note="The page read is a stand-in returning the row's newest version; undo logs and links are exactly those writes produce (C08).")
P("C08", "Writes are versioned, conflict-checked and lock-covered",
  "Updating or deleting a row is accepted exactly when the transaction is running, the row is live, its newest version is the transaction's own or committed (and, at repeatable read and above, committed no later than its snapshot), and nobody changed it since it was read. "
  "An accepted write keeps the replaced version reachable, with its timestamp and its own history, before the row changes, and is recorded for commit and abort; a refused one leaves the row and its history as they were. "
  "Inserting requires an exclusive or intention-exclusive lock on the table and creates exactly the transaction's own uncommitted version.",
  ["histories", "schedules", "fault_sequences"], "all row histories, isolation levels, transaction states; another writer getting in between; the page refusing the write",
  "Lost updates and broken version chains need two writers at the right moment, or a full page.",
  [TTF, "src/storage/table/table_heap.rs"], [("TransactionalTableHeap::update_tuple/delete_tuple/insert_tuple", TTF)], tech=TBL,
  note="The page is a stand-in whose row may have changed since it was read.")
P("C09", "Abort puts every row back as it was",
  "Aborting a transaction restores, for every row it wrote, the version it first replaced with that version's owner, timestamp, deletion mark and history, however often it wrote the row; rows it inserted end up deleted. "
  "Versions written by other transactions are never touched, and the transaction counts as aborted only after its rows are back.",
  ["histories", "fault_sequences"], "all row histories with up to three own versions over committed ones, write sets of up to three rows",
  "Tests abort a single update of a fresh row; repeated writes, deletes and chains of older versions are not covered.",
  [TMF], [("TransactionManager::abort, rollback_row", TMF)], tech=TBL, note="The page is a stand-in; undo logs are exactly those writes produce (C08).")

TPF, PGD = "src/storage/page/page_types/table_page.rs", "src/storage/page/page_types/"
ST = "abstract interpretation of MIR over operation histories with opaque contents"
P("E01", "Rows in a page never overlap, and read back exactly as last written",
  "After any sequence of inserts, updates, deletions and metadata changes on a table page, every row and its metadata reads back exactly as last written, and the counts of rows and deleted rows are right. "
  "A refused operation changes nothing, a deleted row is shown only to readers that ask for deleted rows, and a row that does not exist is never returned. "
  "A row can always be put back to a size it had before, and its metadata can always be replaced, however full the page is.",
  ["histories", "inputs"], "all contents; histories of up to six operations over rows of mixed sizes, and pages filled to the last byte",
  "Overlaps appear only for particular size sequences near the free-space boundary; tests insert a few small rows.",
  [TPF], [("TablePage::insert_tuple/insert_tuple_with_rid/update_tuple/update_tuple_meta/get_tuple", TPF)], tech=ST,
  note="Row and metadata encodings are opaque bytes of the real length; sizes are enumerated around every threshold.")
P("E02", "A page's bytes are its whole state: what is written out is what is read back",
  "After every change, the bytes that would be written to disk for a page, loaded into a blank page of the same type, give back the same rows, metadata, links, counts and page identifier, and the page accepts further changes. "
  "Every accepted change of a table page marks it dirty, and bytes that are not an image of that page type are refused without aborting.",
  ["histories", "crash_points"], "all contents; histories of up to ten operations and full pages",
  "The loss shows only after an eviction and a reload of a page in a particular state; tests keep pages in memory.",
  [TPF, PGD + "b_plus_tree_leaf_page.rs", PGD + "extendable_hash_table_bucket_page.rs"], [("TablePage::serialize/deserialize/set_data/get_data", TPF)], tech=ST,
  note="Histories are explored for table pages; for index pages, which do not satisfy this, one change per page type is.")

LGM, WM = "src/recovery/log_manager.rs", "src/recovery/wal_manager.rs"
P("D01", "A commit is acknowledged only when its log record is on disk",
  "A commit reports success, and its changes become visible, only after its log record and every record logged before it have been written and synced; when the log device fails it reports failure instead and its changes are undone. "
  "Records reach the log in the order of their sequence numbers, each exactly once, and nothing after a lost record ever counts as persistent.",
  ["schedules", "crash_points", "fault_sequences"], "all batchings of records and commits, every point of failure of the log device, every state of the log when a commit arrives",
  "Losing an acknowledged commit needs a crash or an I/O error between two particular operations; tests run with a healthy disk.",
  [LGM, WM, FACF], [("LogManager::append_log_record, run_flush_thread", LGM), ("commit_transaction", FACF)], tech=ST,
  note="The flush task's own code is interpreted against a scripted channel and disk; ten batchings, each with every single point of failure.")
LRF, LIF = "src/recovery/log_record.rs", "src/recovery/log_iterator.rs"
P("D02", "The log reads back as the records that were written",
  "Reading a log from its start yields exactly the records that were appended, in order and each once, whatever their sizes; a record that was cut short by a crash at the end of the log, and a tail of zeros, end the log instead of being decoded. "
  "A record keeps the transaction, kind, predecessor, rows and pages it was made from, and answers questions about them with those.",
  ["inputs", "crash_points"], "record sizes across byte, page and 64 KB boundaries, cuts inside the last record, zeroed tails; every kind of record",
  "The sizes and cut points that break a frame are a handful among thousands; tests write a few small records and never cut the file.",
  [LRF, LIF], [("LogIterator::next", LIF), ("LogRecord::to_bytes, from_bytes, new_*", LRF)], tech=ST,
  note="The payload encoding is opaque (E03 covers it); a record torn in the middle of the log is out of scope because records carry no checksum.")
LRC = "src/recovery/log_recovery.rs"
P("D04", "Recovery leaves exactly what the committed transactions did",
  "Whatever prefix of the log and of each page's changes reached the disk, after recovery every row reads as the transactions whose commit record is in the log left it, and nothing of aborted or unfinished transactions remains visible. "
  "Recovery logs the end of every unfinished transaction once and continues the log's numbering above everything in it. Being interrupted and repeated, it leads to the same rows.",
  ["crash_points", "histories"], "two dozen interleaved transaction histories, every prefix of the log with every combination of page states, and repeated recoveries",
  "Which pages were written before the crash and where the log ends multiply into thousands of states; the tests restart from one or two of them.",
  [LRC, "src/recovery/log_manager.rs"], [("LogRecoveryManager::start_recovery", LRC), ("LogManager::resume_after", "src/recovery/log_manager.rs")], tech=ST,
  note="Rows fit their page throughout; pages missing from the disk are the last ones. Which changes the engine logs is outside this property: recovery is decided against a complete log of inserts, updates and deletes.")
CAT = "src/catalog/system_catalog.rs"
P("E03", "Stored data decodes to what was encoded",
  "Every value, row, row header, schema, catalog row, log record and message that is encoded for storage or for the network decodes to the same contents, field by field and variant by variant; "
  "only a row's own position is left out, because it follows from where the row is stored. Record identifiers and key bytes decode to the value they were made from.",
  ["inputs"], "all contents of every stored type, every variant",
  "A field that is left out, narrowed or swapped shows only for contents the tests do not use; the number of variants is far beyond what they sample.",
  ["src/types_db/value.rs", "src/storage/table/tuple.rs", "src/recovery/log_record.rs", "src/catalog/column.rs", "src/common/rid.rs", CAT],
  [("derived serializers and visitors", "src/types_db/value.rs"), ("TableCatalogRow::to_values/from_tuple", CAT), ("RID::to_bytes_le", "src/common/rid.rs")],
  tech="abstract interpretation of MIR with symbolic contents, encoder composed with decoder",
  note="The wire format itself (postcard) is trusted to be faithful for a sequence of fields; vectors and numbers as index keys are out of scope.")

IOX, IOE, IOC, IOQ, IOW = ["src/storage/disk/async_disk/io/" + x + ".rs" for x in ("executor", "io_impl", "completion", "queue", "worker")]
P("F02", "Bytes on disk stay where they were put, and device errors are reported",
  "A page read returns the page last written under that number and touches no other page; a log read returns the bytes at that offset, and appending puts bytes at the end of the log and answers where. "
  "Reads past the end and pages of the wrong size are refused without changing anything, a write is pushed to the system before it reports success, and a sync reaches the file it is meant for. "
  "If the device fails at any step, the operation reports failure.",
  ["histories", "inputs", "fault_sequences"], "sequences of page and log operations in both I/O modes, each with every single device call failing",
  "Wrong offsets show only for particular mixes of overwrites and appends, and tests never make the device fail.",
  [IOX], [("IOOperationExecutor::execute_operation_type", IOX)], tech=ST,
  note="The file is a stand-in with the semantics of a tokio File; the aligned buffer for direct I/O is trusted to hold the bytes it was given.")
P("F03", "Every disk operation is executed and answered exactly once",
  "A queued operation carries the request it was made from, is executed at most once and only while nobody has given up on it, and its caller gets exactly its own result; an operation that failed, timed out or was cancelled never looks successful. "
  "An operation ends once: whatever completes, fails or cancels it later is refused, and a pending one is never forgotten. More urgent operations leave the queue first, and equally urgent ones in the order they arrived.",
  ["histories", "schedules"], "all histories of up to three completions, failures, cancellations, timeouts and new operations on two or three operations; all queues of three priorities",
  "Late completions, timeouts and cancellations race in production; tests exercise them one at a time.",
  [IOE, IOC, IOQ, IOW], [("AsyncIOEngine::read_page ... sync_log", IOE), ("CompletionTracker::*", IOC), ("IOQueueManager::dequeue_operation", IOQ), ("IOWorkerManager::process_operation", IOW)], tech=ST,
  note="Channels and clocks are stand-ins. The tracker's lock makes each step atomic, so histories are all that schedules can produce.")

AD = "src/storage/disk/async_disk/"
P("F04", "What was written is what is read, and a flush puts it on disk",
  "A read of a page, alone or in a batch, returns the contents last successfully written to it, whether they are still buffered, cached, or on disk, and whatever the buffer's size, batching, flush thresholds and scheduling. "
  "After a successful flush every written page is on disk, and synced when the policy or durability level asks for it. "
  "A device failure is reported by the request that met it, and nothing acknowledged is lost: it is still readable, and the next flush that succeeds makes it durable.",
  ["histories", "configurations", "fault_sequences"], "histories of writes, batches, reads and flushes under 25 configurations of cache, scheduler, batching, thresholds, buffer space, sync policy and durability level, each with every single device call failing",
  "The buffer, cache and scheduler interact only in particular orders and sizes, and tests never make the device fail between them.",
  [AD + "manager.rs", AD + "memory/write_manager.rs"], [("AsyncDiskManager::{write_page, read_page, flush, ...}", AD + "manager.rs"), ("WriteManager", AD + "memory/write_manager.rs")], tech=ST,
  note="Page cache, scheduler and I/O engine are stand-ins that do what F06, F05 and F02/F03 establish. Requests come one after another.")
P("F05", "Every scheduled disk request is carried out and answered once",
  "Whichever queue a request given to the work-stealing scheduler lands on, a running worker carries it out exactly once. "
  "Its caller receives exactly one answer: the pages asked for, in order, or the device's failure, and no other caller is told of it.",
  ["histories", "configurations", "fault_sequences"], "sequences of up to four requests of all kinds on one to three workers, each with every single device call failing",
  "A queue without a worker, or a request kind that is dropped, shows only as a caller that waits for ever.",
  [AD + "manager.rs", AD + "scheduler.rs"], [("AsyncDiskManager::new", AD + "manager.rs"), ("WorkStealingScheduler::submit_task", AD + "scheduler.rs")], tech=ST,
  note="Channels and the I/O engine are stand-ins; the spawned workers run one after another.")
P("F06", "The tiered page cache never returns an older version of a page",
  "When the page cache answers a request for a page, the answer is the contents most recently stored for that page, whatever was admitted, refused, shared between equal pages, promoted or dropped meanwhile. "
  "No tier ever holds more pages than its size. Losing any one lock attempt to another thread costs at most a cache miss.",
  ["histories", "configurations", "schedules"], "fixed pseudo-random histories of stores, reads, maintenance and prefetching over three pages and five tier sizes, with and without hash collisions and elapsed time, each lock attempt failing in turn",
  "A page has to be rewritten while copies sit in particular tiers; tests store each page once.",
  [AD + "cache/cache_manager.rs"], [("CacheManager::{store_page, get_page}", AD + "cache/cache_manager.rs")], tech=ST)
P("F07", "Each cache evicts the entry its policy names and never exceeds its capacity",
  "A cache holds exactly the entries inserted and not since removed, replaced or evicted, with their latest values, and never more than its capacity (none at capacity zero). "
  "It evicts only when full, and then one entry: the least recently used, the oldest, one of the least frequently used, or the furthest in its K-th last use, according to its kind; popping, peeking, ranks and counters agree with that. "
  "The linked list of the least-recently-used cache never leads to freed memory, frees nothing twice and loses no node.",
  ["histories", "inputs"], "every history of up to four operations (up to equivalence, capped per level) and longer fixed pseudo-random ones, over four keys and capacities 0 to 3",
  "Eviction order depends on the whole history; the unsafe list corrupts only for particular unlink positions.",
  [AD + "cache/" + f for f in ("lru.rs", "fifo.rs", "lfu.rs", "heap_lfu.rs", "lru_k.rs")],
  [("LRUCore", AD + "cache/lru.rs"), ("FIFOCache", AD + "cache/fifo.rs"), ("LFUCache", AD + "cache/lfu.rs"), ("HeapLFUCache", AD + "cache/heap_lfu.rs"), ("LRUKCache", AD + "cache/lru_k.rs")], tech=ST,
  note="Clocks are stand-ins; every operation happens at a new instant, or in the same one.")

BU = "src/buffer/"
P("B01", "The buffer pool never loses a change to a page",
  "While a page is in use it shows what was last written to it, to every user alike, and after it was evicted it reads back the same, including pages that were made but never written. "
  "Writes made while another thread flushes or loads the same page are kept, and a page that cannot be written out is not given up. "
  "A flush is reported successful only when the device holds the contents.",
  ["histories", "fault_sequences", "schedules"], "every history of up to three requests (new, fetch, write, release, flush, batch flush, batch load) to a two-frame pool over three pages, from three starting points, with one device failure or one interruption at any device call",
  "A change is lost only when an eviction, a failure or another thread falls between particular steps.",
  [BU + "buffer_pool_manager_async.rs", BU + "lru_k_replacer.rs", "src/storage/page/page_guard.rs"],
  [("BufferPoolManager", BU + "buffer_pool_manager_async.rs"), ("PageGuard", "src/storage/page/page_guard.rs")], tech=ST,
  note="Interruptions are whole requests of another thread at device calls where no lock of the pool is held; finer interleavings between the pool's own steps are not explored. Pages hold raw bytes; index pages that keep entries outside their bytes are E02's known findings.")
P("B02", "Frames in use stay in use, and free frames can always be used",
  "A page in use is never evicted or deleted, all its users share one copy, and no more pages are in use than there are frames. "
  "While a frame is free or holds a page nobody uses, a page can be made, fetched or loaded unless the device fails, and failed or refused requests lose no frame. "
  "Asking for a page as another type is refused without side effects.",
  ["histories", "fault_sequences"], "every history of up to four requests (new, fetch, fetch as another type, release, delete, batch load) to a two-frame pool over three pages, with one device failure at any device call",
  "Leaked frames and stale evictability show only after further requests fill the pool.",
  [BU + "buffer_pool_manager_async.rs", BU + "lru_k_replacer.rs", "src/storage/page/page_guard.rs"],
  [("BufferPoolManager", BU + "buffer_pool_manager_async.rs"), ("LRUKReplacer", BU + "lru_k_replacer.rs")], tech=ST,
  note="Requests follow one another; races between threads inside the pool are not explored.")
P("B03", "A page is only handed out as the type it was made with",
  "Every page type has a type byte of its own, each byte is read back as exactly that type or none, and no two kinds of page share a type. "
  "A page is handed out by fetches and batch loads as the type it was made with, and refused as any other type, whether in memory or on the device.",
  ["inputs", "programs"], "all 256 type bytes, every kind of page, and every pair of kinds with a plain constructor, in memory and on the device",
  "The typed guard is made by an unchecked pointer cast; one wrong pair is memory corruption.",
  ["src/storage/page/page_impl.rs", BU + "buffer_pool_manager_async.rs"],
  [("PageType", "src/storage/page/page_impl.rs"), ("BufferPoolManager", BU + "buffer_pool_manager_async.rs")], tech=ST)
P("B05", "The frame given up is the one the LRU-K policy names",
  "Among frames that may be evicted, those with fewer than K recorded uses go first, fewest uses and then earliest first use first; otherwise the frame whose K-th last use is oldest goes. "
  "Frames in use are never named, nothing is named when none may be evicted, and a frame that was given up or removed starts again without history.",
  ["histories"], "every history of up to four operations after every start of four uses of up to three frames, for K = 1, 2 and 3",
  "The victim depends on the order of all earlier uses.",
  [BU + "lru_k_replacer.rs"], [("LRUKReplacer", BU + "lru_k_replacer.rs")], tech=ST,
  note="The clock is a stand-in in which every use happens at a new instant.")

EXE = "src/sql/execution/executors/"
PLN = "src/sql/execution/plans/"
P("Q01", "Filters, projections, limits and VALUES hand out exactly the right rows",
  "A filter passes on, in order and unchanged, exactly the rows for which its condition is true: rows for which it is false or NULL are dropped. "
  "A projection hands out one row per row below, with its expressions' values in order; VALUES hands out its rows; LIMIT n hands out the first n rows and OFFSET n all but the first n. "
  "When an expression or the input fails, the statement fails: rows are never dropped silently and the result is never passed off as complete.",
  ["inputs", "fault_sequences"], "every input of up to three (limit and offset: four) rows, failing or not at any row, every outcome (true, false, NULL, failure) of the condition or expression for each row, limits 0 to 4",
  "A swallowed failure or a NULL taken for true shows only for particular rows, as a plausible but wrong answer.",
  [EXE + f + "_executor.rs" for f in ("filter", "projection", "limit", "offset", "values")],
  [("FilterExecutor", EXE + "filter_executor.rs"), ("ProjectionExecutor", EXE + "projection_executor.rs"), ("LimitExecutor", EXE + "limit_executor.rs")], tech=ST,
  note="A projection skips rows lacking a column it refers to, as it documents. Expressions and inputs are stand-ins with every outcome; what expressions compute is V01 to V06. Row identifiers are checked only where rows pass through.")
P("Q02", "Sorting and top-N hand out the right rows in the right order",
  "ORDER BY hands out every input row exactly once, ordered by the first key, then the next, each in its own direction, NULL lowest. "
  "Top-N hands out the N greatest rows, greatest first, and top-N per group the N greatest of each group, NULL being a group of its own. "
  "When the input, a key or a grouping expression fails, the statement fails.",
  ["inputs", "fault_sequences"], "every input of up to three rows over NULL and two or three keys, all orders of four distinct keys, two keys in every direction, N from 0 to one more than the rows, failures at every row and key",
  "Ties, NULLs and failing keys combine in ways a few sample tables do not reach.",
  [EXE + f + "_executor.rs" for f in ("sort", "topn", "topn_per_group")],
  [("SortExecutor", EXE + "sort_executor.rs"), ("TopNExecutor", EXE + "topn_executor.rs"), ("TopNPerGroupExecutor", EXE + "topn_per_group_executor.rs")], tech=ST,
  note="Which of several equal rows comes first, or falls off the end, is left open.")
P("Q03", "Grouping answers one row per group, computed from all of its rows",
  "An aggregation hands out exactly one row per distinct combination of group values (equal values and NULLs together), and one row in all when there is nothing to group by, even over no rows. "
  "COUNT(*) counts rows, COUNT(x) the values that are not NULL, SUM and AVG add those exactly or fail, MIN and MAX pick among them, and without any the result is NULL (SUM may be 0). "
  "DISTINCT hands out each distinct row once, in order of first appearance. A failing input or argument fails the statement.",
  ["inputs", "fault_sequences"], "every input of up to three rows over NULL and two values and groups, two group columns, the four integer types at their limits, failures at every row; DISTINCT over up to three rows of integers, booleans, strings and NULLs",
  "A wrong group key, a NULL counted or an overflow shows only for particular combinations of values.",
  [EXE + f + "_executor.rs" for f in ("aggregation", "distinct")],
  [("AggregationExecutor", EXE + "aggregation_executor.rs"), ("DistinctExecutor", EXE + "distinct_executor.rs")], tech=ST,
  note="HAVING is not built by the planner and not explored; groups come in ascending or descending order.")

P("Q04", "Joins hand out exactly the matching combinations",
  "A nested-loop join hands out the combination of each left and right row for which the condition is true (a cross join all), once each, repeated rows included; "
  "LEFT, RIGHT and FULL joins add every row of that side that matched nothing, padded with NULLs, also when the other side is empty. "
  "A hash join hands out every combination with equal keys, NULL matching nothing, and refuses the join types it does not support. Failing inputs, conditions and keys fail the statement.",
  ["inputs", "fault_sequences"], "every pair of inputs of up to two and three rows with and without repeated rows, every outcome of the condition for each pair, all eight join operators, failures at every row; hash keys of one and two columns with NULLs",
  "Outer joins go wrong only for repeated, unmatched or absent rows on one side.",
  [EXE + "nested_loop_join_executor.rs", EXE + "hash_join_executor.rs"],
  [("NestedLoopJoinExecutor", EXE + "nested_loop_join_executor.rs"), ("HashJoinExecutor", EXE + "hash_join_executor.rs")], tech=ST,
  note="Hash keys of different types, and the nested index join, which needs a catalog and an index, are not explored.")

P("Q05", "INSERT, UPDATE and DELETE change each row of their source once",
  "INSERT, UPDATE and DELETE change every row of their source exactly once, with the right values under the right columns, in order; UPDATE evaluates all its assignments on the old row. "
  "A statement whose source, expression, change or foreign-key check fails ends in failure; INSERT reads its whole source before it writes, and accepts a row only if the row it refers to is there.",
  ["inputs", "fault_sequences"], "every source of up to three rows, failing anywhere; every column mapping; a change refused at any point; direct rows in ones, in threes and around the bulk threshold; references to missing rows and failing lookups",
  "Rows lost or doubled at a batch threshold or around a failure show only for particular sizes and faults.",
  [EXE + "insert_executor.rs", EXE + "update_executor.rs", EXE + "delete_executor.rs"],
  [("InsertExecutor", EXE + "insert_executor.rs"), ("UpdateExecutor", EXE + "update_executor.rs"), ("DeleteExecutor", EXE + "delete_executor.rs")], tech=ST,
  note="UPDATE does not check foreign keys, and NOT NULL, UNIQUE and CHECK are not enforced by any statement (documented limits). Casts of stored values are not explored.")

P("T01", "Table scans list every row exactly once",
  "Over chains of pages of any shape, every inserted row is read back by its row id, and every kind of scan lists each row that is not deleted exactly once under that id; "
  "a heap reopened from its first page finds all its rows and goes on after its last page; a scan that cannot read a page ends in failure unless it has every row; a row too large for a page is refused without taking one.",
  ["inputs", "fault_sequences"], "row sizes that fill, half fill and overflow pages, every subset of deleted and of invisible rows, reopening at any point with a stale last page, every page read failing",
  "Rows are lost at the seams between pages and when one page cannot be read, which no unit test provokes.",
  ["src/storage/table/table_heap.rs", "src/storage/table/table_iterator.rs", EXE + "seq_scan_executor.rs", EXE + "table_scan_executor.rs"],
  [("TableHeap", "src/storage/table/table_heap.rs"), ("TableIterator", "src/storage/table/table_iterator.rs"), ("TableScanIterator", "src/storage/table/table_iterator.rs"), ("SeqScanExecutor", EXE + "seq_scan_executor.rs"), ("TableScanExecutor", EXE + "table_scan_executor.rs")], tech=ST,
  note="Concurrent inserts into the same heap are not explored.")

P("I01", "The in-memory B+ tree lists exactly its entries, in key order",
  "After every history of inserts and deletes, full and range scans of the in-memory B+ tree list exactly the entries that were put in and not removed, in the order of their keys, NULL first; "
  "equal keys with different row ids are all kept; an entry that is there is not added again, and one that is not there is not removed.",
  ["inputs", "histories"], "every order pattern of up to five keys at orders 3 and 4 with every single deletion and all bounds; ten key patterns of up to 28 keys against five deletion orders at orders 3 to 5, looking after each step",
  "Splits and merges go wrong for particular key orders and duplicates on a node boundary.",
  ["src/storage/index/b_plus_tree.rs"], [("BPlusTree", "src/storage/index/b_plus_tree.rs")], tech=ST,
  note="Keys are totally ordered symbols; NaN keys, which have no order, are not explored. The page-based tree is a separate structure.")

P("I02", "A scan through an index hands out the rows its predicates select",
  "An index scan hands out exactly the visible rows that satisfy all its predicates, once each under their own row ids, and comes to an end; the bounds it takes from AND, OR, NOT and comparisons never lose a row; "
  "a missing index, an unreadable page or a failing predicate fails the scan. An index iterator lists exactly the entries within its bounds, forwards, from both ends, after a reset and after a seek.",
  ["inputs", "fault_sequences"], "tables of up to eleven rows with equal and NULL keys; all comparisons with constants on and between keys and their pairwise AND, OR and NOT; key column first or second; hidden rows, stale entries, unreadable pages; all iterator bounds",
  "A range that is one key too short, or an OR taken for an AND, loses rows silently.",
  [EXE + "index_scan_executor.rs", "src/storage/index/index_iterator_mem.rs", "src/storage/index/b_plus_tree.rs"],
  [("IndexScanExecutor", EXE + "index_scan_executor.rs"), ("IndexIterator", "src/storage/index/index_iterator_mem.rs")], tech=ST,
  note="Keys are Integers; comparisons across types leave the scan unbounded. The nested index join is not explored.")

P("I03", "An index holds an entry for every row of its table",
  "Each row that INSERT or UPDATE writes, by every path including bulk inserts, gets an entry of its stored key and its row id in each index on one column of its table and in no other table's; "
  "CREATE INDEX adds an entry for every row that is there, deleted or not, or, if a page cannot be read, makes no index. A row that cannot be read back for its entries fails the statement.",
  ["inputs", "fault_sequences"], "the statements of Q05 with values made up by the heap, moved rows and unreadable rows; indexes made over page chains of every shape with deleted and invisible rows, every page read failing",
  "A row missing from an index is lost only to the queries that the optimizer sends through it.",
  ["src/catalog/database.rs", EXE + "insert_executor.rs", EXE + "update_executor.rs"],
  [("Database::create_index", "src/catalog/database.rs"), ("InsertExecutor", EXE + "insert_executor.rs"), ("UpdateExecutor", EXE + "update_executor.rs")], tech=ST,
  note="Indexes on several columns hold no entries and are not used by the optimizer; keys of versions older than the index are not entered.")

FIXED = [
    ("D04", "1053ce9", "recovery undid aborted transactions over later committed ones, left restored rows invisible, logged no end for unfinished transactions and reused LSNs"),
    ("V02", "55eabf0", "FLOAT and DECIMAL compared with <= or >= went through different widths than the other operators"),
    ("V02", "a2530ec", "numeric operands of different types were compared after a truncating cast (1 = 1.5 was true)"),
    ("V05", "35e0e72", "casting a float outside the integer type's range saturated silently"),
    ("V03", "6d9fada", "integer overflow in Value arithmetic panicked or wrapped"),
    ("V03", "d15ef5c", "join arithmetic swapped operands and rejected numeric types that ordinary arithmetic accepts"),
    ("C01", "d570078", "a conversion was granted beside conflicting holders, a refused one dropped the held lock, waiters of ended transactions were granted later, and a release with a waiter blocked on itself"),
    ("C02", "d80ea53", "at serializable every request was valid in any state; read uncommitted ignored ended states; a snapshot request moved the transaction to shrinking"),
    ("C02", "222e3aa", "an unlock could move a committed or aborted transaction to another state"),
    ("C08", "693b9cd", "an insert went on when its table lock was refused"),
    ("C03", "807763b", "the waits-for graph had edges to itself, to compatible holders and to past holders; row locks were recorded under the page number instead of the table"),
    ("C04", "6291007", "committing or aborting a transaction that had already ended logged a second end record"),
    ("C08", "194a659", "a write could replace another transaction's uncommitted version, or leave its undo link when refused"),
    ("C07", "fe6d6b0", "read committed read through uncommitted versions, and snapshot reads could return uncommitted data"),
    ("C09", "22e67ad", "abort restored the transaction's own intermediate version, with the wrong owner and undo link"),
    ("C06", "3e87a9a", "garbage collection dropped undo links that a snapshot or a rollback still needed"),
    ("C05", "7be2f61", "shutdown left growing, shrinking and tainted transactions unfinished"),
    ("C05", "9d42a18", "a snapshot taken between a commit's timestamp and its stamping missed the commit"),
    ("E01", "117e813", "table page slots could overlap, and an update in place could overwrite its neighbour"),
    ("E02", "ed5fdd2", "a table page's metadata was not part of its bytes and was lost on reload"),
    ("C08", "fa8c08a", "at repeatable read and above a write overwrote versions committed after its snapshot (lost update)"),
    ("D01", "1b9a3a0", "a commit whose record did not reach the disk was reported as successful"),
    ("D01", "4a75f2d", "records logged after a failed flush were written by the final drain and could count as persistent"),
    ("F06", "f6029a2", "rewriting a page left older copies of it in the other cache tiers, or in all of them when the new contents were refused or shared"),
    ("F04", "cd2fda4", "a write to a full buffer was acknowledged and dropped; pages taken for a flush that failed were lost"),
    ("F04", "ee19ce4", "reads of pages waiting in the write buffer went to the disk"),
    ("F05", "ec02034", "no worker ever took requests from the scheduler's queues, so callers waited for ever"),
    ("B01", "a2aa9ad", "a page that could not be written was evicted anyway"),
    ("B02", "827c827", "failed and concurrent loads lost frames, and batch loads mixed up pages or handed out pages without a frame"),
    ("B01", "0f5eea6", "a page changed while it was being written counted as clean"),
    ("B01", "1e86348", "flushing all pages hid failed writes"),
    ("B01", "12a18ed", "a new page evicted before its first change could not be read again"),
    ("B05", "e72c3b8", "a page inherited the access history of the page evicted before it"),
    ("F07", "c43e9e0", "a frequency cache of capacity zero stored an entry"),
    ("Q01", "1363158", "a filter swallowed the failure to evaluate its condition"),
    ("Q02", "9a55b39", "sorting ignored failures of its input and of its sort keys"),
    ("Q02", "b078dfa", "top-N answered in heap order, misplaced NULLs and ignored failures"),
    ("Q02", "07ae068", "top-N per group merged or split groups, misplaced NULLs and ignored failures"),
    ("Q03", "411a169", "DISTINCT took different rows for equal ones"),
    ("Q03", "9db8922", "COUNT(column) counted NULLs, sums wrapped, and failures were ignored"),
    ("Q04", "89ce107", "hash join lost repeated keys, joined NULLs and ignored failures and the join type"),
    ("Q04", "70407df", "outer joins lost repeated right rows, and all right rows when the left side was empty"),
    ("T01", "7f318f9", "a table scan dropped the pages it could not read and gave wrong row ids beside deleted rows"),
    ("T01", "39870bd", "a reopened table heap cut off the pages added after its last page was recorded"),
    ("Q05", "fd0feec", "inserts of several rows failed because the rows did not carry their place"),
    ("Q05", "e588035", "INSERT of literal rows did not check foreign keys"),
    ("I01", "1bc761f", "the in-memory B+ tree lost and repeated entries among equal keys, NULL keys and merged nodes"),
    ("I02", "30a65f7", "index scans lost, repeated or never finished listing the rows of ranges and swallowed failures"),
    ("I03", "05205d0", "rows written after an index was made were missing from it and from every scan through it"),
]
PAGES = {"BPlusTreeHeaderPage": "set_root_page_id", "BPlusTreeInternalPage": "insert_key_value", "BPlusTreeLeafPage": "insert_key_value",
         "ExtendableHTableHeaderPage": "set_directory_page_id", "ExtendableHTableDirectoryPage": "set_bucket_page_id", "ExtendableHTableBucketPage": "set_local_depth"}
FINDINGS = [dict(property="E02", key=f"image:{k}", what=f"{k}: a change ({v}) never reaches the page's bytes, so it is lost when the page is evicted and reloaded") for k, v in PAGES.items()]
