TESTS = 'The Go tests send a few fixed requests to one running server; '
prop('S01', 'A stored entry is returned exactly as stored',
 'Whatever key, value, flags, expiration time and cas setting an entry is stored with, a later lookup of that key while the entry is live returns the same key and value bytes and the same flags, expiration and lengths. This holds for every byte content, for empty keys and values, for all key and value lengths, and whether or not key compression is enabled.',
 ['inputs', 'configurations'], 'all key bytes and lengths, value bytes and lengths, flags, expirations; compression and cas on or off',
 TESTS + 'the packed entry layout switches format at byte-class and size boundaries that fixed samples miss.',
 ['src/pogocache.c'], [('packed entry encoding, six-bit key packing, varint key length', 'src/pogocache.c: entry_new, entry_extract, sixpack, unsixpack')], ['pogocache_store, pogocache_load, pogocache_iter'])
prop('S02', 'Key operations behave like a map over exact keys',
 'Store, load, update and delete act on exactly the entry whose key has the same bytes: after any history each key holds the value of its last successful store or update, or nothing if it was never stored or was removed last. Keys whose hashes collide partly or fully, tables that wrap around, grow or shrink, and several shards do not change this.',
 ['histories', 'inputs', 'configurations'], 'all short operation histories over keys with arbitrary hash placement, from arbitrary table contents',
 TESTS + 'collision, displacement and wrap-around states of the hash table are practically never reached by them.',
 ['src/pogocache.c'], [('robin hood table: insert, lookup, backward-shift delete, resize', 'src/pogocache.c: map_insert, map_get_bucket, map_delete, delbkt, resize, tryshrink')], ['results and callbacks of pogocache_store/load/delete'])
prop('S03', 'Expired entries are never served and live entries never expire early',
 'An entry stored with an expiration or time-to-live is found by every operation at any time before that instant, and by none at or after it; an entry without one never expires. A time-to-live that would overflow is clamped to the far future, and keeping the old expiration on overwrite keeps exactly it.',
 ['histories', 'inputs'], 'all non-decreasing operation times, expirations and time-to-live values',
 TESTS + 'real clocks make boundary instants and overflow values unreachable.',
 ['src/pogocache.c'], [('liveness test in every operation', 'src/pogocache.c: entry_alive, loadop, storeop, deleteop, iterop, sweepop, entryiter')], ['operation results'])
prop('S04', 'Conditional stores change the cache exactly when their condition holds',
 'Store-if-absent, store-if-present, compare-and-store and callback-confirmed stores and deletes take effect exactly when their condition holds for the live entry, report which of the outcomes happened, and otherwise leave value, flags, expiration and cas value of the entry untouched. Every change of an entry gives it a new cas value, so a compare-and-store succeeds only if the entry is unchanged since that cas value was read.',
 ['histories', 'inputs', 'configurations'], 'all combinations of conditions, callback answers, cas values and entry states (absent, live, expired)',
 TESTS + 'only a handful of option combinations are exercised, none against expired entries.',
 ['src/pogocache.c'], [('put-back of the old entry when the condition fails; cas counter per shard', 'src/pogocache.c: storeop, deleteop, loadop')], ['store/delete results, later loads'])
prop('S05', 'Count, total and size statistics are exact',
 'The entry count equals the number of entries held, the reported size equals the memory held by tables and entries, and the running total grows by one for each newly inserted entry and by nothing else. They stay exact after any mixture of stores, rejected stores, updates, deletes, expiration, sweeping, iteration with deletion and clearing, per shard and overall.',
 ['histories'], 'all short histories of all operation kinds from arbitrary contents',
 TESTS + 'drift appears only after particular combinations such as updates followed by expiry.',
 ['src/pogocache.c'], [('incremental counters', 'src/pogocache.c: map_insert, delbkt, delentry_at_bkt, sizeop, countop, totalop')], ['pogocache_count, pogocache_total, pogocache_size'])
prop('S08', 'Iteration, scan, sweep and clear cover every entry exactly once',
 'Iterating visits every live entry exactly once even when the callback deletes entries, stops early only on request, and never shows an expired entry; sweeping removes all and only expired entries and reports exact numbers; clearing leaves nothing. A cursor scan of an unchanged cache yields every live entry and terminates.',
 ['histories', 'inputs'], 'all table contents over colliding and wrapping positions with arbitrary expirations and callback answers',
 TESTS + 'deletion during iteration shifts entries between positions; tests never build wrapped clusters.',
 ['src/pogocache.c'], [('bucket walk with deletion', 'src/pogocache.c: iterop, sweepop, clearop, entryiter')], ['iteration callbacks, sweep counts'])
prop('S06', 'Memory is released exactly once and retained entries stay valid',
 'No sequence of operations, callbacks, iterations, clears and table resizes reads or writes memory outside live allocations, frees anything twice, or leaks: freeing the cache returns everything it allocated. An entry handed to a caller stays readable and unchanged until the caller releases it, even if it is replaced, deleted or cleared meanwhile.',
 ['histories', 'inputs'], 'all short histories of all operations from arbitrary contents, with growing and shrinking tables',
 TESTS + 'memory errors in rare paths (put-back, eviction, resize, deferred free) stay invisible without a checker on every path.',
 ['src/pogocache.c'], [('reference counted entries, table resize, deferred free', 'src/pogocache.c: entry_free, entry_clone, resize, clearop, entryiter')], ['allocator calls'])
prop('S07', 'Running out of memory fails cleanly',
 'When any allocation fails, the operation that needed it reports out-of-memory (or creation returns nothing) and the cache stays intact: no other entry is lost or changed, statistics stay exact, nothing leaks and later operations work. Deleting, iterating, sweeping and clearing succeed even when no memory can be allocated.',
 ['faults', 'histories'], 'every subset of failing allocations during creation and in any short operation history',
 'the tests never make an allocation fail.',
 ['src/pogocache.c'], [('allocation failure paths', 'src/pogocache.c: entry_new, map_insert, resize, tryshrink, clearop, pogocache_new, pogocache_begin')], ['return values, allocator calls'])
prop('S09', 'Low memory evicts at most one other entry per insert, never the newest',
 'A store that is told memory is low and adds a new key removes at most one entry, never the key being stored: an expired one if it meets one, otherwise the less recently used of the candidates it compares. Without that hint, on replacement, or for existing keys, nothing is evicted, and every eviction is reported with its reason.',
 ['inputs', 'histories'], 'all table contents, access times and expirations with any hint value',
 TESTS + 'eviction under memory pressure never happens in them.',
 ['src/pogocache.c'], [('eviction candidates', 'src/pogocache.c: auto_evict_entry, evict_entry, storeop')], ['evicted callback, later loads'])
prop('S10', 'Change and eviction notifications describe exactly what happened',
 'Every insert, replacement, update, deletion, expiry, eviction and clear is announced exactly once, with the entry that was added and the entry that was removed, so that replaying the announcements reconstructs the contents. Rejected, canceled and failed operations announce nothing; removals that are evictions carry the right reason, key and value, while explicit deletions are not reported as evictions.',
 ['histories', 'inputs'], 'all short histories of all operations from arbitrary contents, including failures',
 'no test registers these callbacks.',
 ['src/pogocache.c'], [('notification dispatch', 'src/pogocache.c: notify and its callers')], ['notify and evicted callbacks'])
prop('S11', 'A batch is isolated, behaves like the plain cache, and releases its locks',
 'Operations made through a batch have the same results as on the cache itself, including iteration, clearing, statistics and entry access; other threads see either none or all of a batch, never the middle of a read-modify-write. Ending the batch releases every shard it touched, whichever shards and in whatever order they were used.',
 ['schedules', 'histories'], 'all short operation histories in a batch, and all bounded-preemption schedules against another thread',
 'the tests never interleave two threads at chosen points.',
 ['src/pogocache.c'], [('batch handle, shard lock list', 'src/pogocache.c: pogocache_begin, pogocache_end, lock, acquire_for_key, acquire_for_scan')], ['results and final contents'])
prop('S12', 'Concurrent operations are race-free and linearizable',
 'Operations issued from several threads at the same time have results and leave contents equal to those of some order in which they run one at a time, without data races, deadlock or use of freed entries. This includes scans holding entries while other threads replace, delete, sweep or clear.',
 ['schedules'], 'all schedules of two or three threads with a bounded number of preemptions at synchronisation points',
 'the tests never interleave threads at chosen points.',
 ['src/pogocache.c'], [('per-shard spin lock; atomic reference counts', 'src/pogocache.c: lock, ACQUIRE_FOR_KEY_AND_EXECUTE, ACQUIRE_FOR_SCAN_AND_EXECUTE, entry_clone, entry_free')], ['results and final contents'])
prop('P01', 'RESP requests are framed exactly as the protocol defines',
 'A RESP request (an array of bulk strings) is executed with exactly the argument bytes it carries, whatever bytes they are, and consumes exactly its own bytes; an incomplete request waits for more input without effect; a request with malformed counts, lengths or terminators is refused with an error and the connection is closed. Parsing never reads outside the received bytes.',
 ['inputs'], 'all byte sequences up to a length, and all contents and truncations of longer well-formed shapes',
 TESTS + 'they use well-behaved client libraries that send whole valid requests.',
 ['src/resp.c', 'src/parse.c', 'src/args.c'], [('array and bulk string reader', 'src/resp.c: parse_resp, parse_bulk')], ['arguments handed to command execution, bytes consumed, error'])
prop('P02', 'Inline commands are split into words as documented',
 'A line of text is split at whitespace into words; quoted words keep their blanks, and escapes inside them stand for the bytes they denote. An incomplete line waits for more input; unbalanced quotes are refused. Parsing never reads outside the received bytes.',
 ['inputs'], 'all lines up to a length and all contents of longer shapes with quotes and escapes',
 TESTS + 'no test sends quotes or escapes in an inline command.',
 ['src/resp.c', 'src/parse.c'], [('inline tokenizer', 'src/resp.c: parse_telnet')], ['arguments handed to command execution, bytes consumed, error'])
prop('U01', 'Integers are read and written exactly',
 'Reading an integer accepts exactly the decimal texts of numbers in range and yields that number; anything else is refused. Writing a number gives its shortest decimal text. Clamping and saturating arithmetic used for times and sizes return the exact result or the nearest limit.',
 ['inputs'], 'all texts up to a length, all digit strings around the limits, all 64-bit values',
 'boundary values near the 64-bit limits are not sampled by any test.',
 ['src/util.c'], [('number conversion', 'src/util.c: parse_i64, parse_u64, i64toa, u64toa, int64_add_clamp, int64_mul_clamp')], ['return values'])
prop('U02', 'Byte codecs are inverse to each other and checksums depend on every bit',
 'The fixed-width and variable-length integer codecs used in saved files read back exactly what they wrote, consume exactly what they wrote and refuse truncated input; the checksum of a block changes with any change of a single byte.',
 ['inputs'], 'all 64-bit values, all truncations, all short blocks',
 'no test reaches the codecs except through whole files with a few values.',
 ['src/util.c', 'src/buf.c'], [('codecs', 'src/util.c: varint_write_u64, varint_read_u64, write_u32, read_u32, write_u64, read_u64, crc32')], ['return values'])
prop('U03', 'Buffers and argument lists hold exactly what was put in them',
 'Appending to a buffer keeps all earlier bytes, at any size and growth step; an argument list returns exactly the arguments added, in order, also after removals, with each argument owned exactly once; option names compare case-insensitively and exactly.',
 ['histories', 'inputs'], 'all short operation histories with all contents',
 'growth and removal combinations are not sampled by tests.',
 ['src/buf.c', 'src/args.c'], [('growable buffer, argument list', 'src/buf.c: buf_append, buf_ensure; src/args.c: args_append, args_remove_first, argeq')], ['contents, allocator calls'])
prop('U04', 'The hash map used for prepared statements and sessions is a map',
 'Set, get and delete of the general hash map act on exactly the element with an equal key; counts and iteration are exact; table growth and shrinkage change nothing, also when memory runs out at any allocation.',
 ['histories', 'faults'], 'all short operation histories with arbitrary hash values from partly filled tables, and every failing allocation',
 'colliding hashes and failing allocations do not occur in tests.',
 ['src/hashmap.c'], [('robin hood table', 'src/hashmap.c: hashmap_set_with_hash, hashmap_get_with_hash, hashmap_delete_with_hash, resize0')], ['results, contents'])
prop('C02', 'SET and SETEX store exactly when their options allow it',
 'SET replaces value, flags and expiration of the key exactly when its NX, XX and CAS conditions hold for the live entry, answers OK or null (with GET: the previous live value or null), keeps the expiration only with KEEPTTL, and computes EX, PX, EXAT and PXAT instants exactly with clamping. Contradictory, unknown, incomplete or out-of-range options are refused with an error and change nothing; SETEX is SET with EX. A store refused for lack of memory says so and changes nothing.',
 ['inputs', 'configurations'], 'all option combinations in two orders, all 64-bit option numbers, values and clock readings, arbitrary previous entry',
 TESTS + 'they cover single options with small numbers.',
 ['src/cmds.c'], [('option parsing and conditional store', 'src/cmds.c: cmdSET, cmdSETEX, execSET')], ['replies and contents'])
prop('C03', 'Increment and decrement are exact, atomic and never overflow silently',
 'INCR, DECR, INCRBY, DECRBY and their unsigned forms add or subtract exactly; a missing key counts as zero; a value or amount that is not an integer of the right kind, or a result out of range, is refused with an error and leaves the entry unchanged. The stored text is the decimal form of the result and flags and expiration of the entry are kept.',
 ['inputs', 'histories'], 'all 64-bit values and amounts, all non-numeric contents up to a length',
 TESTS + 'overflow at the 64-bit limits and unsigned values above 2^63 are not sampled.',
 ['src/cmds.c', 'src/util.c'], [('increment', 'src/cmds.c: cmdINCRDECRBY, execINCRDECR')], ['replies and contents'])
prop('C04', 'Append and prepend join values and keep the entry otherwise',
 'APPEND and PREPEND put the given bytes after or before the current value (or create the key), reply with the new length, and keep flags and expiration of an existing live entry.',
 ['inputs', 'histories'], 'all values up to a length, arbitrary previous entry',
 TESTS + 'flags and expirations are not combined with appends.',
 ['src/cmds.c'], [('append', 'src/cmds.c: cmdAPPEND, cmdPREPEND')], ['replies and contents'])
prop('C05', 'EXPIRE, TTL and PTTL agree with when the entry actually expires',
 'EXPIRE sets the expiration of a live key to exactly now plus the given seconds, clamped, a non-positive amount expiring the key at once; it answers 1, or 0 for a missing key. TTL and PTTL report the remaining time in whole units, -1 without expiration and -2 for a missing or expired key. Other updates keep or replace the expiration as documented.',
 ['inputs', 'histories'], 'all clock readings, expirations and 64-bit amounts, over short command histories with passing time',
 TESTS + 'tests wait for a second or two at most.',
 ['src/cmds.c'], [('expiration commands', 'src/cmds.c: cmdEXPIRE, cmdTTL')], ['replies and contents'])
prop('C10', 'Multi-key commands treat each key in order and count exactly',
 'GET, MGET, MGETS, DEL, EXISTS and TOUCH examine each named key in order, duplicates included: the reply has one element per key, found or null, or counts exactly the live keys found; DEL removes exactly the named keys. DBSIZE counts the entries. Missing arguments are refused.',
 ['inputs', 'histories'], 'all key lists up to three keys over arbitrary live, expired and absent entries',
 TESTS + 'duplicates and expired keys within one command are not sampled.',
 ['src/cmds.c'], [('multi-key commands', 'src/cmds.c: cmdMGET, cmdDEL, cmdEXISTS, cmdGET, cmdDBSIZE')], ['replies and contents'])
prop('P03', 'Memcache text requests are read exactly as the protocol defines',
 'A memcache command line is read up to its line end and split at blanks; storage commands take exactly the announced number of data bytes followed by a line end. Unknown commands and wrong numbers of words get ERROR, malformed keys, numbers and data blocks get CLIENT_ERROR, the connection stays in step and the next command is executed. Incomplete input waits without effect; noreply suppresses the reply.',
 ['inputs'], 'all lines up to a length, all contents of longer request shapes, and truncations',
 TESTS + 'malformed lines and data blocks are not sampled.',
 ['src/memcache.c', 'src/parse.c'], [('memcache reader', 'src/memcache.c: parse_memcache, parse_memcache_telnet, mc_valid_key')], ['replies, contents, the command after'])
prop('C06', 'Memcache commands act on the cache as the memcache protocol defines',
 'set, add, replace, cas, append, prepend, incr, decr, touch, delete, get, gets and flush_all over the memcache protocol have exactly their defined reply and effect: conditional stores, flags and cas tokens, relative and absolute exptimes (zero never, negative at once, more than 30 days a wall clock instant), decr stopping at zero and incr wrapping at 2^64, and errors leaving the entry unchanged.',
 ['inputs', 'histories'], 'all 64-bit numbers, clock readings, flags and values over arbitrary previous entries and short command histories',
 TESTS + 'exptime ranges, cas tokens and numeric limits are not sampled.',
 ['src/memcache.c', 'src/cmds.c'], [('translation to commands', 'src/memcache.c: parse_memcache'), ('replies and exptimes', 'src/cmds.c: execSET, expiry_seconds_time, cmdMGET')], ['replies and contents'])
prop('P04', 'HTTP requests are read as the protocol defines and answered once',
 'An HTTP request line, header fields and body of announced length are read exactly; the method, path and query select the command with exactly the bytes given. Other methods, malformed requests and invalid keys are refused with their status; every reply carries its exact length, exactly one reply is sent and the connection closes; an incomplete request waits without effect.',
 ['inputs'], 'all methods, paths, queries, header fields and bodies of bounded length, and truncations',
 TESTS + 'malformed request lines, headers and queries are not sampled.',
 ['src/http.c', 'src/conn.c', 'src/parse.c'], [('request reader', 'src/http.c: parse_http, http_valid_key'), ('replies', 'src/conn.c: conn_write_http')], ['reply bytes, connection state, contents'])
prop('P05', 'Postgres messages are framed, tokenized and bound exactly',
 'Postgres start-up packets and messages are framed by their length: incomplete ones wait, malformed ones close the connection. Query text is split into words and quoted strings, with quotes and escapes standing for the bytes they denote; prepared statements run with exactly the bound parameter bytes in place of their parameters, names select their own statement and portal, and unknown names, mismatched parameters and malformed text are refused with an error without executing anything. Nothing is left behind when the connection closes.',
 ['inputs', 'histories'], 'all query texts up to a length, all contents of longer shapes, all short sequences of extended protocol messages with arbitrary parameter bytes, arbitrary message heads',
 TESTS + 'quotes, escapes, truncation and statement reuse are not sampled.',
 ['src/postgres.c', 'src/conn.c'], [('message reader', 'src/postgres.c: parse_postgres, parse_message, parse_magic'), ('tokenizer', 'src/postgres.c: parse_query_args'), ('extended protocol', 'src/postgres.c: parseP, parseB, parseD, parseE, pg_respond')], ['replies, executed arguments, connection state'])
prop('C12', 'HTTP and Postgres commands have the documented effect and reply',
 'PUT, GET and DELETE over HTTP store, return and delete exactly the entry their key and query options (ttl, flags, cas, nx, xx) describe, with the status and body for the outcome. Commands over Postgres act on the cache like the same commands elsewhere and answer with rows holding exactly the documented columns and values, the column type selected by ::text or ::bytea, a command tag counting the outcome, and one ready message; refused commands answer with one error and change nothing.',
 ['inputs', 'histories'], 'all option values, keys and values of bounded length over arbitrary live, expiring and absent entries',
 TESTS + 'option combinations, numeric limits and row contents are not sampled.',
 ['src/http.c', 'src/postgres.c', 'src/cmds.c', 'src/conn.c'], [('HTTP routes', 'src/http.c: parse_http'), ('Postgres replies', 'src/postgres.c: pg_write_row_desc, pg_write_row_data, pg_write_complete'), ('commands', 'src/cmds.c: execSET, get_entry, cmdMGET, ttl_entry, bgkeys_done, scan_done')], ['replies and contents'])
prop('C01', 'Nothing is served without the configured credentials',
 'When the server is started with an authorization token, no command of any protocol reads or changes the cache, and no part of a stored entry is sent, on a connection that has not presented exactly that token: a wrong, missing, shortened or extended token is refused with an error. Presenting the token makes the connection work like one of a server without a token; a wrong token later takes the access away again where the protocol allows it.',
 ['inputs', 'histories', 'configurations'], 'all presented tokens of bounded length, every command, every protocol, before and after successful authentication',
 TESTS + 'none of them uses a token.',
 ['src/conn.c', 'src/http.c', 'src/postgres.c', 'src/cmds.c'], [('authorization gate', 'src/conn.c: conn_auth checks in evcommand; src/cmds.c: cmdAUTH; src/http.c: auth; src/postgres.c: password message')], ['replies and cache contents'])
prop('C07', 'KEYS lists exactly the live keys that match the pattern',
 'A glob pattern matches a key when the documented meaning of *, ?, escapes and literal bytes says so, for every pattern and key; KEYS returns each live key that matches exactly once, never an expired key, over all shards.',
 ['inputs', 'histories'], 'all patterns and keys of bounded length, all mixtures of live, expiring and absent keys over several shards',
 TESTS + 'they list keys with at most one pattern.',
 ['src/util.c', 'src/cmds.c'], [('glob matcher', 'src/util.c: match'), ('collecting in the background', 'src/cmds.c: cmdKEYS, bgkeys_work')], ['reply of KEYS'])
prop('C08', 'Exactly the documented command names are commands',
 'A request whose first word is one of the documented command names, in any mixture of upper and lower case, runs that command, and one with any other name is refused as unknown without any effect, even when its hash collides with that of a command.',
 ['inputs'], 'all names of bounded length, with arbitrary hash values',
 TESTS + 'names are sent in one spelling only.',
 ['src/cmds.c', 'src/util.c'], [('command table', 'src/cmds.c: build_commands_table, get_cmd'), ('case-insensitive hash', 'src/util.c: fnv1a_case')], ['replies'])
prop('C09', 'FLUSHALL, SWEEP and DBSIZE act on the whole cache whatever the threads do',
 'FLUSHALL empties every shard and SWEEP removes exactly the expired entries of every shard, in every combination of their options, with any number of processors and shards, and also when some or all helper threads cannot be started. A request that cannot be started is refused and changes nothing; DBSIZE reports the entries left.',
 ['inputs', 'faults', 'configurations'], 'all option combinations, shard and processor counts, and failing thread starts over arbitrary contents',
 TESTS + 'one default configuration is used and no thread start ever fails.',
 ['src/cmds.c', 'src/conn.c'], [('splitting shards among threads', 'src/cmds.c: bgflushwork, bgsweepwork, flush_thread'), ('background work', 'src/conn.c: conn_bgwork')], ['replies and contents'])
prop('C11', 'A SCAN from cursor 0 to cursor 0 returns every matching key',
 'Following the cursors returned by SCAN until it is 0 again returns every live key that matches MATCH exactly once and no other key while the cache is unchanged, never more than COUNT keys per call, and always comes to an end, also while keys are added and removed between calls. Malformed cursors and options are refused and change nothing.',
 ['inputs', 'histories'], 'all mixtures of live, expiring and absent keys over several shards, all counts and bounded patterns',
 TESTS + 'scans over sparse shards, expired keys and tiny counts are not sampled.',
 ['src/cmds.c', 'src/pogocache.c'], [('cursor', 'src/pogocache.c: pogocache_entry_iter'), ('reply', 'src/cmds.c: cmdSCAN, scan_done')], ['replies of SCAN'])
prop('P06', 'Network fragmentation does not change the conversation',
 'However the bytes of a conversation are cut into pieces by the network, and whether requests are pipelined or sent one by one, the server sends the same reply bytes, leaves the same cache contents and closes the connection or not in the same way as when all bytes arrive at once. This holds for every protocol and for malformed input.',
 ['inputs', 'schedules'], 'all byte strings of bounded length and all cut positions; request sequences of every protocol with all cut positions',
 TESTS + 'each request arrives in one piece.',
 ['src/conn.c', 'src/parse.c', 'src/resp.c', 'src/http.c', 'src/memcache.c', 'src/postgres.c'], [('partial packet buffering', 'src/conn.c: evdata'), ('incomplete request detection', 'the parse functions')], ['bytes sent, contents, close'])
prop('P07', 'Every command gets exactly one well-formed reply',
 'Whatever arguments of whatever bytes a command is given, over RESP and Postgres, it is answered by exactly one reply that is correctly framed in that protocol, so a client can tell where it ends, and the next request on the connection is answered in step. A monitoring connection receives exactly one escaped line per command, and nothing is left allocated when the connections close.',
 ['inputs'], 'every command with all argument counts and argument bytes within bounds',
 TESTS + 'replies to bad or binary arguments are not looked at.',
 ['src/cmds.c', 'src/conn.c', 'src/resp.c', 'src/postgres.c', 'src/monitor.c'], [('reply framing', 'src/conn.c: conn_write_*, src/buf.c, src/postgres.c: pg_write_*'), ('monitor', 'src/monitor.c: monitor_cmd')], ['bytes sent'])
prop('P08', 'No input can crash the server, corrupt memory, leak or harm other clients',
 'Whatever bytes a client sends where a protocol lets it choose them (lengths, counts, names, numbers, options, escapes, message bodies), before and after authentication, the server neither crashes nor hangs nor touches memory outside its buffers. Entries the input cannot name stay as they are, other connections are answered as usual, and closing the connection releases everything allocated for it.',
 ['inputs'], 'all byte strings of bounded length at every client-controlled place of well-formed conversations in every protocol, in one piece or byte by byte',
 TESTS + 'no test sends malformed input.',
 ['src/conn.c', 'src/parse.c', 'src/resp.c', 'src/http.c', 'src/memcache.c', 'src/postgres.c', 'src/args.c', 'src/buf.c'], [('parsers', 'src/parse.c, src/resp.c, src/http.c, src/memcache.c, src/postgres.c'), ('buffers', 'src/buf.c, src/args.c')], ['memory accesses, replies to another client'])
prop('D01', 'Saving and loading restores every live entry',
 'After a successful save, loading the file brings back every entry that was live when it was saved and has not expired since, with its key, value, flags and the part of its time to live that is left after the time that passed on the wall clock, and no other entry; entries present before the load and not in the file stay. This holds for any number of shards and threads on either side, also when threads cannot be started or left-over work files exist, and a shard too large for the format makes the save fail instead of losing entries. SAVE and LOAD use the path and options they are given and report the outcome.',
 ['inputs', 'histories', 'schedules', 'configurations'], 'all values, flags, times to live and elapsed times; contents over several shards; all bounded-preemption schedules of the worker threads',
 'no test saves or loads anything.',
 ['src/save.c', 'src/cmds.c', 'src/util.c', 'src/buf.c'], [('writing', 'src/save.c: save, thsave, save_entry, flush'), ('reading', 'src/save.c: load, thload, load_block'), ('commands', 'src/cmds.c: cmdSAVELOAD')], ['file contents, cache contents after load'])
prop('D02', 'A damaged file is refused and never does harm',
 'Loading any file whatsoever succeeds exactly when it is a sequence of complete blocks with correct checksums, lengths and entries; otherwise it is refused. It never crashes, hangs, leaks or reads outside its buffers, whatever read fails, and entries the file does not name stay as they are. The checksum is CRC-32.',
 ['inputs', 'faults', 'schedules'], 'all contents of blocks of bounded length, all header damage, truncation, read errors, thread failures and bounded-preemption schedules',
 'no test loads a file.',
 ['src/save.c', 'src/util.c'], [('block header, checksum, entry decoding', 'src/save.c: load, thload, load_block; src/util.c: crc32, varint_read_u64')], ['result of load, cache contents'])
prop('D03', 'A failed or interrupted save leaves the previous file intact',
 'The saved file is only ever replaced as a whole by a complete new one: whichever system call fails and wherever the process stops, the file is either the previous one, unchanged, or the complete new one. A failed save reports failure, the cache is unchanged, no work file or descriptor is left behind, and starting up removes left-over work files and nothing else.',
 ['faults', 'schedules'], 'every failing or short system call, failing thread start, failing compression, every stopping point between calls, all bounded-preemption schedules of the writers',
 'no test saves anything or makes a call fail.',
 ['src/save.c'], [('work file and rename', 'src/save.c: save, flush'), ('clean-up', 'src/save.c: cleanwork')], ['file system calls, file contents'])
prop('O01', 'The server runs with exactly the options of its command line',
 'Every documented option given on the command line (long form with = or a separate value, short form) reaches the cache, the network layer and the memory limit with exactly the value given, within the documented limits, and every option not given has its documented default. An unknown option, a missing or malformed value refuses to start with an error and a non-zero exit code; asking for help or the version is no error.',
 ['inputs', 'configurations'], 'every option with all values of bounded length, alone and in pairs',
 TESTS + 'the tests start the server with one set of options.',
 ['src/main.c'], [('option parsing', 'src/main.c: main'), ('settings handed on', 'src/main.c: main, calc_memlimit, setmaxrlimit')], ['settings in force, exit code'])
prop('O02', 'Low memory and automatic sweeping start and stop with their conditions',
 'While the process uses more memory than the limit allows, and only then, the server is in low-memory mode, in which entries are evicted or stores refused; without a limit never. With automatic sweeping the entries that expired are removed within a bounded number of ticks without any request, without it they are not, and live entries are never removed by it.',
 ['histories', 'schedules', 'configurations'], 'all sequences of memory readings of bounded length; all mixtures of live and expiring entries; both settings',
 'no test reaches the memory limit or waits for a sweep.',
 ['src/main.c', 'src/pogocache.c'], [('tick threads', 'src/main.c: memticker, autosweepticker'), ('polling', 'src/pogocache.c: pogocache_sweep_poll')], ['low-memory flag, contents'])
prop('O03', 'Data is loaded before serving and saved when asked to stop',
 'When a file is configured and exists, the server loads it before it serves, and does not start if that fails; left-over work files are removed first. Asked to stop, it saves the data once and tells by its exit code whether that worked, but never saves data that was not completely loaded; a second request stops at once. Without a file nothing is loaded or saved.',
 ['histories', 'faults', 'schedules'], 'all combinations of configured file, existing file, failing clean-up, load and save, and the moment of the signals',
 'no test configures a file or stops the server while it loads.',
 ['src/main.c'], [('start', 'src/main.c: listening, ready'), ('stop', 'src/main.c: sigterm, sigtermticker')], ['load and save calls, exit code'])
prop('N01', 'Every request reaches the application and every reply the client',
 'Over every connection the bytes a client sends are passed on once, completely and in order, and the bytes of every reply are sent once, completely and in order, before the connection is closed, however reads and writes are cut short or refused, and whether work for it goes on in the background. A client that does not read, or that breaks off, neither holds up nor disturbs any other client.',
 ['inputs', 'schedules', 'faults'], 'all sequences of bounded length of client actions, partial, refused and failing reads and writes, and completions of background work',
 'the tests use one well-behaved client over a socket that takes everything at once.',
 ['src/net.c'], [('reading', 'src/net.c: qread, qprocess'), ('writing', 'src/net.c: flush_conn, qwrite'), ('background work', 'src/net.c: net_conn_bgwork, qattach')], ['bytes passed on and sent, sockets closed'])
prop('N02', 'Connections are limited, counted and released, TLS stays on its port',
 'Never more connections are open than the limit, a client is turned away only when that many are open, and the numbers of current, total and rejected connections are right at every moment. TLS is used for exactly the connections that came in on the TLS port. Each connection is opened once, closed once and completely released, also when setting it up fails, and memory does not grow with past connections.',
 ['histories', 'faults', 'configurations'], 'all sequences of bounded length of connects, disconnects and set-up failures on TCP, Unix and TLS ports',
 'no test reaches the connection limit, uses TLS or makes a set-up call fail.',
 ['src/net.c'], [('accepting', 'src/net.c: qaccept'), ('closing', 'src/net.c: qclose, conn_free'), ('connection table', 'src/net.c: cmap_insert, cmap_delete')], ['counters, sockets, heap'])
prop('N03', 'The server listens exactly where it is told and says when it cannot',
 'The server listens on exactly the host and ports and the socket path it is configured with, every event thread hears every listener, and each accepted connection has exactly the socket options (nodelay, keepalive, quickack) asked for. When an address is unusable, a path too long, or any call needed to start fails, also the start of a thread, it ends with an error instead of serving partly. A failure to set up one client concerns that client only.',
 ['inputs', 'faults', 'configurations'], 'all combinations of listeners, address lists, option flags and path lengths, and every failing call',
 TESTS + 'the tests use one host and port and no call fails.',
 ['src/net.c', 'src/main.c'], [('listeners', 'src/net.c: listen_tcp, listen_unixsock, net_main'), ('socket options', 'src/net.c: setkeepalive, settcpnodelay, setquickack')], ['system calls, exit code'])
