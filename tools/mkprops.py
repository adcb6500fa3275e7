# Generates properties.jsonl (one JSON object per line). Kept so that the long texts stay editable.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Reported usage reaches the server exactly once",
 "Over any history of Report, Flush, FlushAll, elapsed time, cache pressure and client destruction, every operation accepted by Report is accounted for in exactly one outgoing report: per (consumer, operation name, operation labels, metric, metric labels) the DELTA int64/double/distribution totals and the log entries sent, plus those still cached, equal those reported. Nothing is lost, duplicated or credited to another consumer, operation, label set or metric. A report with any operation whose importance is not LOW is never cached: it is handed back (NOT_FOUND) or sent directly and unmodified as one request.",
 ["inputs","histories","configurations"],
 "all option values (entries, intervals), all histories of report/flush/time/destroy, all operations with well-formed metric values",
 "The unit tests use at most two operations and fixed cache sizes 1-10 and never sum what leaves against what entered over an interleaved history with evictions, expiry, the 100-log-entry cut and batching.",
 ["src/report_aggregator_impl.cc","src/operation_aggregator.cc","src/cache_removed_items_handler.h","src/signature.cc","utils/simple_lru_cache_inl.h","src/service_control_client_impl.cc"],
 [("per-operation aggregation keyed by signature","src/report_aggregator_impl.cc Report"),("eviction callback collects every removed entry","src/report_aggregator_impl.cc OnCacheEntryDelete"),("removed items flushed after the cache lock is released","src/cache_removed_items_handler.h StackBuffer"),("destructor flushes everything","src/service_control_client_impl.cc ~ServiceControlClientImpl")],
 [("report cache","aggregated operations not yet sent","src/report_aggregator_impl.h cache_")],["flush callback","TransportReportFunc","Report return status"])

p("C02","Reports are flushed on time, in bounded batches, from a bounded cache",
 "Every cached operation leaves no later than the first Flush (or Report touching the cache) strictly after flush_interval has elapsed since it was first cached, and, absent cache pressure, the 100-log-entry limit or FlushAll, not before the interval has elapsed. An outgoing flushed report carries the configured service name and config id and between 1 and 10 operations, batches are filled greedily (a batch is closed only when full), and an aggregated operation is sent as soon as a merge brings it to 100 or more log entries. Between calls at most num_entries operations are cached, the oldest being evicted first; with num_entries <= 0 nothing is cached and no flush interval is advertised.",
 ["inputs","histories","configurations"],
 "all histories of report/flush/time under all option values",
 "The tests sleep through two or three fixed intervals with one or two keys; ordering under pressure, the boundary of the interval, batches of more than 10 and combinations of these are not reached.",
 ["src/report_aggregator_impl.cc","src/cache_removed_items_handler.h","utils/simple_lru_cache_inl.h"],
 [("age-based eviction","utils/simple_lru_cache_inl.h DiscardIdle"),("MergeItem and kMaxOperationsToSend","src/report_aggregator_impl.cc"),("TooBig / kMaxLogEntries","src/operation_aggregator.cc")],
 None,["flush callback","GetNextFlushInterval"])

p("C03","Merging operations equals the mathematical aggregate",
 "Merging a sequence of operations of one identity yields exactly one operation whose start time is the minimum and end time the maximum of those present, whose log entries are all entries in order, and whose remaining fields are those of the first operation. For each metric name and label set there is exactly one value: for DELTA metrics the sum (int64, double, distribution) over the values of the first-seen type with min start and max end time, values of another type leaving it unchanged; for CUMULATIVE and GAUGE metrics the complete value with the latest end time (a later arrival wins ties). Quota operations merge likewise per metric name by int64 sum, keeping the first operation's other fields.",
 ["inputs","histories"],
 "all sequences of operations, metric kinds, value types, label sets and timestamps (missing ones included)",
 "Tests merge two or three hand-written operations; order effects, missing or equal timestamps, mixed types and label order over longer sequences are not covered.",
 ["src/operation_aggregator.cc","src/quota_operation_aggregator.cc","src/signature.cc","utils/distribution_helper.cc"],
 [("MergeOperation / MergeMetricValueSets","src/operation_aggregator.cc"),("MergeOperation","src/quota_operation_aggregator.cc")],
 [("metric_value_sets_","aggregate per metric and label signature","src/operation_aggregator.h")],["ToOperationProto"])

p("C04","A cached check decision is the latest one for the same caller, within its life",
 "A Check answered from cache returns exactly the response most recently recorded for the same identity (operation name, consumer, labels, metric names and metric labels); a check with importance other than LOW, a never-recorded identity, one whose entry was idle longer than the expiration, or any check with caching disabled always goes to the server. Once flush_interval has passed since the last recorded response or refresh, exactly the next check of that identity goes to the server and further checks within the following interval are still answered from cache. Requests with a wrong service name or without an operation are rejected with INVALID_ARGUMENT and change nothing.",
 ["inputs","histories","configurations"],
 "all histories of check / record response / flush / time over many identities and all option values",
 "Tests use one or two identities and a few sleeps near a single configuration; staleness, cross-identity leaks and the refresh gate over long histories with eviction are not reached.",
 ["src/check_aggregator_impl.cc","src/check_aggregator_impl.h","src/signature.cc","utils/simple_lru_cache_inl.h","include/aggregation_options.h"],
 [("ShouldFlush and last_check_time","src/check_aggregator_impl.cc Check"),("CacheResponse","src/check_aggregator_impl.cc"),("SetMaxIdleSeconds","src/check_aggregator_impl.cc constructor"),("expiration at least flush interval + 1","include/aggregation_options.h CheckAggregationOptions")],
 [("CacheElem","response, last check time and pending aggregate","src/check_aggregator_impl.h")],["Check status and response","transport calls"])

p("C05","Usage of checks answered from cache is kept and flushed exactly once",
 "Every check admitted under a cached passing response (including the one sent on to refresh it) is aggregated into that identity's pending operation, and no other check is. When the entry leaves the cache - expired by Flush or a later call, evicted by cache pressure, or FlushAll - one check request with the configured service name and config id and exactly that aggregate is flushed, and entries without pending usage are dropped silently. Recording a new response, passing or failing, never discards or sends pending usage.",
 ["inputs","histories","configurations"],
 "all histories of check / record response / flush / time / flush-all under all cache sizes and intervals",
 "The tests look at a single pending aggregate of one or two merged requests.",
 ["src/check_aggregator_impl.cc","src/operation_aggregator.cc","src/cache_removed_items_handler.h"],
 [("CacheElem::Aggregate","src/check_aggregator_impl.cc"),("OnCacheEntryDelete","src/check_aggregator_impl.cc")],
 None,["flush callback"])

p("C06","Quota admission: one request in flight, calls get the latest answer",
 "The first quota call of an identity (method, consumer, set of metric names) that is not cached is admitted with an empty positive response and sends exactly that request to the server; until its answer is recorded no further request for that identity is sent while it stays cached, and every later call gets verbatim the last answer recorded for the identity (the empty positive one before any). Answers for identities that are not cached are ignored. Requests with a wrong service name or without an allocate operation are rejected with INVALID_ARGUMENT, and with caching disabled every call is NOT_FOUND.",
 ["inputs","histories","configurations"],
 "all histories of quota / record answer / flush / time over several identities, with answers arriving in any order, late or never",
 "Tests walk single-identity scripts; answers overtaking each other, multiple identities, evictions and long histories are not covered.",
 ["src/quota_aggregator_impl.cc","src/quota_aggregator_impl.h","src/signature.cc"],
 [("temporary positive element and in_flight flag","src/quota_aggregator_impl.cc Quota"),("CacheResponse","src/quota_aggregator_impl.cc")],
 [("in_flight","a request for the entry awaits its answer","src/quota_aggregator_impl.h")],["Quota status and response","flush callback"])

p("C07","Quota tokens are charged exactly once",
 "Tokens of calls admitted under a positive cached answer are summed per metric and sent exactly once, in the next refresh of that identity; a refresh with nothing aggregated re-sends the identity's initial request instead, and the call that triggers a refresh is itself counted in the following one. While the cached answer is negative nothing is aggregated, recording a negative answer discards what was pending, and a refresh triggered by a call then asks in NORMAL mode. Pending tokens are otherwise only dropped when the entry is dropped after the expiration interval or by FlushAll; cache pressure sends them.",
 ["inputs","histories","configurations"],
 "all token amounts, metric sets and histories of quota / record answer / flush / time",
 "Tests check two or three additions along one script; conservation over interleavings of refresh, late answers, sign changes and expiry is not checked.",
 ["src/quota_aggregator_impl.cc","src/quota_operation_aggregator.cc"],
 [("Aggregate / ReturnAllocateQuotaRequestAndClear","src/quota_aggregator_impl.cc"),("set_quota_response clears aggregate when negative","src/quota_aggregator_impl.h")],
 None,["flush callback request contents"])

p("C08","Quota refresh, expiry and capacity follow the configured intervals",
 "An entry not awaiting an answer is refreshed by the first call at or after refresh_interval since its last refresh, and by Flush (or any call that ages the cache) once refresh_interval has passed since it was (re)inserted if tokens are pending; never sooner, and never while an answer is awaited. An entry whose last refresh is at least expiration_interval old is dropped when it is next aged out, younger ones survive any number of Flush calls, and at most num_entries identities stay cached, the oldest insertion being dropped first. FlushAll empties the cache and leaves the aggregator working as before.",
 ["histories","configurations"],
 "all histories and all option values (tiny caches, refresh longer than expiration, zero intervals)",
 "Tests use one refresh/expiry pair and never exceed the cache capacity nor use the cache after FlushAll.",
 ["src/quota_aggregator_impl.cc","utils/simple_lru_cache_inl.h"],
 [("ShouldRefresh / ShouldDrop","src/quota_aggregator_impl.cc"),("OnCacheEntryDelete re-insertion","src/quota_aggregator_impl.cc"),("SetAgeBasedEviction","src/quota_aggregator_impl.cc constructor")],
 [("last_refresh_time","time of the last refresh request","src/quota_aggregator_impl.h")],["flush callback","GetNextFlushInterval"])

p("C09","Each client call completes exactly once with the right status and response",
 "Every Check, Quota and Report call on a client runs its completion callback exactly once: immediately for validation errors (no transport call), a missing transport (INVALID_ARGUMENT) and answers from cache, otherwise when and with exactly the status the transport reports, the response object being the one the transport filled. A call that goes to the server uses the per-request transport if one was given and the configured one otherwise, exactly once, with a request equal to the caller's. Flushes always use the configured transports, and no transport is called other than for such a call or a flush.",
 ["inputs","histories","configurations","fault_sequences"],
 "all mixes of calls, transports (global, per-request, missing), completion orders (in place, later, out of order) and statuses",
 "The tests issue one to ten calls with a handful of scripted completions of one kind.",
 ["src/service_control_client_impl.cc","include/service_control_client.h"],
 [("Check/Quota/Report dispatch","src/service_control_client_impl.cc")],
 None,["DoneCallback","Transport*Func invocations"])

p("C10","Transport errors are surfaced and never cached, and quota fails open",
 "A failed Check call is reported to its caller and leaves the cached decision for that identity unchanged, so the failure is never served from cache; a failed Report is reported to its caller. A failed quota request makes the identity fail open: from its completion on, callers get the empty positive answer and the identity can be refreshed again; with quota caching disabled the error is reported to the caller. Failures of flushed requests of any kind are absorbed without affecting any caller's completion.",
 ["fault_sequences","histories"],
 "all placements of error statuses among completions, for direct, flushed and refresh requests",
 "Tests inject an error in two or three fixed positions.",
 ["src/service_control_client_impl.cc","src/check_aggregator_impl.cc","src/quota_aggregator_impl.cc"],
 [("done lambdas","src/service_control_client_impl.cc")],
 None,["DoneCallback status","later cached answers"])

p("C11","A client can be destroyed at any point without loss, crash or late effects",
 "Destroying a client sends all cached reports and all pending check usage through the configured transports before returning, and stops the timer. Afterwards nothing is sent: completions of outstanding Check, Quota or Report calls and of flushed requests may still arrive in any order, as may timer ticks, and each outstanding caller still gets its callback exactly once; none of this touches freed memory. A client whose configured transports are missing can still be used with per-request transports and destroyed.",
 ["crash_points","histories","schedules"],
 "destruction after every prefix of every history, with any subset of completions and timer ticks arriving later",
 "Tests destroy the client with no or one outstanding call, never with outstanding quota flushes and late completions.",
 ["src/service_control_client_impl.cc","src/cache_removed_items_handler.h"],
 [("destructor: flush, stop timer, disconnect callbacks","src/service_control_client_impl.cc ~ServiceControlClientImpl"),("shared ownership of aggregators by completions and timer","src/service_control_client_impl.cc")],
 None,["transport calls after destruction","AddressSanitizer"])

p("C12","Statistics count calls and sends exactly",
 "At any quiescent point the statistics equal the true counts: calls received per kind (including rejected ones), requests sent to the server directly by a call, requests sent by flushes, and report operations sent, direct and flushed. Counters never decrease and every transport invocation is counted in exactly one of them (a direct call that uses a per-request transport included).",
 ["histories","configurations","fault_sequences"],
 "all histories of client calls, flushes, ticks and completions",
 "Tests compare counters at the end of a few fixed scripts.",
 ["src/service_control_client_impl.cc","include/service_control_client.h"],
 [("atomic counters","src/service_control_client_impl.cc")],None,["GetStatistics"])

p("C13","Request identity: same identity shares an entry, different identities never do",
 "Two check requests (two report operations, metric values, quota requests) get the same cache identity if and only if they agree on the identifying fields - operation name, consumer id, labels, metric names and metric value labels for checks; consumer id, operation name and labels for reports; labels for metric values; method, consumer id and set of metric names for quota - regardless of label order, metric-set order and all other fields. Identities are deterministic across calls and processes. Whether splitting or reordering the values inside one metric set of a check changes its identity is left open.",
 ["inputs"],
 "all pairs of requests, including near-collisions (shifted boundaries between adjacent fields, swapped keys and values, empty strings)",
 "The signature test pins digests of five fixed messages.",
 ["src/signature.cc","utils/md5.cc"],
 [("delimited hashing of ordered fields","src/signature.cc")],None,["Generate*Signature","shared or separate cache entries"])

p("C14","Adding a sample updates a distribution like the definition",
 "After adding any sequence of finite samples to a distribution initialised with valid linear, exponential or explicit buckets, count, mean, minimum, maximum and sum of squared deviations agree with direct computation up to rounding, every bucket count equals the number of samples within that bucket's bounds (underflow and overflow buckets included), and the bucket counts sum to the count. Infinite or NaN samples still land in exactly one bucket and never access anything outside the distribution. Invalid bucket parameters are rejected with INVALID_ARGUMENT leaving the distribution unchanged, and a sample for a distribution without buckets is rejected unchanged.",
 ["inputs","histories"],
 "all valid bucket options and sample sequences, extreme values included",
 "Tests use a dozen hand-picked samples on three bucket layouts.",
 ["utils/distribution_helper.cc","utils/distribution_helper.h"],
 [("Update*BucketCount, UpdateGeneralStatictics","utils/distribution_helper.cc")],None,["AddSample","Init*"])

p("C15","Merging distributions equals adding all samples to one",
 "Merging two distributions with equal bucket options gives the same bucket counts, count, minimum and maximum as adding all samples to one distribution, and mean and sum of squared deviations up to rounding, independent of order and grouping; an empty side is neutral. Distributions whose bucket options or bucket numbers differ are rejected with INVALID_ARGUMENT and the target is unchanged.",
 ["inputs"],
 "all sample sequences, splits and bucket options",
 "Tests merge two fixed distributions per bucket kind.",
 ["utils/distribution_helper.cc"],
 [("Merge and BucketsApproximatelyEqual","utils/distribution_helper.cc")],None,["Merge"])

p("C16","Money arithmetic is exact, or saturates and says so",
 "For any two valid amounts of one currency the sum is the exact sum as a valid amount (units and nanos agree in sign, nanos below one billion) whenever it is representable, and otherwise OUT_OF_RANGE with the extreme amount of the right sign; the saturating variant returns the same amounts. Differing currencies give INVALID_ARGUMENT and a cleared result. Validation accepts exactly the amounts with a three-letter-long currency, |nanos| <= 999999999 and agreeing signs, and the sign function agrees with the numeric value.",
 ["inputs"],
 "all pairs of money values, including values near both limits and fractions without units",
 "Tests enumerate about twenty pairs.",
 ["src/money_utils.cc","src/money_utils.h"],
 [("TryAddMoney, SaturatedAddMoney, ValidateMoney, GetAmountSign","src/money_utils.cc")],None,["return values"])

p("C17","The LRU cache behaves as a bounded map with pins",
 "Over any history of insert, lookup, release, remove, resize, clear and elapsed time, lookups return exactly the value last inserted for the key unless it was removed, replaced, expired or evicted; each value is handed to the deleter exactly once, never while pinned, and always by the time the cache is emptied and pins are released. Reported size, entry, deferred and pinned counts, iteration and the debug listing match this state. After every operation the total size is within the maximum or everything evictable has been evicted.",
 ["histories","configurations"],
 "all histories with overlapping pins, duplicate inserts under pins, any units and both eviction modes",
 "Tests run scripted histories with mostly unit sizes and non-overlapping pins.",
 ["utils/simple_lru_cache_inl.h","utils/simple_lru_cache.h"],
 [("table, LRU list and deferred table","utils/simple_lru_cache_inl.h")],
 [("defer_","removed but pinned entries","utils/simple_lru_cache_inl.h")],["Lookup","deleter","Size/Entries/DeferredSize/PinnedSize"])

p("C18","Eviction order and expiry of the LRU cache follow the mode",
 "In LRU mode evictions hit the least recently released or inserted unpinned entries first and an entry expires once it has been unused for more than the maximum idle time; in age-based mode the oldest insertion goes first and an entry expires once older than the limit, looked up or not. Lookups that ask not to update the eviction order change neither order nor expiry. Nothing expires earlier, and with a negative limit nothing ever expires.",
 ["histories","configurations"],
 "all histories of cache operations and clock advances in both modes",
 "Tests check a few orders with fixed keys and real-time sleeps.",
 ["utils/simple_lru_cache_inl.h"],
 [("DiscardIdle, GarbageCollect, Link/Unlink","utils/simple_lru_cache_inl.h")],None,["which values reach the deleter, and when","GetLastUseTime, GetInsertionTime, AgeOfLRUItemInMicroseconds"])

p("C19","The hash is MD5 of the concatenated input, however it is chunked",
 "For every byte string and every way of splitting it into updates (of any length, with embedded zero bytes, through any overload), the digest equals the standard MD5 of the concatenation and asking again returns the same digest; its debug form is the lower-case hex of the digest.",
 ["inputs"],
 "all byte strings and chunkings",
 "The test hashes three fixed strings.",
 ["utils/md5.cc","utils/md5.h"],
 [("MD5_Init/Update/Final wrapper","utils/md5.cc")],None,["Digest","DebugString"])

p("C20","Concurrent use is free of races and loses nothing",
 "With any number of threads calling Check, Quota, Report and statistics on one client while the timer ticks and completions arrive on other threads, there is no data race, deadlock or crash; every call completes exactly once; and after destruction the totals reported, the check usage and the statistics balance exactly as in a sequential run.",
 ["schedules","histories"],
 "all interleavings of callers, timer and completion threads",
 "The threaded tests run one kind of call at a time and check only counters; races are not detected by a plain build.",
 ["src/service_control_client_impl.cc","src/check_aggregator_impl.cc","src/quota_aggregator_impl.cc","src/report_aggregator_impl.cc","src/cache_removed_items_handler.h","utils/thread.h"],
 [("cache mutex and callback mutex","src/*_aggregator_impl.cc, src/cache_removed_items_handler.h"),("atomic counters","src/service_control_client_impl.h")],None,["ThreadSanitizer reports","totals"])

p("C21","Blocking calls return the completion's status and response",
 "A synchronous Check, Quota or Report returns only after its request was completed - in place, or later from any other thread - and returns exactly the status of that completion, with the response filled in; answers from cache and validation errors return without any completion. Any number of them may block at once, and each gets its own result.",
 ["schedules","histories"],
 "all completion threads and delays, many concurrent blocking calls",
 "Tests complete a sync call from one thread with fixed delays.",
 ["src/service_control_client_impl.cc","utils/thread.h"],
 [("promise moved into the completing thread","src/service_control_client_impl.cc")],None,["return value of the blocking calls"])

p("C22","The flush timer is set up for the earliest deadline and drives all flushing",
 "A client with a timer factory creates exactly one periodic timer, with the minimum of the three caches' flush intervals (check expiration, quota refresh, report flush), caches that are disabled not counting (if all are disabled it creates at most one timer). Each tick flushes all three: after a tick nothing stays cached that was due, so with ticks every interval a report or expired check usage is sent at most one tick after its own deadline, and the timer is stopped exactly once, on destruction.",
 ["configurations","histories"],
 "all option combinations and tick histories",
 "Tests use a mock timer for one configuration per cache.",
 ["src/service_control_client_impl.cc","include/aggregation_options.h"],
 [("GetNextFlushInterval and timer lambda","src/service_control_client_impl.cc")],None,["periodic_timer factory calls","transport calls after a tick"])

p("C23","In-place and re-entrant transports never deadlock or corrupt",
 "Transports may complete in place, take arbitrary time before doing so, and completion callbacks of Check, Quota and Report may issue further client calls: every call still returns, every callback runs exactly once, and cached decisions, token and usage accounting are as with deferred completion. This holds also for flushes of several entries at once triggered by a call, a tick or expiry, where each in-place completion ages the cache again.",
 ["histories","fault_sequences","configurations"],
 "all nestings of in-place completion, elapsed time inside a transport, and calls from callbacks",
 "Tests complete one call in place at frozen time and never call back into the client.",
 ["src/service_control_client_impl.cc","src/cache_removed_items_handler.h","src/quota_aggregator_impl.cc"],
 [("flush callbacks run outside the cache lock","src/cache_removed_items_handler.h"),("copies of request and response held by completions","src/service_control_client_impl.cc")],None,["return of every call (watchdog)","callbacks"])

p("C24","With caching disabled the client is a transparent pipe",
 "With a cache's num_entries set to 0 or less, every valid call of that kind is forwarded to the transport exactly once, at once, with an equal request, the response object filled by the transport and its status passed on unchanged, however often the same request is repeated and however much time passes. No flush of that kind is ever sent, the other two kinds are unaffected, and this holds for every subset of disabled caches.",
 ["configurations","inputs","histories"],
 "all subsets of disabled caches and all call histories",
 "Tests disable caches one at a time for a single call.",
 ["src/service_control_client_impl.cc","src/check_aggregator_impl.cc","src/quota_aggregator_impl.cc","src/report_aggregator_impl.cc"],
 [("cache_ is null when num_entries <= 0","src/*_aggregator_impl.cc")],None,["transport calls"])

p("C25","The sample HTTP transport maps every outcome to the right status",
 "For every combination of transfer error, HTTP status code and response body, the sample HTTP transport completes each call exactly once: OK with the parsed response only if the transfer succeeded and the body parses, INVALID_ARGUMENT if it does not parse. A failed transfer is never OK and maps the HTTP code to its status: 400 INVALID_ARGUMENT, 401 UNAUTHENTICATED, 403 PERMISSION_DENIED, 404 NOT_FOUND, 409 ABORTED, 416 OUT_OF_RANGE, 429 RESOURCE_EXHAUSTED, 499 CANCELLED, 501 UNIMPLEMENTED, 503 UNAVAILABLE, 504 DEADLINE_EXCEEDED, other 4xx FAILED_PRECONDITION, other 5xx INTERNAL, anything else UNKNOWN. What is posted is the whole serialised request, to the URL of its kind.",
 ["inputs","fault_sequences"],
 "all HTTP codes, curl errors and bodies (binary bytes included)",
 "The sample has no tests at all.",
 ["sample/transport/http_transport.cc"],
 [("SendHttp, ConvertHttpCodeToStatus","sample/transport/http_transport.cc")],None,["on_done status"])

p("C26","A client releases everything it took, and takes no more over time",
 "Once a client is destroyed and every outstanding completion has been delivered, all memory the library allocated on its behalf - copies of requests, responses of flushed requests, cache entries, pending aggregates, the caches themselves - is freed, and every copy of the callbacks, transports and timer callback handed over is destroyed, whatever mix of answers, transport failures, evictions, expiry, nesting and late completions came before. While it lives, repeating the same calls with the cache intervals run down in between does not make it hold more memory each time.",
 ["histories","fault_sequences","configurations"],
 "all histories of calls, completions (failed, late, in place), evictions, expiry and destruction",
 "Tests do not look at memory at all.",
 ["src/service_control_client_impl.cc","src/check_aggregator_impl.cc","src/quota_aggregator_impl.cc","src/report_aggregator_impl.cc","utils/simple_lru_cache_inl.h"],
 [("request copies and responses owned by completions","src/service_control_client_impl.cc"),("OnCacheEntryDelete","src/*_aggregator_impl.cc")],None,["blocks of memory allocated inside library calls and never freed","copies of callbacks"])

p("C27","Clients in one process do not affect one another",
 "Any number of clients may exist in one process, with the same or different options, metric kinds and service config ids, be used in turn, from each other's callbacks or from different threads at once, and be created and destroyed at any moment, also while another one is inside a transport or callback. Each behaves exactly as if it were alone: every other guarantee holds for it, nothing cached, pending, counted, timed or configured in one shows in another, no call of one waits for another, and unsynchronised use of different clients is free of data races.",
 ["histories","schedules","configurations"],
 "all interleavings of calls, ticks, completions, creation and destruction of several clients",
 "Tests have one client at a time.",
 ["src/service_control_client_impl.cc","src/check_aggregator_impl.cc","src/quota_aggregator_impl.cc","src/report_aggregator_impl.cc","src/cache_removed_items_handler.h"],
 [("all state is per aggregator","src/*_aggregator_impl.cc"),("stack_buffer_, pending_buffers_ and the locks","src/cache_removed_items_handler.h")],None,["transport calls, answers, statistics and timers of each client"])

p("C28","Setting the clock only shifts when things are sent",
 "The wall clock may be set back or ahead, by microseconds or by months, at any moment, also while a call or flush is running. (This is about builds without assertions: with them, the cache's order check aborts by design when the clock is set back.) Every call still returns and every callback runs exactly once; no usage is lost, sent twice or attributed to another identity; statistics stay exact; responses are never made up. Setting the clock back delays refreshes and expiry until time catches up and never causes additional ones: with room for everything, an identity is refreshed at most as often as intervals have passed going forward.",
 ["histories","schedules","fault_sequences"],
 "all sequences of clock steps against all interleavings of calls, ticks and completions",
 "Tests use the system clock, which only goes forward.",
 ["src/check_aggregator_impl.cc","src/quota_aggregator_impl.cc","utils/simple_lru_cache_inl.h"],
 [("ShouldFlush, ShouldRefresh, ShouldDrop","src/*_aggregator_impl.cc"),("DiscardIdle","utils/simple_lru_cache_inl.h")],None,["return of every call (watchdog)","transport calls and answers"])

out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
