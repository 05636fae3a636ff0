"""Property texts: the source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
PROPS, NA = [], []

def prop(pid, title, statement, over, qtext, why, files, mechanism, technique, note, observe=(), state=()):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=list(observe), state=list(state)))

def na(pid, title, statement, over, qtext, why, files, mechanism, reason):
    prop(pid, title, statement, over, qtext, why, files, mechanism, None, None)
    NA.append((pid, reason))

URI = "src/core/include/URI.hpp"
ASAN = "generated workload under ASan+UBSan, "

prop("U01", "A URI is split into exactly the parts it was written with",
     "For every well-formed URI text, scheme, authority, user, password, host name, port, path, query and fragment reported by the URI object are exactly the pieces of the text between their delimiters (absent when absent, port as a number), however often and in whatever order they are asked for. The relative references are the path, query and fragment joined again, and equality, ordering and hash of two URIs follow their texts.",
     ["inputs"], "all well-formed texts [scheme:][//[user[:password]@]host[:port]][/path][?query][#fragment] in the strict and the relaxed flavour, short and long, IPv6 literals included",
     "tests sample a dozen texts; delimiters of one part may legally occur in another, parts may be empty, and lazily evaluated parts depend on the order of access",
     [URI], [dict(name="eager split of scheme/authority/path/query/fragment", where=URI + ": parseURI"), dict(name="lazy split of the authority", where=URI + ": parseAuthority")],
     ASAN + "monitor compares every accessor with the parts the text was composed from",
     "Exploration: ~10^5 distinct texts per run, generated from parts so that the expected answer is known by construction.", ["scheme() authority() user() password() hostName() port() path() queryParam() fragment() relativeRef()"])
prop("U02", "Percent-encoding and query parameters survive a round trip unchanged",
     "Percent-encoding turns any byte string into text consisting only of unreserved characters and '%XX' escapes, and decoding returns the original bytes. The query parameter map of a URI contains exactly the decoded key/value pairs written in its query, keys without value included, and a query built from a parameter map parses back to that map.",
     ["inputs"], "all byte strings; all sets of parameters with arbitrary non-empty keys and optional values, '&' and ';' separators",
     "tests encode a few ASCII strings; bytes >= 0x80, control characters, reserved characters in keys/values, and the last parameter take different paths",
     [URI], [dict(name="encode/decode", where=URI + ": encode, decode"), dict(name="query splitter", where=URI + ": queryParamMap"), dict(name="query builder", where=URI + ": UriFactory::addQueryParameter/setQuery/toString")],
     ASAN + "round-trip monitor against an independent reference codec", "Exploration; every byte and byte pair is enumerated, longer strings and parameter sets are random.")
prop("U03", "URI objects are independent values under copy, move, assignment and destruction",
     "After any history of constructing, copying, moving, assigning (also to itself), swapping and destroying URI objects, each live object reports exactly the parts of the text it currently represents. No object depends on the lifetime or later changes of another object or of the text it was built from.",
     ["histories", "inputs"], "all histories over a set of URI objects interleaved with accessor calls, texts shorter and longer than the small-string buffer",
     "tests copy and move once; stale views into a previous buffer show only after assignment over an object whose lazy parts were already evaluated, or when the source dies first",
     [URI], [dict(name="copy/move construction and assignment re-parse", where=URI + ": constructors and operator="), dict(name="parsed-authority flag", where=URI + ": _parsedAuthority")],
     ASAN + "model-based history checker (each slot carries the parts it must report)", "Exploration of random operation histories; use-after-free and stale views are seen by AddressSanitizer, wrong content by the model.")
prop("U04", "Hostile URI text is either rejected with the syntax error or handled safely",
     "For every byte string offered as a URI, parsing either fails with the URI syntax exception or yields an object all of whose accessors are total: no crash, no out-of-bounds access, no other exception, every part taken from the text, and a verdict that is the same each time it is asked for. In strict mode text with characters that are illegal for a URI or for its scheme, authority or path is never accepted, parameters are never extracted from a query with characters illegal for it, and a malformed percent escape is never decoded silently.",
     ["inputs"], "all byte strings as URI text and as input of the percent decoder",
     "the space of malformed texts is unbounded; tests include a handful of bad characters only",
     [URI], [dict(name="character class checks", where=URI + ": parseURI/parseAuthority"), dict(name="port conversion", where=URI + ": parseAuthority"), dict(name="escape decoding", where=URI + ": decode")],
     "hostile input generation (exhaustive short delimiter strings, random bytes, mutations) under ASan+UBSan with a totality/acceptance monitor", "Exploration; all texts up to length 4 over the delimiter alphabet are enumerated.")
prop("U05", "The URI builder is a faithful, repeatable inverse of parsing",
     "Building from an existing URI without changes reproduces its text; setting one part changes that part only; assembling parts yields a text that parses back to exactly these parts. Rendering or building any number of times, or from a copy, gives the same text.",
     ["inputs", "histories"], "all well-formed URIs and sequences of builder calls",
     "tests build a few texts once; separators between absent/present parts, repeated rendering and already evaluated lazy parts are not covered",
     [URI], [dict(name="UriFactory", where=URI + ": class UriFactory, toString")],
     ASAN + "composition oracle on the rendered text and on the re-parsed parts", "Exploration; one known finding (escapes in a fragment are escaped again).")
B64 = "src/majordomo/include/majordomo/base64pp.hpp"
prop("B01", "Base64 text encodes any byte string reversibly; malformed text is refused",
     "Encoding any byte string gives the standard padded base64 text, and decoding that text gives the byte string back. Text that is not valid padded base64 (wrong length, characters outside the alphabet, misplaced padding) is refused, never decoded to something else and never read out of bounds.",
     ["inputs"], "all byte strings and all texts", "tests use a dozen strings; alphabet boundaries and padding positions are position-dependent",
     [B64], [dict(name="encode", where=B64 + ": encode"), dict(name="decode", where=B64 + ": decode, decode_quad")],
     ASAN + "differential monitor against an independent bit-stream reference", "Exploration; all inputs up to 2 bytes and every byte at every position of short texts are enumerated.")
RW = "src/core/include/ReaderWriterLock.hpp"
SW = "src/core/include/SpinWait.hpp"
prop("L01", "Readers and writers are never inside together and see each other's data",
     "With any number of threads using a reader/writer lock through lock, attempt or scoped guard, no reader is ever inside while a writer is and vice versa, while threads of the same kind may share. Everything done by a thread before it leaves is visible to every thread of the other kind that enters afterwards, and once everybody has left the lock is free again.",
     ["schedules"], "all schedules of any number of readers and writers, including exceptions thrown while holding a guard",
     "the test is single-threaded; exclusion and memory ordering are schedule properties",
     [RW], [dict(name="signed counter CAS", where=RW + ": lock/tryLock/unlock"), dict(name="ScopedLock", where=RW)],
     "multi-threaded stress with injected delays under ThreadSanitizer and natively, online exclusion/visibility monitor", "Exploration of schedules; ThreadSanitizer decides ordering independent of the sampled timing for the executed paths.", state=[dict(name="_activeReaderCount", meaning=">0 readers, <0 writers", where=RW)])
prop("L02", "Reader/writer lock attempts are exact, non-blocking and leave no trace",
     "An attempt to enter succeeds exactly when nobody of the other kind is inside; a failed attempt returns promptly and changes nothing. The reported count is always the number of readers (positive) or writers (negative) inside, and a waiting thread gets in after the other side has left.",
     ["histories", "schedules"], "all sequences of lock, attempt, unlock and guards, and hand-overs between two threads",
     "tests check a handful of counts in one sequence", [RW], [dict(name="tryLock/lock/unlock/value", where=RW)],
     "model-based history checker plus cross-thread hand-over monitor under ASan+UBSan", "Exploration of random 40-step histories.")
prop("L03", "The spin mutex gives mutual exclusion, visibility and hand-over",
     "At most one thread is between lock and unlock of a spin mutex at any time, whatever waiting strategy it is configured with, and it sees everything the previous holder did. A waiting thread gets in after release, also when the holder leaves through an exception.",
     ["schedules"], "all schedules of any number of threads", "the test locks from one thread",
     [SW], [dict(name="AtomicMutex", where=SW)], "multi-threaded stress under ThreadSanitizer and natively, counting and in-section monitors", "Exploration of schedules.")
prop("L04", "Bounded spinning: counts, thresholds and time limits are respected",
     "A spin wait counts its iterations exactly, announces and performs yielding only after its configured threshold, regularly puts the thread to sleep when waiting long, and starts over on reset. Waiting for a condition without limit returns only when the condition holds; with a limit it returns true exactly if the condition was seen to hold, never gives up before the limit and does not ignore the limit; negative limits other than 'unlimited' are refused.",
     ["inputs", "schedules"], "all thresholds, limits and instants at which the condition becomes true", "tests call each function once with one limit",
     [SW], [dict(name="spinOnceInternal", where=SW), dict(name="spinUntil", where=SW)],
     "monitor on interposed yield/sleep calls and on measured waits", "Exploration; timing oracles only use one-sided bounds with 8 s slack.")
AF = "src/core/include/ThreadAffinity.hpp"
prop("A01", "Thread and process names set are the names the operating system reports",
     "Setting a name on the calling thread or another thread gives exactly that thread the given name (as far as the operating system can store it) and no other thread; reading a name returns what the operating system holds. Only the given characters are used, and requests for threads or processes that do not exist are reported as errors.",
     ["inputs"], "all names (any length, any buffer they are viewed in) and addressed threads", "tests set one short literal",
     [AF], [dict(name="setThreadName/getThreadName", where=AF), dict(name="setProcessName/getProcessName", where=AF)],
     ASAN + "oracle reads /proc/self/task/*/comm", "Exploration.")
prop("A02", "CPU placement and scheduling requests act exactly or fail without effect",
     "A CPU mask or scheduling policy/priority applied to a thread or process results in exactly that placement as reported by the operating system, for the addressed thread only. A request that cannot be met (no usable CPU, priority out of the policy's range, unknown policy, non-existing thread or process) is reported as an error and changes nothing; the getters return what is in force.",
     ["inputs"], "all masks shorter, equal or longer than the machine; all policy/priority pairs", "tests use one mask and one policy",
     [AF], [dict(name="setThreadAffinity/getThreadAffinity", where=AF), dict(name="setThreadSchedulingParameter", where=AF), dict(name="process variants", where=AF)],
     ASAN + "oracle reads sched_getaffinity/sched_getscheduler of the addressed and of an unrelated thread", "Exploration; real-time policies may be refused by the sandbox, then only 'refused without effect' is observed.")
BS = "src/disruptor/include/BasicSetting.hpp"
prop("T01", "Shared settings are never torn, stale, rolled back or lost",
     "Whatever one real-time thread and any number of other threads do with a shared setting, every holder sees one complete committed value that does not change while it is held, at least as new as everything committed before it started, and never older than one it saw before. Every committed modification takes effect exactly once.",
     ["schedules"], "all schedules of one real-time and many non-real-time threads, for both kinds of setting", "no test exercises it concurrently in the built set",
     [BS], [dict(name="AtomicMutex around the non-real-time side", where=BS), dict(name="atomic exchange of the published copy", where=BS)],
     "multi-threaded stress under ThreadSanitizer, AddressSanitizer and natively with version-stamped values and an online freshness/monotonicity monitor", "Exploration of schedules.")
prop("T02", "The real-time side of a setting never waits and commits take effect in order",
     "While other threads hold a setting, the real-time thread can read (or, for a real-time mutable one, modify and replace) it without waiting for them, and uncommitted modifications stay invisible to it. In any sequence of accesses, replacements and releases both sides afterwards see the value committed last.",
     ["schedules", "histories"], "holders that never release; all sequential histories", "a wait on a held lock only shows when the holder is stopped at the wrong moment",
     [BS], [dict(name="realTimeAcquire/realTimeRelease", where=BS), dict(name="replace", where=BS)],
     "fault injection (holders parked indefinitely) with a progress watchdog; sequential model checker", "Exploration; a wait shows up as a hang of the parked scenario.")
TR = "src/disruptor/include/Transactions.hpp"
prop("T03", "A setting's history and staged transactions are exactly what was committed",
     "After any sequence of commits, staged transactions, their commit or retirement by token, modifications and clean-ups, a transactional setting reports the value committed last, its predecessors by index and the value that was valid at any given time (or refuses when there is none), up to the configured history length; exactly the staged, not yet committed, retired or timed-out transactions are pending, and they stay invisible until committed. A commit or modification whose user function fails changes nothing and is not reported as done; entries and transactions expire after their time-out, and never while used within it.",
     ["histories"], "all sequences of operations, time stamps given by the caller in any order, history lengths above 8", "tests run two fixed sequences", [TR],
     [dict(name="ring of immutable nodes between tail and head", where=TR + ": SettingBase"), dict(name="list of staged transactions", where=TR + ": stage/commit/retireStaged/retireExpired")],
     ASAN + "model-based history checker", "Exploration; time-outs are observed in virtual time with one-sided bounds (reading counts as use).", state=[dict(name="_sequenceHead/_sequenceTail", meaning="newest/oldest retained entry", where=TR)])
prop("T04", "Concurrent commits to a transactional setting are each applied exactly once",
     "With any number of threads committing, modifying, staging and reading a transactional setting, every commit reported as done is applied exactly once to the value left by the previous one, readers see complete values at least as new as every commit reported before they asked and never an older one afterwards, a value does not change while it is held, and commits to different timing contexts do not undo each other. A staged transaction is lost to nobody but its own commit or retirement.",
     ["schedules"], "all schedules of committers, modifiers, stagers, readers and clean-ups", "tests use one thread", [TR],
     [dict(name="serialised read-modify-publish", where=TR + ": publish"), dict(name="history lock, transaction lock", where=TR)],
     "multi-threaded stress under ThreadSanitizer, AddressSanitizer and natively with an accumulating value (exactly-once, order and freshness monitors)", "Exploration of schedules.")
prop("T05", "A setting looked up for a timing context is the most specific one stored",
     "Looking up a fully specified timing context, or one that is stored itself, gives the value stored last for it, else for the context without group, process, sequence, or finally without any field, else a default value, together with the context it is stored for; the same for any retained earlier state. Retiring a context removes exactly the matching ones, settings without time-out never expire, and a result remains valid whatever happens to the setting afterwards.",
     ["histories", "inputs"], "all sequences of commits, transactions and retirements over contexts of any depth; look-ups of partly specified contexts that are not stored are excluded (documented as ambiguous), as are BPC time stamps", "tests look up a dozen contexts", [TR],
     [dict(name="fall-back chain", where=TR + ": CtxSetting::get"), dict(name="retire/retireExpired", where=TR + ": CtxSetting")],
     ASAN + "model-based history checker", "Exploration; refl-cpp and mp-units are replaced by minimal stand-ins (DESIGN.md).")
EX = "src/disruptor/include/disruptor/ThreadPerTaskScheduler.hpp"
prop("X01", "Scheduled tasks run exactly once, independently, and report their outcome",
     "Each task handed to a started thread-per-task scheduler (directly or through the executor) runs exactly once on its own thread, so tasks that wait do not delay others. Its future becomes ready only after it has run, makes its effects visible and carries the error of a directly scheduled task; a failing task disturbs no other task; stopping waits for the running tasks and leaves no future open.",
     ["schedules", "fault_sequences"], "all mixes of plain, waiting and throwing tasks", "not covered by the built tests",
     [EX, "src/disruptor/include/disruptor/BasicExecutor.hpp"], [dict(name="scheduleAndStart/start/stop", where=EX), dict(name="execute", where="src/disruptor/include/disruptor/BasicExecutor.hpp")],
     "multi-threaded stress under ThreadSanitizer and AddressSanitizer with an exactly-once/independence monitor", "Exploration of task mixes and schedules.")
AG = "src/disruptor/include/disruptor/AggregateEventHandler.hpp"
prop("X02", "An aggregate of event handlers behaves as its members called in order",
     "Every event, start and shutdown delivered to an aggregate handler is delivered to each member exactly once, in the order of registration, with the same event, sequence and end-of-batch flag; start and shutdown reach exactly the members that ask for them. An error in one member is passed on to the caller.",
     ["histories"], "all member lists and sequences of notifications", "not covered by the built tests",
     [AG], [dict(name="forwarding loops", where=AG)], ASAN + "trace comparison", "Exploration.")
MU = "3rd_party/kainjow/mustache.hpp"
prop("M01", "Templates render values escaped, sections faithfully, and refuse malformed text",
     "Rendering a mustache template replaces {{name}} by the HTML-escaped value and {{{name}}} / {{&name}} by the value itself, renders a section once per list item (or once for a true value or object) and an inverted section exactly when its value is missing, false or an empty list, looks names up from the innermost scope outwards, and copies all other text (apart from blank lines around tags). Rendering is repeatable. A template with an unclosed tag or unbalanced sections is reported as invalid and renders nothing; no template text makes the renderer crash.",
     ["inputs"], "all template texts and value trees", "the template engine has no test in the built set; tag kinds, nesting, scopes and custom delimiters combine",
     [MU], [dict(name="tag parser", where=MU + ": class parser"), dict(name="renderer", where=MU + ": render_component, render_section"), dict(name="html_escape", where=MU)],
     ASAN + "reference evaluator over generated template trees; malformed-template generator", "Exploration; iterating a list inside itself is excluded (the data interface has one cursor per list).")
FF = "src/serialiser/include/fast_float.h"
prop("N01", "Decimal text is converted to the nearest float or double, exactly bounded",
     "For every character range that starts with a decimal number, the number parser used by the text formats returns the correctly rounded value of the requested type (infinities and signed zero included) and the end of the number; ranges that do not start with a number are refused. It never reads outside the given range.",
     ["inputs"], "all character ranges, float and double", "the parser has several exact/approximate paths selected by digit count and exponent; no test in the built set",
     [FF], [dict(name="parse_number_string", where=FF), dict(name="fast path / Eisel-Lemire / big decimal", where=FF)],
     ASAN + "differential monitor against strtod/strtof and an independent grammar", "Exploration; all texts up to 4 characters over the number alphabet, every power of ten, half-way cases.")
FM = "src/core/include/Formatter.hpp"
prop("G01", "Formatting of ranges, optionals and pairs loses and adds nothing",
     "Formatting a range gives '[', the formatted elements in order separated by ', ', and ']', nested ranges included; joining gives the elements separated by the given separator only; an optional formats as its value or 'nullopt', a pair as '(first, second)'. Bounded outputs receive the same text.",
     ["inputs"], "all element sequences and separators", "not covered by the built tests", [FM], [dict(name="join", where=FM), dict(name="formatters", where=FM)],
     ASAN + "comparison with a reference formatter", "Exploration.")
TC = "src/core/include/TimingCtx.hpp"
prop("C01", "A timing selector always means what its current text says",
     "A timing context accepts exactly '', 'ALL' and 'FAIR.SELECTOR.' followed by ALL or colon-separated C=, S=, P=, T= entries with an int32 or ALL, in any letter case; everything else is refused, each time it is evaluated. Its identifiers, matching (an unspecified field of the pattern matches everything), equality, ordering, hash and printed form follow the current texts and time stamps of both operands, also after the selector was changed; the printed form reads back as an equal context.",
     ["inputs", "histories"], "all selector texts and sequences of selector changes and comparisons", "tests use a dozen well-formed selectors; evaluation is lazy and cached, so errors depend on the order of changes and accesses",
     [TC], [dict(name="lazy parse with cached hash", where=TC + ": parse"), dict(name="wildcardMatch", where=TC)],
     ASAN + "model-based history checker", "Exploration; refl-cpp and mp-units are replaced by minimal stand-ins (DESIGN.md).", state=[dict(name="_hash/_cid/_sid/_pid/_gid", meaning="cache of the evaluated selector", where=TC)])
TP = "src/core/include/Topic.hpp"
prop("C02", "A topic has one unambiguous text in every notation it is carried in",
     "A topic consists of a valid service path and query parameters; anything else is refused. Writing it as an MDP topic URI or as a ZeroMQ subscription text and reading it back gives an equal topic for all parameter values. Topics that are equal (whatever the order in which parameters were added) have equal texts and hashes, different topics have different texts, and no subscription text is a prefix of another one, so that ZeroMQ's prefix matching delivers exactly the subscribed topic.",
     ["inputs"], "all service names and parameter sets with arbitrary values", "tests use a few ASCII topics; separators and terminators inside values and prefix relations between topics are not covered",
     [TP], [dict(name="toZmqTopic/fromZmqTopic", where=TP), dict(name="toMdpTopic/fromMdpTopic", where=TP), dict(name="isValidServiceName", where=TP)],
     ASAN + "round-trip, injectivity and prefix monitors over all generated topics", "Exploration; service paths starting with '//' are excluded from the URI round trip (not expressible without authority).")
SM = "src/majordomo/include/majordomo/SubscriptionMatcher.hpp"
prop("C03", "A notification reaches exactly the subscriptions whose filters it satisfies",
     "A subscription receives a notification exactly if both name the same service and every parameter of the subscription for which a filter is registered is present in the notification and satisfies the filter: timing selectors match field by field, content types and flags are equal, numbers denote the same number of the filter's type. Malformed or out-of-range values satisfy nothing; parameters without filter are ignored.",
     ["inputs"], "all pairs of topics over the filtered and unfiltered parameters", "tests sample about thirty pairs",
     [SM, "src/core/include/Filters.hpp"], [dict(name="testQueries", where=SM), dict(name="NumberFilter/DomainFilter/TimingCtxFilter", where="src/core/include/Filters.hpp")],
     ASAN + "reference matcher", "Exploration.")
MI = "src/core/include/MIME.hpp"
prop("C04", "MIME types are found by name or file extension, in any letter case",
     "Looking up a text that contains a known MIME type name (in any letter case, with parameters or in a list) gives the first such type of the table, a file name gives the type of its extension, and everything else gives the unknown type; look-up at compile time and at run time agree and no text is read beyond its end.",
     ["inputs"], "all texts and file names", "tests look up each literal once",
     [MI], [dict(name="getType", where=MI), dict(name="getTypeByFileName", where=MI)], ASAN + "reference look-up", "Exploration; every type and extension in many letter-case variants.")
CO = "src/core/include/collection.hpp"
prop("C05", "A typed collection holds exactly what was put in and not removed",
     "After any sequence of insertions, removals (also by reference to a contained element), clearing, reserving and copying, visiting a collection yields per type exactly the remaining elements in insertion order, and its size, emptiness, equality and copies are consistent with that.",
     ["histories"], "all operation sequences", "tests run one fixed sequence", [CO], [dict(name="remove", where=CO), dict(name="visit", where=CO)], ASAN + "model-based history checker", "Exploration.")
OC = "src/core/include/opencmw.hpp"
prop("C06", "Annotated fields are plain values; name hashes and numbers are exact",
     "An annotated field holds exactly the value it was given and handing it a value never changes the source unless that was explicitly moved; copies are independent and comparison follows the values. The field-name hash is Java's String hash for every name, and the number parser accepts exactly the texts that are numbers of the requested type.",
     ["inputs"], "all values, names and number texts", "tests assign literals", [OC], [dict(name="Annotated", where=OC), dict(name="hash", where=OC), dict(name="parseNumber", where=OC)],
     ASAN + "reference model", "Exploration; runs with stand-ins for refl-cpp and mp-units (DESIGN.md).")

TPL = "src/core/include/ThreadPool.hpp"
prop("P01", "Every task given to a thread pool runs exactly once and delivers its result",
     "Every task submitted to a running pool, from any thread, with or without name and priority, is executed exactly once by a thread of the pool, without waiting for a time-out of a sleeping thread, and sees everything its submitter wrote before. The returned future gets the task's value or exception, the caller's own callable is not changed, the numbers of queued and running tasks return to zero and there are never fewer than the minimum number of threads.",
     ["inputs", "schedules"], "all task kinds, submitter counts, pool sizes and interleavings", "tests submit a few tasks from one thread; lost wake-ups, double execution and races need particular interleavings",
     [TPL], [dict(name="execute", where=TPL), dict(name="TaskQueue", where=TPL), dict(name="worker", where=TPL)],
     "ThreadSanitizer, AddressSanitizer + exactly-once ledger over stress runs with injected sleep delays", "Stress sampling of schedules; lost wake-ups are provoked by delaying the condition-variable wait.",
     state=[dict(name="_taskQueue/_numTaskedQueued", meaning="tasks not yet started", where=TPL), dict(name="_numTasksRunning", meaning="tasks in execution", where=TPL)])
prop("P02", "Shutting a thread pool down is prompt, repeatable and leaves nothing running",
     "When a pool is shut down (explicitly, more than once, or by its destructor) at any time, the call returns promptly after the tasks in execution have finished; no thread of the pool remains and no task starts afterwards. Each task submitted before ran completely or not at all, its future is completed accordingly (with its result, or with a broken promise if it did not run) and its captured state is released.",
     ["schedules", "histories"], "all shutdown points relative to submission, start, execution and sleeping of the threads", "tests shut down an idle pool",
     [TPL], [dict(name="requestShutdown", where=TPL), dict(name="~BasicThreadPool", where=TPL), dict(name="worker", where=TPL)],
     "ThreadSanitizer, AddressSanitizer + ledger of task states at shutdown", "Stress sampling of shutdown points.")
prop("P03", "A thread pool keeps to the priorities, sizes, names and CPUs it was given",
     "Queued tasks start in order of descending priority and first-come-first-served within one priority. A named task runs under its name and the thread gets its pool name back. An IO-bound pool runs as many blocked tasks in parallel as its maximum allows and shrinks back to its minimum when idle. An affinity mask applies to the pool's threads (all of it for IO-bound pools, spread over the threads for CPU-bound ones) and to no other thread, at any time in the life of the pool; tasks for a CPU outside the mask are refused.",
     ["inputs", "histories"], "all queues, masks, pool sizes and growth histories", "tests check one priority inversion and only that setting a mask does not throw",
     [TPL], [dict(name="TaskQueue::push", where=TPL), dict(name="updateThreadConstraints", where=TPL), dict(name="distributeThreadAffinityAcrossCores", where=TPL)],
     "monitors of execution order and of the kernel's view of names and affinities; ThreadSanitizer, AddressSanitizer", "Exploration; the maximum is a soft limit (one more thread may appear under contention).")

DI = "src/disruptor/include/disruptor/"
RBH, CLH, DIH, BEP, WPH = DI + "RingBuffer.hpp", DI + "ClaimStrategy.hpp", DI + "Disruptor.hpp", DI + "BatchEventProcessor.hpp", DI + "WorkerPool.hpp"
prop("D01", "Ring buffer: every consumer sees every published event once, in order",
     "For any number of producers (one with the single-producer strategy), consumers, ring sizes, wait strategies and interleavings: each consumer receives every event published after it joined exactly once, in sequence order and per producer in publication order, with the content the producer wrote before publishing; nothing is delivered before it is published, or before the consumers it depends on have finished with it, and no slot is overwritten while a gating consumer has not passed it, also when consumers come and go. Claiming reports lack of capacity exactly when the slowest gating consumer requires it; cursor, capacity and publication queries agree with that.",
     ["inputs", "schedules", "histories"], "all claim/publish/poll histories and interleavings", "tests push a few events through one thread; the guarantees concern interleavings of producers, consumers and gating changes",
     [RBH, CLH, DI + "Sequence.hpp", DI + "WaitStrategy.hpp", DI + "ProcessingSequenceBarrier.hpp"], [dict(name="MultiThreadedStrategy", where=CLH), dict(name="EventPoller::poll", where=RBH), dict(name="getMinimumSequence", where=DI + "Sequence.hpp")],
     "ThreadSanitizer, AddressSanitizer + online stream checkers per consumer (order, exactly-once, content, no overwrite) and a sequential reference model", "Stress sampling of schedules; histories sampled. A consumer is not added while a single producer has several claims outstanding.",
     state=[dict(name="_cursor", meaning="highest claimed (multi) or published (single) sequence", where=RBH), dict(name="_availableBuffer", meaning="publication flag per slot", where=CLH)])
prop("D02", "Disruptor: handlers run in dependency order and their life cycle is exact",
     "In any acyclic graph of event handlers each handler sees every event exactly once and in order, after all handlers it depends on; start and shutdown notifications arrive once each, around all events. Exceptions of handlers go to the exception handler with event and sequence, and processing goes on if that returns. start() works once and a refused second start changes nothing; shutdown() returns only after everything published has been processed by all handlers, halt() stops all of them promptly at any time, also before their threads came to run, and no handler runs afterwards.",
     ["inputs", "schedules", "histories"], "all graphs, exception patterns and start/halt/shutdown points", "tests build one chain and sleep",
     [DIH, BEP, DI + "EventHandlerGroup.hpp", DI + "ConsumerRepository.hpp"], [dict(name="DisruptorCore", where=DIH), dict(name="BatchEventProcessor::run", where=BEP)],
     "ThreadSanitizer, AddressSanitizer + online checkers of dependency order, exactly-once and life cycle", "Stress sampling; known finding: shutdown() called before the handler threads came to run.")
prop("D03", "Worker pools hand every event to exactly one worker",
     "Each event published to a worker pool is handled by exactly one of its workers, with the content its producer wrote and before its slot is reused; handlers behind the pool see it afterwards. An exception of a worker is reported and loses no other event. Draining returns only after all published events are handled, and halting stops all workers.",
     ["inputs", "schedules", "histories"], "all worker/producer counts, interleavings and halt points", "the worker pools have no tests (they did not compile)",
     [WPH, DI + "WorkProcessor.hpp"], [dict(name="WorkerPool", where=WPH), dict(name="WorkProcessor::run", where=DI + "WorkProcessor.hpp")],
     "ThreadSanitizer, AddressSanitizer + exactly-once ledger per event", "Stress sampling.")

SI = "src/serialiser/include/"
IOB, IOS, SY, SC, SJ, SYM, SQ, MA = SI + "IoBuffer.hpp", SI + "IoSerialiser.hpp", SI + "IoSerialiserYaS.hpp", SI + "IoSerialiserCmwLight.hpp", SI + "IoSerialiserJson.hpp", SI + "IoSerialiserYAML.hpp", SI + "QuerySerialiser.hpp", SI + "MultiArray.hpp"
prop("S01", "An I/O buffer holds exactly the bytes put in and never leaves its memory",
     "After any sequence of puts, gets, resizing, clearing, positioning, copying, moving and swapping, a buffer's bytes, size and position are those of a plain byte sequence; values and arrays read back are the ones written; reads that are not completely contained in the buffer throw. Memory goes back, with its size, to the allocator it came from, copies are independent and a moved-from buffer is empty.",
     ["inputs", "histories"], "all operation histories and allocators", "tests run fixed sequences", [IOB], [dict(name="put/get/getArray", where=IOB), dict(name="swap", where=IOB)],
     ASAN + "model-based history checker with recording allocators", "Exploration. Growing a buffer that wraps foreign memory is excluded (it terminates by design).")
prop("S02", "Binary formats (YaS, CmwLight) reproduce every object exactly",
     "For every object built from the supported field kinds (numbers, booleans, texts with any bytes, vectors, arrays, multi-dimensional arrays, sets, maps, annotated, optional and nested fields) serialising and reading back in any check mode gives an equal object, bit for bit, independent of what the target held before; reading consumes all data, reports no error, reports exactly the fields that were sent as set, and serialising is deterministic.",
     ["inputs"], "all values of all supported field kinds", "tests use one object with literals", [IOS, SY, SC], [dict(name="serialise/deserialise", where=IOS)],
     ASAN + "round-trip monitor with an independent rendering of the object", "Exploration; runs with stand-ins for refl-cpp and mp-units. Maps of more than 32767 entries (CmwLight field count is 16 bit) and map keys with NUL are excluded.")
prop("S03", "JSON output is valid JSON and reproduces every object; valid JSON is read",
     "The JSON written for every object with finite numbers is valid JSON (RFC 8259) and reading it back in any check mode gives an equal object. JSON from elsewhere is read whatever its white space, member order, escapes, number notation and additional members: known members get exactly the values denoted and additional ones are skipped and reported.",
     ["inputs"], "all objects and all valid JSON texts", "tests use a few literal texts", [SJ], [dict(name="IoSerialiser<Json, ...>", where=SJ), dict(name="FieldHeaderReader<Json>", where=SJ)],
     ASAN + "independent JSON parser and round-trip monitor", "Exploration. Excluded: non-ASCII \\u escapes (documented to-do) and map keys that need escaping.")
prop("S04", "YAML reproduces every object with plain texts",
     "For objects of numbers, booleans, plain texts, non-empty vectors, arrays, sets, maps and nested objects, writing YAML and reading it back with strict or lenient checks gives an equal object without complaint, whether a value fits on its line or is written over several lines and whatever follows a nested object.",
     ["inputs"], "all such objects", "tests use one object", [SYM], [dict(name="fieldParser/fieldFormatter", where=SYM), dict(name="FieldHeaderReader<YAML>", where=SYM)],
     ASAN + "round-trip monitor", "Exploration; texts with quotes, '#', line breaks or over-long texts are not supported by the format implementation and excluded.")
prop("S05", "No received data makes a deserialiser crash, hang or read out of bounds",
     "For any byte sequence handed to the YaS, CmwLight, JSON or YAML deserialiser in any check mode, the call returns or throws an exception within bounded time; it never accesses memory outside the data, recurses without bound or terminates the process, what it stored is usable, and the outcome depends on the data alone.",
     ["inputs", "faults"], "all byte sequences", "tests feed valid data and a few handpicked errors", [IOS, SY, SC, SJ, SYM, IOB], [dict(name="FieldHeaderReader", where=IOS), dict(name="extractStringView/getArray", where=IOB)],
     ASAN + "fault injection into valid documents held in exactly sized memory, time limit, consistency and determinism monitors", "Exploration by mutation; every truncation and a byte sweep of one document per format.")
prop("S06", "Old and new layouts of an object interoperate; unknown fields do no harm",
     "When data of one layout is read into another (fields missing, added, reordered), all fields known to both get their value, fields without data keep theirs, and unknown fields of any kind are skipped; fields whose type or unit differs stay untouched. With lenient checks exactly the unknown fields and mismatches are reported and exactly the set fields are flagged; strict checks throw instead. Reading a partial object into a full one updates exactly the fields contained.",
     ["inputs", "histories"], "all pairs of layouts and contents", "tests use one pair per format", [IOS, SY, SC, SJ], [dict(name="deserialise", where=IOS), dict(name="skipField", where=IOS)],
     ASAN + "field-by-field reference over six layouts", "Exploration; known finding: a set unknown to the receiver cannot be skipped in CmwLight data.")
prop("S07", "Query parameters reproduce their object; damaged ones affect only themselves",
     "Converting an object to query parameters and back gives an equal object (integers, texts with any bytes, flags, timing selectors, MIME types, numbers within six decimals). A missing, unknown or malformed parameter leaves only its own field at the default.",
     ["inputs"], "all parameter sets", "tests convert two objects", [SQ], [dict(name="serialise/deserialise", where=SQ)], ASAN + "round-trip monitor", "Exploration; flags whose default is true are not representable and excluded.")
prop("S08", "Multi-dimensional arrays address every element exactly once",
     "For any dimensions, every index tuple within them addresses its own element, row-major and consistent with strides, offsets, element count and the raw element vector; assignments through one kind of access are seen by all others, and copies are independent.",
     ["inputs"], "all shapes and indices", "tests use fixed shapes", [MA], [dict(name="operator()/get", where=MA)], ASAN + "reference index arithmetic", "Exploration; all index tuples of the generated shapes.")

BR = "src/majordomo/include/majordomo/Broker.hpp"
ZU = "src/zmq/include/zmq/ZmqUtils.hpp"
prop("Q02", "Broker: every request is served once, by its service, and every reply gets home",
     "Each GET or SET of a client (over the message protocol or REST) reaches exactly one worker of the most specific registered service matching its name, unaltered, once, and is never held back while a worker of that service is idle; waiting requests are served by role priority and first-come-first-served within a role. A worker works on one request at a time; each of its partial and final replies reaches the client that asked, unaltered and once. Requests for unknown or built-in services are answered by the broker. Idle workers get heartbeats; silent ones are dropped after the liveness time and told to disconnect when they speak again; at shutdown every worker is told to disconnect.",
     ["inputs", "histories"], "all histories of clients, workers, arrivals, replies, silence and time", "tests run a few scripted conversations",
     [BR, ZU], [dict(name="dispatch/processClients", where=BR), dict(name="processWorker/workerWaiting/purgeWorkers", where=BR), dict(name="bestMatchingService", where=BR)],
     ASAN + "online checker of a request/reply ledger around the real broker in virtual time", "Exploration; the broker runs over a stand-in for libzmq (all upstream broker tests pass on it) and a stand-in for the HTTP server.",
     state=[dict(name="_clients", meaning="clients with requests not yet assigned", where=BR), dict(name="_workers/Service::waiting", meaning="known and idle workers", where=BR), dict(name="requestsByPriority", meaning="requests waiting for a worker", where=BR)])
prop("Q03", "Broker: subscribers get exactly the notifications they subscribed to",
     "Every notification of a worker reaches each current subscriber with a matching subscription (same service, satisfied filters; over SUB sockets, the message protocol or a REST client) exactly once per subscription topic, unaltered and in the order its worker sent them, and nobody else. Subscribing twice, unsubscribing without a subscription, or other clients subscribing to and unsubscribing from the same topic change nothing for anyone else; workers are told about a topic exactly while somebody is subscribed to it.",
     ["inputs", "histories"], "all histories of subscriptions, unsubscriptions and notifications", "tests run a few scripted subscriptions",
     [BR, "src/majordomo/include/majordomo/SubscriptionMatcher.hpp"], [dict(name="dispatchMessageToMatchingSubscribers/processSubscribe/subscribe/unsubscribe", where=BR)],
     ASAN + "online checker of a subscription ledger around the real broker in virtual time", "Exploration; runs over the stand-in for libzmq. Order is checked per worker.",
     state=[dict(name="_subscribedTopics/_subscribedClientsByTopic", meaning="who is subscribed to what", where=BR)])
prop("Q04", "No message of a peer can end the broker or disturb other conversations",
     "Whatever a peer sends to the broker (any number of frames with any content, messages of unknown protocols, commands out of place, malformed topics, service names and queries, replies nobody asked for), the broker neither crashes, throws out of its loop, hangs nor accesses memory out of bounds, and all guarantees to well-behaved clients and workers about requests and replies continue to hold.",
     ["inputs", "histories", "faults"], "all messages at any point of any history", "tests send a few malformed messages",
     [BR, ZU], [dict(name="receive", where=ZU), dict(name="receiveMessage/processWorker", where=BR)],
     ASAN + "fault injection: hostile peers within the ledger-checked histories", "Exploration. A peer that properly registers as worker of an existing service, or forges a reply in the name of a busy worker, is not distinguishable and excluded.")
prop("Q01", "MDP messages cross sockets unaltered; malformed ones are dropped whole",
     "Every message, with or without source id and whatever bytes its fields contain (empty, NUL, large), is received with exactly the content sent and in exactly the frames the protocol prescribes. Multi-part messages of other shapes (too few or too many frames, over-long commands, invalid topics) are dropped completely, so that the next message is received intact. Frames own, move and release their memory exactly once, also if nothing could be received or sent.",
     ["inputs", "histories", "faults"], "all messages and multi-part sequences", "tests send a few messages",
     [ZU, "src/core/include/MdpMessage.hpp"], [dict(name="send/receive/MessageFrame", where=ZU)],
     ASAN + "byte-exact raw peers and a live-memory counter in the stand-in for libzmq", "Exploration; over the stand-in for libzmq.")
WK = "src/majordomo/include/majordomo/Worker.hpp"
RB = "src/majordomo/include/majordomo/Rbac.hpp"
prop("W01", "A worker answers each request once and runs its handler only with permission",
     "For each GET or SET a worker sends exactly one reply, in order, to the client that asked (same client id, request id and access token). The handler is invoked exactly once per request, with exactly the request, one at a time, and only if the role in the client's token has the permission (read for GET, write for SET); roles not listed have the rights of the last one listed, tokens of any other form count as no role. Requests without permission and handlers that throw anything yield an error reply without data. The worker announces itself with its name and description and says goodbye when it ends, either on its own or when the broker shuts down.",
     ["inputs", "histories", "faults"], "all requests, tokens and handler outcomes", "tests use a few roles and one failing handler",
     [WK, RB], [dict(name="processRequest/handleDealerMessage", where=WK), dict(name="parse_rbac", where=RB)],
     "AddressSanitizer, UBSan, ThreadSanitizer + request/reply ledger with an independent permission table", "Exploration; over the stand-in for libzmq.")
prop("W02", "Notifications of a worker are forwarded once, in order, while subscribed to",
     "A notification by any thread is forwarded to the broker exactly once and unaltered if an active subscription of the worker's service matches it, not at all otherwise, and in the order of that thread; notifications with invalid topics have no effect. activeSubscriptions() is what the broker has subscribed to, also after reconnecting. The worker sends heartbeats, and reconnects when told to or when the broker falls silent. All this holds for threads notifying concurrently, while subscriptions change and while sockets of idle threads are cleaned up.",
     ["inputs", "schedules", "histories"], "all interleavings of notifying threads, subscription changes, reconnects and clean-up", "tests notify from one thread",
     [WK], [dict(name="notify/cleanupNotificationHandlers", where=WK), dict(name="receiveNotificationMessage/receiveSubscriptionMessage/connectToBroker", where=WK)],
     "ThreadSanitizer, AddressSanitizer + exactly-once and order ledger per notifying thread, time jumps", "Stress sampling of schedules; over the stand-in for libzmq.",
     state=[dict(name="_activeSubscriptions", meaning="topics somebody is subscribed to", where=WK), dict(name="_notificationHandlers", meaning="one socket per notifying thread", where=WK)])
prop("W03", "Typed workers hand over exactly the decoded request and encode exactly the reply",
     "The callback of a typed worker gets the context denoted by the query and the input denoted by the data in the requested format (binary by default, CmwLight, JSON), and the reply carries its output in the format and with the query of the reply context. Requests that cannot be decoded, in formats not supported, or without permission yield an error reply and the callback is not invoked. Typed notifications carry context and data likewise and go to the matching subscriptions only.",
     ["inputs"], "all contexts, inputs, formats and damaged requests", "tests use two requests",
     [WK], [dict(name="HandlerImpl/writeResultFull/deserialiseRequest/Worker::notify", where=WK)],
     ASAN + "reference computation of context, input and output per request", "Exploration; over stand-ins for libzmq and refl-cpp.")
MU = SI + "MustacheSerialiser.hpp"
prop("S09", "HTML pages show the service's own template with exactly the object's values",
     "Rendering objects for a service uses the template of that service if there is one and the default template otherwise, whatever other services (also of the same types) were rendered before. Values, lists, sets, nested objects and arrays appear exactly as they are, escaped where the template asks for it, and the default page shows name, unit, description and value of every field. All this holds for any number of threads at a time.",
     ["inputs", "schedules", "histories"], "all templates, objects and orders of services", "tests render four objects once each", [MU], [dict(name="serialise/mustache_data", where=MU)],
     "AddressSanitizer, UBSan, ThreadSanitizer + reference renderer of generated templates", "Exploration; over stand-ins for refl-cpp and CMakeRC.")
CL, CC = "src/client/include/Client.hpp", "src/client/include/ClientContext.hpp"
KSTATE = [dict(name="_requests", meaning="requests whose reply is awaited", where=CL), dict(name="_subscriptions", meaning="callback per server and topic", where=CL), dict(name="_commandRingBuffer", meaning="queue between user threads and dispatcher", where=CC)]
prop("K01", "Every client request is made once and its callback gets its own reply, once",
     "A get or set issued from any thread arrives at the addressed server exactly once, with the command, service, topic and data it was made with; the reply of the server to this request, with all its parts, is handed to this request's callback exactly once, whatever the order of the replies. A request that does not fit the queue is reported to its callback as an error instead; nothing is lost silently. This holds up to and including the stop of the client.",
     ["schedules", "histories"], "all interleavings of requesting threads, dispatcher, poller and replies", "tests make requests one by one from one thread",
     [CL, CC], [dict(name="queueCommand/poll", where=CC), dict(name="request/handleRequests/poll", where=CL)],
     "ThreadSanitizer, AddressSanitizer + request ledger matched with frame-level servers", "Stress sampling of schedules; over the stand-in for libzmq; unanswered requests have no time-out upstream and are not generated.", state=KSTATE)
prop("K02", "A client subscription delivers exactly the updates of its server and topic",
     "From the time a subscription is known to a publisher until unsubscribe(), each update that publisher publishes for this topic is handed to the subscription's callback exactly once, in order and unaltered; updates of other topics or the same topic at other servers, and messages that are not updates, never are. After unsubscribe() the callback is not called for later updates, and subscribing again works. Updates never are taken for replies to requests and vice versa.",
     ["schedules", "histories"], "all histories of subscriptions, updates and requests", "tests subscribe once and never unsubscribe",
     [CL, CC], [dict(name="SubscriptionClient", where=CL), dict(name="request/poll", where=CL)],
     "ThreadSanitizer, AddressSanitizer + exactly-once ledger per subscription", "Stress sampling; over the stand-in for libzmq; one subscription per topic at a time.", state=KSTATE)
prop("K03", "Impossible requests and misbehaving servers do not harm a client",
     "A request for an address without a server, with an unsupported scheme, or that the protocol cannot carry is refused with an exception in the caller's thread or reported to its callback with an error, exactly once. Malformed messages, unknown commands, partial replies, second replies and replies to nobody from a server are ignored. In all cases the process goes on and all other requests are answered as if nothing had happened.",
     ["inputs", "histories"], "all addresses and all messages of servers", "tests use correct addresses and servers",
     [CL, CC], [dict(name="handleRequest/request", where=CL), dict(name="Client::receive/handleMessage", where=CL), dict(name="queueCommand/getClientCtx", where=CC)],
     "AddressSanitizer, UBSan, ThreadSanitizer + the request ledger of K01", "Exploration; over the stand-in for libzmq.", state=KSTATE)
DT, DS, DH, DC = ("src/services/include/services/" + n for n in ("dns_types.hpp", "dns_storage.hpp", "dns.hpp", "dns_client.hpp"))
prop("V01", "The signal registry answers with exactly the live entries that match",
     "After any history of registrations, renewals, deletions, expiries and restarts, a query returns exactly the entries that were registered, not deleted and not expired since and that agree with every field the query specifies, each once and unaltered (a renewed entry is not duplicated, a rate that is not specified included); a deletion removes exactly those. Entries survive a restart, expired ones do not. Lists whose fields differ in length are refused without effect, and damaged files do not corrupt memory.",
     ["inputs", "histories", "crash points"], "all histories of requests, expiry and restarts; all filters", "tests register a handful of signals and query by one or two fields",
     [DT, DS, DH], [dict(name="DataStorage", where=DS), dict(name="QueryEntry::operator==/FlatEntryList", where=DT), dict(name="DnsHandler", where=DH)],
     "AddressSanitizer, UBSan + reference registry compared after each step", "Exploration; over stand-ins for refl-cpp and libzmq; the HTTP path is not built.", state=[dict(name="_entries", meaning="registered entries with their expiry", where=DS)])
prop("V02", "Blocking calls of the DNS client return their own result, or nothing in time",
     "Any number of threads may register, query and delete signals through one client: each call returns exactly the result of its own request as soon as the reply is there, whatever the timing of reply and waiting. If no reply comes, it returns an empty list after its time-out, and a reply that comes later harms nobody. A reply with an error or that is no list of entries gives an empty list and does not end the process.",
     ["schedules", "inputs"], "all interleavings of callers and replies; all reply contents", "tests make one call at a time to a good server",
     [DC], [dict(name="_doSync", where=DC), dict(name="querySignalsAsync/registerSignalsAsync/unregisterSignalsAsync", where=DC)],
     "AddressSanitizer, ThreadSanitizer + reference registry per thread, delays injected before waiting", "Stress sampling of schedules; the server is a stand-in around the real registry.")
RE = "src/majordomo/include/majordomo/Rest.hpp"
prop("R01", "The file handler serves exactly the files below its root",
     "For each request path below the prefix that names a regular file under the root, the handler answers 200 with exactly the file's bytes (streamed in chunks of any size or mapped, above and below the threshold, also when several replies are sent interleaved), the right content-length and content-type and all extra headers. For anything else (missing files, directories, overlong names) the answer is an error, never an exception, and no request path, whatever '..', '.' and slashes it contains, yields a file outside the root. Embedded files are served likewise.",
     ["inputs", "histories"], "all request paths and file sizes", "tests fetch two files that exist",
     [RE], [dict(name="fileSystemHandler", where=RE), dict(name="detail::MappedFile", where=RE), dict(name="cmrcHandler", where=RE)],
     "AddressSanitizer, UBSan + byte-exact comparison with a generated site, sentinel files outside the root", "Exploration; the handler is driven directly, the HTTP server is R02's subject; files that change while mapped, symbolic links and percent-encoding are excluded.")
RS = "src/majordomo/include/majordomo/RestServer.hpp"
RU = "src/rest/include/rest/RestUtils.hpp"
prop("R02", "HTTP requests reach their service once and get their own complete reply",
     "Over any number of HTTP/2 connections with any interleaving of requests, uploads in pieces, cancellations and disconnects: each complete request becomes exactly one message (GET: Get, PUT/POST: Set) with the service, parameters, content type and payload sent and an id of its own, an incomplete one none; each reply reaches the stream of its request and no other, whole and unaltered, once (error: 500 with the error text); requests for a registered path are answered by the longest matching handler, OPTIONS with 204, other methods with an error. Slow readers, partial reads and writes neither lose nor reorder bytes nor cost the connection; replies for clients that are gone hurt nobody; cancelled requests and closed connections leave nothing behind.",
     ["inputs", "schedules", "histories"], "all interleavings of streams, chunk boundaries, cancellations", "tests run single requests from one well-behaved client",
     [RS, RU], [dict(name="SessionBase::getMessages", where=RS), dict(name="Http2Session", where=RS), dict(name="RestServer::processReadWrite", where=RS), dict(name="WriteBuffer", where=RU)],
     "AddressSanitizer, UBSan + per-request life-cycle monitor over real sockets, fault injection in send/recv, allocation monitor for cancelled requests", "Exploration. HTTP/2 framing is a stand-in for nghttp2 (shim/http); HTTP/3 and TLS are not run. Handlers that throw and requests whose URI does not parse are excluded.")
prop("R03", "A long-polling client sees each update of its topic once and in order",
     "The first poll of a topic subscribes to it, exactly once, whatever its index; further polls do not. Updates of a topic are numbered consecutively from the first after the subscription. A poll for an index within the last 100 updates is answered with that update, one for a future index when that update comes and not before, with exactly its data and the index in x-opencmw-long-polling-idx; 'Next' and indices too old are redirected to the next index, 'Last' to the newest one, always of the same topic; malformed indices are refused. A client that follows the indices thus sees each update once, in order, independent of other topics and clients; a poll that is cancelled gets nothing.",
     ["inputs", "schedules", "histories"], "all histories of polls and updates", "tests follow one topic for a few updates",
     [RS], [dict(name="SessionBase::processLongPollRequest", where=RS), dict(name="SessionBase::handleNotification", where=RS), dict(name="SubscriptionCacheEntry", where=RS)],
     "AddressSanitizer, UBSan + reference model of the update cache, online", "Exploration. As R02; indices followed by other characters are excluded.")
