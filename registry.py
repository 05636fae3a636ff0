"""Which harness binaries decide which property (see DESIGN.md)."""
import pathlib
VERIF = pathlib.Path(__file__).resolve().parent
PROPERTIES = {}

def P(pid, rule, units, **kw):
    PROPERTIES[pid] = dict(rule=rule, units=units, **kw)

for _m, _rule in {
    "U01": "URI texts composed from generated parts (strict and relaxed); non-trivial = distinct text longer than 2 characters",
    "U02": "byte strings and query parameter sets; non-trivial = distinct string >1 byte or parameter set >1 entry",
    "U03": "random construct/copy/move/assign/swap/destroy histories over 4 slots; non-trivial = distinct operation sequence (6-24 operations)",
    "U04": "all texts of length<=4 over the delimiter alphabet, every byte in every position class, random/mutated texts; non-trivial = distinct accepted text >1 character",
    "U05": "factory call sequences over generated parts; non-trivial = distinct resulting text",
}.items():
    P(_m, _rule, [dict(name="uri", src=["uri.cpp"], san="asan", shards=4, mode=_m.lower(), thorough_scale=20)])

P("B01", "all 0-2 byte inputs, a grid of 3 byte inputs, every byte at every position of short texts, random data; non-trivial = distinct input >1 byte / text >3 characters",
  [dict(name="base64", src=["base64.cpp"], san="asan", shards=4, thorough_scale=20)])
P("L01", "stress rounds with 2-8 threads mixing lock/tryLock/guards, random writer share and injected delays; non-trivial = distinct (threads, mix, concurrency reached, round)",
  [dict(name="rw_tsan", src=["locks.cpp"], san="tsan", shards=3, mode="l01", env=dict(VP_LIGHT="1"), thorough_scale=20, parallel=4),
   dict(name="rw_native", src=["locks.cpp"], san="none", shards=2, mode="l01", thorough_scale=20, parallel=4)])
P("L02", "random sequential lock/unlock/attempt histories of 40 steps against a model, plus cross-thread attempts; non-trivial = distinct operation sequence",
  [dict(name="rw_model", src=["locks.cpp"], san="asan", shards=4, mode="l02", thorough_scale=20)])
P("L03", "stress rounds with 2-8 threads on each mutex flavour; non-trivial = distinct round",
  [dict(name="mtx_tsan", src=["locks.cpp"], san="tsan", shards=3, mode="l03", env=dict(VP_LIGHT="1"), thorough_scale=20, parallel=4),
   dict(name="mtx_native", src=["locks.cpp"], san="none", shards=2, mode="l03", thorough_scale=20, parallel=4)])
P("L04", "spin counters over several threshold configurations, timed waits; non-trivial = distinct configuration or timeout",
  [dict(name="spin_model", src=["locks.cpp"], san="none", flags=["-DVP_INTERPOSE"], shards=1, mode="l04", thorough_scale=20),
   dict(name="spin_time", src=["locks.cpp"], san="asan", shards=4, mode="l04t", thorough_scale=10)])
P("A01", "thread and process names of 1-40 characters given as exact views; non-trivial = distinct (name, addressed thread)",
  [dict(name="names", src=["affinity.cpp"], san="asan", shards=4, mode="a01", thorough_scale=10)])
P("A02", "CPU masks of any length and policy/priority pairs in and out of range; non-trivial = distinct mask or policy/priority pair",
  [dict(name="place", src=["affinity.cpp"], san="asan", shards=4, mode="a02", thorough_scale=10)])
P("T01", "stress rounds, one real-time thread against 1-4 others; non-trivial = distinct round that observed different versions",
  [dict(name="set_tsan", src=["basicsetting.cpp"], san="tsan", shards=3, mode="t01", env=dict(VP_LIGHT="1"), thorough_scale=20, parallel=4),
   dict(name="set_asan", src=["basicsetting.cpp"], san="asan", shards=2, mode="t01", env=dict(VP_LIGHT="1"), thorough_scale=20, parallel=4),
   dict(name="set_native", src=["basicsetting.cpp"], san="none", shards=2, mode="t01", thorough_scale=20, parallel=4)])
P("T02", "the other side is held while the real-time thread works; sequential histories; non-trivial = distinct operation history",
  [dict(name="rt_wait", src=["basicsetting.cpp"], san="asan", shards=4, mode="t02", thorough_scale=20)])
P("T03", "60-160 step histories of commit/stage/commit by token/retire/modify/failing modify/look-ups by index and time, user-supplied commit functions, virtual-time expiry; non-trivial = distinct history",
  [dict(name="hist", src=["settings.cpp"], san="asan", shards=4, mode="t03", thorough_scale=20)])
P("T04", "1-2 committers, 0-2 modifiers, 0-2 stagers, 1-2 readers; 2-4 writers of different timing contexts with clean-up; non-trivial = distinct round", [
    dict(name="hist_" + s, src=["settings.cpp"], san=s, shards=n, mode="t04", thorough_scale=20, parallel=4, **({"env": dict(VP_LIGHT="1")} if s == "tsan" else {})) for s, n in (("tsan", 3), ("asan", 2), ("none", 2))])
P("T05", "50-step histories over contexts of depth 0-4, six look-ups per step; non-trivial = distinct history",
  [dict(name="ctxhist", src=["settings.cpp"], san="asan", shards=4, mode="t05", thorough_scale=20)])
P("X01", "batches of 1-24 plain/throwing/blocking tasks; non-trivial = distinct batch plan",
  [dict(name="exec_tsan", src=["executor.cpp"], san="tsan", shards=2, mode="x01", env=dict(VP_LIGHT="1"), thorough_scale=20, parallel=4),
   dict(name="exec_asan", src=["executor.cpp"], san="asan", shards=2, mode="x01", thorough_scale=20, parallel=4)])
P("X02", "0-8 handlers (plain, life-cycle aware, throwing, repeated) and random event/start/shutdown sequences; non-trivial = distinct sequence",
  [dict(name="aggr", src=["executor.cpp"], san="asan", shards=2, mode="x02", thorough_scale=20)])
P("M01", "value texts in every tag kind, generated template trees, arbitrary token sequences; non-trivial = distinct template with more than one node, token sequence or value",
  [dict(name="mustache", src=["text.cpp"], san="asan", shards=4, mode="m01", thorough_scale=20)])
P("N01", "number texts of nine kinds incl. half-way cases and all short texts over the number alphabet; non-trivial = distinct text",
  [dict(name="number", src=["text.cpp"], san="asan", shards=4, mode="n01", thorough_scale=20)])
P("G01", "random element sequences of several types; non-trivial = distinct formatted text",
  [dict(name="format", src=["text.cpp"], san="asan", shards=4, mode="g01", thorough_scale=20)])
for _m, _rule in {
    "C01": "valid/invalid selectors and histories of selector changes over three contexts; non-trivial = distinct selector",
    "C02": "service names and parameter sets with arbitrary values; non-trivial = distinct subscription text",
    "C03": "pairs of topics over five filtered and two unfiltered parameters; non-trivial = distinct pair with parameters",
    "C04": "all types and extensions in letter-case variants, random compositions; non-trivial = distinct text longer than one character",
    "C05": "25-step operation sequences; non-trivial = distinct sequence",
    "C06": "values handed over in every way, names, number texts; non-trivial = distinct value",
}.items():
    P(_m, _rule, [dict(name="core", src=["core.cpp"], san="asan", shards=4, mode=_m.lower(), thorough_scale=20)])

def _tp(mode):
    return [dict(name="tp_tsan", src=["threadpool.cpp"], san="tsan", shards=3, mode=mode, env=dict(VP_LIGHT="1"), thorough_scale=20, parallel=4),
            dict(name="tp_asan", src=["threadpool.cpp"], san="asan", shards=2, mode=mode, thorough_scale=20, parallel=4),
            dict(name="tp_native", src=["threadpool.cpp"], san="none", flags=["-DVP_INTERPOSE"], shards=2, mode=mode, thorough_scale=20, parallel=4)]
P("P01", "1-4 submitters, pools of 1-8 threads, plain/named/prioritised/throwing/value tasks, pings to a pool about to sleep; non-trivial = distinct (configuration, parallelism reached, round)", _tp("p01"))
P("P02", "pools shut down or destroyed at random points with 0-11 tasks queued or running; non-trivial = distinct (configuration, tasks run)", _tp("p02"))
P("P03", "queues of 2-13 tasks over five priorities, growing/shrinking pools, random CPU masks; non-trivial = distinct queue or configuration", _tp("p03"))

def _stress(name, src, mode, shards=(3, 2, 2), flags=()):
    return [dict(name=f"{name}_{s}", src=[src], san=s, shards=n, mode=mode, flags=list(flags), thorough_scale=20, parallel=4, **({"env": dict(VP_LIGHT="1")} if s == "tsan" else {}))
            for s, n in zip(("tsan", "asan", "none"), shards)]
P("D01", "1-4 producers, 1-4 consumers (pollers, barriers, chained), guests coming and going, rings of 2-64 slots, 6 wait strategies; 80-step sequential histories; non-trivial = distinct history or stress configuration", _stress("ring", "disruptor.cpp", "d01", flags=["-DVP_PART=1"]))
P("D02", "random acyclic handler graphs of 1-6 handlers, throwing handlers, delayed threads, start/halt/shutdown at random points; non-trivial = distinct graph and configuration", _stress("graph", "disruptor.cpp", "d02", flags=["-DVP_PART=2"]))
P("D03", "1-4 workers, 1-3 producers, throwing workers, drains and halts; non-trivial = distinct configuration", _stress("pool", "disruptor.cpp", "d03", flags=["-DVP_PART=3"]))

_SF = ["-fno-sanitize=alignment,nonnull-attribute"]  # IoBuffer::at<T>() is unaligned by design, memmove(null, ..., 0) is harmless (DESIGN.md)
P("S01", "put/get/array/string/resize/copy/move/swap histories over 4 buffers with recording allocators; non-trivial = distinct history",
  [dict(name="iobuf", src=["iobuffer.cpp"], san="asan", flags=_SF, shards=4, mode="s01", thorough_scale=20)])
for _m, _part, _rule in (
    ("S02", 2, "objects of 26 fields of all supported kinds with arbitrary content, read in three check modes into used objects; non-trivial = distinct data"),
    ("S03", 3, "objects of 26 fields and foreign texts with white space, escapes, long numbers and unknown members; non-trivial = distinct text"),
    ("S04", 4, "objects of 13 fields, long and short collections; non-trivial = distinct text"),
    ("S05", 5, "truncated, bit-flipped, spliced, length-corrupted and token-injected data of four formats, every truncation of one document per format, endless nesting; non-trivial = distinct data"),
    ("S06", 6, "data of one layout read as five others (fewer, more, reordered fields, other types, other units) and partial updates; non-trivial = distinct data"),
    ("S07", 7, "parameter sets of nine fields, damaged and missing parameters; non-trivial = distinct set"),
):
    P(_m, _rule, [dict(name="ser", src=["serial.cpp"], san="asan", flags=_SF + [f"-DVP_PART={_part}"], shards=4, mode=_m.lower(), thorough_scale=20)])
P("S08", "arrays of 1-3 dimensions, every index; non-trivial = distinct shape or history",
  [dict(name="marray", src=["iobuffer.cpp"], san="asan", flags=_SF, shards=4, mode="s08", thorough_scale=20)])

_Z = _SF + ["-include", str(VERIF / "shim/majordomo_stub/reststub.hpp")]  # stands in for the HTTP server; shim/zmq.h stands in for libzmq (DESIGN.md)
for _m, _rule in {
    "Q02": "20-120 step histories of 1-5 clients, REST clients and workers of six services joining, answering, falling silent and leaving, in virtual time; non-trivial = distinct history",
    "Q03": "20-120 step histories of subscriptions (SUB sockets, DEALER clients), notifications of several workers and their end; non-trivial = distinct history",
    "Q04": "the same histories with hostile peers sending malformed, forged and out-of-protocol messages in between; non-trivial = distinct history",
}.items():
    P(_m, _rule, [dict(name="broker", src=["broker.cpp"], san="asan", flags=_Z, shards=4, mode=_m.lower(), thorough_scale=20)])
P("Q01", "messages in both formats against raw peers, hostile multi-part messages, frame life cycles; non-trivial = distinct message",
  [dict(name="zframe", src=["zframe.cpp"], san="asan", flags=_SF, shards=4, mode="q01", thorough_scale=20)])
P("W01", "five worker types with different role lists, bursts of 1-6 requests with tokens of any form, handlers that answer, fail in four ways or notify; non-trivial = distinct request history",
  [dict(name="worker", src=["worker.cpp"], san="asan", flags=_Z, shards=4, mode="w01", thorough_scale=20), dict(name="worker_tsan", src=["worker.cpp"], san="tsan", flags=_Z, shards=2, mode="w01", env=dict(VP_LIGHT="1"), thorough_scale=20)])
P("W02", "1-4 notifying threads, fixed and changing subscriptions, reconnects on request and after silence, time jumps that expire idle notification sockets; non-trivial = distinct phase plan",
  [dict(name="notify", src=["worker.cpp"], san="asan", flags=_Z, shards=4, mode="w02", thorough_scale=20), dict(name="notify_tsan", src=["worker.cpp"], san="tsan", flags=_Z, shards=3, mode="w02", env=dict(VP_LIGHT="1"), thorough_scale=20)])
P("W03", "requests and notifications of a typed worker in three formats, with damaged data, unsupported types and unknown parameters; non-trivial = distinct request",
  [dict(name="typed", src=["worker.cpp"], san="asan", flags=_Z, shards=4, mode="w03", thorough_scale=20)])
P("S09", "pages of generated templates for many services sharing their types, rendered from four threads; non-trivial = distinct page",
  [dict(name="html", src=["html.cpp"], san="asan", flags=_SF, shards=4, mode="s09", thorough_scale=10), dict(name="html_tsan", src=["html.cpp"], san="tsan", shards=2, mode="s09", env=dict(VP_LIGHT="1"), thorough_scale=10)])
_K = [dict(name="client", src=["client.cpp"], san="asan", flags=_SF, shards=4, thorough_scale=20), dict(name="client_tsan", src=["client.cpp"], san="tsan", shards=3, env=dict(VP_LIGHT="1"), thorough_scale=20)]
for _m, _rule in {
    "K01": "1-4 threads making requests, one by one and in bursts, to two servers that answer late and out of order; non-trivial = distinct set of requests",
    "K02": "histories of subscriptions at two publishers, notifications, unrelated messages and requests in between; non-trivial = distinct history",
    "K03": "requests that cannot be made, mixed with good ones, and servers that answer twice, to nobody or garbage; non-trivial = distinct impossible request or set of requests",
}.items():
    P(_m, _rule, [dict(u, mode=_m.lower()) for u in _K])
P("V01", "histories of registrations, renewals, queries, deletions, expiry, restarts and malformed lists, damaged files at the end; non-trivial = distinct history",
  [dict(name="dns", src=["dns.cpp"], san="asan", flags=_Z, shards=4, mode="v01", thorough_scale=20)])
P("V02", "2-8 threads registering, querying and deleting their own signals through one client, replies that are late, missing, errors or garbage; non-trivial = distinct round",
  [dict(name="dnsclient", src=["dns.cpp"], san="asan", flags=_Z, shards=4, mode="v02", thorough_scale=20), dict(name="dnsclient_tsan", src=["dns.cpp"], san="tsan", flags=_Z + ["-DVP_TSAN"], shards=2, mode="v02", env=dict(VP_LIGHT="1"), thorough_scale=20)])
P("R01", "sites of 1-10 files in nested directories around the mapping threshold, every kind of path out of the root, directories, overlong names, replies sent interleaved; non-trivial = distinct request",
  [dict(name="files", src=["files.cpp"], san="asan", flags=_SF, shards=4, thorough_scale=20)])
_H = _SF + ["-I", str(VERIF / "shim/http"), "-Wl,--no-as-needed", "-lssl", "-lcrypto"]
P("R02", "1-10 HTTP/2 connections with interleaved requests, uploads, cancellations, disconnects, slow readers, partial reads and writes; non-trivial = distinct round",
  [dict(name="rest", src=["rest.cpp"], san="asan", flags=_H, shards=4, mode="r02", thorough_scale=20)])
P("R03", "histories of polls (Next, Last, past, present and future indices, malformed ones), updates, followers and cancellations over 5 topics; non-trivial = distinct round",
  [dict(name="longpoll", src=["rest.cpp"], san="asan", flags=_H, shards=4, mode="r03", thorough_scale=20)])
