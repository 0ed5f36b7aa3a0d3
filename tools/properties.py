#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "UDP listener forwards every datagram intact, once and in order",
  "Every non-empty datagram that the UDP listener receives appears exactly once, byte for byte and in arrival order, in the messages it publishes to its configured subject, with a newline added only if the datagram did not end with one. Batching never loses, truncates, duplicates, reorders or interleaves datagrams and never joins the last line of one datagram to the first line of the next.",
  ["inputs", "histories", "configurations"],
  "every sequence of datagrams (any size up to the UDP maximum, with or without trailing newline), any timing, every batch_max_count / batch_max_size / batch_max_age",
  "The tests send a handful of short, similar datagrams with one or two batch settings; they never mix large datagrams, reused buffers, flush causes and missing newlines in one history.",
  ["listener/listener.go", "batch/batch.go", "batchsplitter/batch_splitter.go"],
  [("listenUDP: one read per loop, EnsureNewline, maybeSendBatch", "listener/listener.go"), ("ReadOnceFrom / growIfLow keeps room for a full datagram", "batch/batch.go"), ("Reset after send", "batch/batch.go")],
  [("batch", "received data not yet published", "Listener.batch")],
  ["NATS messages on the listener's subject", "metrics on the monitor subject"])

p("C02", "HTTP listener forwards every body unbroken under concurrency",
  "Every request body accepted by /write with nanosecond precision appears exactly once, byte for byte and contiguously, in the stream of published messages, however requests of concurrent clients, stalled clients and age-triggered sends interleave. Lines of different requests are never joined (a missing final newline is supplied before other data follows), and bodies sent one after another appear in that order.",
  ["schedules", "inputs", "histories"],
  "every interleaving of concurrent requests (chunked, slow or aborted bodies included) with batch sends",
  "One test posts the same line from ten goroutines and checks that every received line equals it; duplicated, lost-and-duplicated or torn bodies with different contents, missing newlines and stalled clients are not reached.",
  ["listener/listener.go", "batch/batch.go"],
  [("body read outside, appended inside the batch lock", "listener/listener.go readHTTPBodyNanos"), ("maybeSendBatch / oldBatchSender under the same lock", "listener/listener.go")],
  [("batch", "accepted data not yet published", "Listener.batch (guarded by mu)")],
  ["NATS messages on the listener's subject", "HTTP responses"])

p("C03", "HTTP listener converts timestamps of any precision to nanoseconds",
  "With a precision of u, ms, s, m or h, each line's timestamp is published as the same instant in nanoseconds and everything else on the line is unchanged; lines without a timestamp, or whose timestamp would not fit in the representable nanosecond range, are published unchanged. Lines of a request keep their order, each stays whole whatever its length (up to the bus message limit) and however requests run concurrently, and blank lines are dropped.",
  ["inputs", "schedules"],
  "every line, timestamp (including negative, overlong and out of range ones), precision and concurrent mix of requests",
  "A single test converts positive second timestamps of 12 short lines; other precisions, limits of the range, missing or malformed timestamps and concurrent conversions are not run through the listener.",
  ["listener/listener.go", "influx/timestamps.go", "convert/convert.go"],
  [("applyTimestampPrecision", "listener/listener.go"), ("SafeCalcTime / safeSignedMult", "influx/timestamps.go"), ("ToInt overflow detection", "convert/convert.go")],
  (), ["NATS messages on the listener's subject"])

p("C04", "Listener sends exactly when count, size or age limit is reached",
  "A listener publishes its pending data as soon as it holds batch_max_count writes or is within one maximum-size datagram (64 KiB) of batch_max_size, and no later than (about a second after) its oldest pending data reaches batch_max_age, even when no more data arrives. It never publishes before one of these limits is reached, and the count, size and age all start afresh after each publication.",
  ["histories", "configurations", "schedules"],
  "every sequence of arrivals and pauses and every combination of the three limits, for UDP and HTTP",
  "Tests try each limit once, starting from an empty listener; state carried over from one batch to the next, limits interacting and premature sends are not examined.",
  ["listener/listener.go", "batch/batch.go"],
  [("shouldSend", "listener/listener.go"), ("oldBatchSender", "listener/listener.go"), ("countWrite / Age / Reset", "batch/batch.go")],
  [("writes, created, size", "progress towards the limits", "batch.Batch")],
  ["time and content of published messages"])

p("C05", "Pieces never exceed the size limit and are cut only between lines",
  "Data that has to be sent in pieces (to the bus: at most 1 MiB per message, to InfluxDB: at most batch_max_size per request) is cut into pieces of at most the limit whose concatenation is the original data. A cut falls inside a line only when that line alone does not fit into the limit, and each piece holds as many whole lines as fit.",
  ["inputs", "configurations"],
  "every buffer and limit, in particular lines ending exactly at, just before and just after the limit",
  "The splitter tests use a few fixed buffers; a newline directly after the limit (which produced an oversized piece) was not among them.",
  ["batchsplitter/batch_splitter.go", "listener/listener.go", "writer/writer.go", "downsampler/downsampler.go"],
  [("BatchSplitter.Next", "batchsplitter/batch_splitter.go")],
  [("buf", "data not yet handed out", "BatchSplitter.buf")],
  ["sizes and contents of NATS messages and InfluxDB requests"])

p("C06", "Filter sends each valid line to exactly one destination",
  "Every well-formed line inside the time window that the filter receives is published exactly once: to the subject of the first rule in configuration order that it matches or, if it matches none, to the junkyard subject. Lines with malformed tags are dropped without affecting any other line, lines of one message that are taken by the same rule (or go to the junkyard) keep their order, and lines are never torn or merged, whatever the number of workers and mix of messages.",
  ["inputs", "histories", "schedules", "configurations"],
  "every message, rule list (overlapping rules, equal subjects, no rules) and number of workers, including state reused between messages",
  "Tests send one message with a couple of lines to one or two rules; carry-over between messages, several workers and overlapping rules are not checked for exactly-once.",
  ["filter/worker.go", "filter/rules.go", "filter/filter.go"],
  [("LookupParsed: first match wins", "filter/rules.go"), ("per-rule buffers, sendOff and Reset", "filter/worker.go")],
  [("batches, junkBatch", "lines waiting to be published per destination", "worker")],
  ["NATS messages on rule and junkyard subjects"])

p("C07", "Rules match exactly the lines they describe",
  "A basic rule matches a line if and only if its unescaped measurement name equals the rule's; a tags rule if and only if every tag pair listed is among the line's unescaped tags; a regex rule if and only if the expression matches the unescaped line without its line terminator; a negregex rule if and only if that regex does not. The outcome does not depend on the order of the tags in the line or on the rule's position, other lines or previous lookups.",
  ["inputs", "configurations"],
  "every line and rule of each type",
  "Rule tests are examples; hash collisions between measurement names, escapes in every position, repeated tags and cached state between rules are not covered.",
  ["filter/rules.go", "influx/tags.go", "influx/token.go", "influx/unescape.go"],
  [("CreateBasicRule, CreateTagRule, CreateRegexRule, CreateNegativeRegexRule", "filter/rules.go"), ("SubsetOf", "influx/tags.go"), ("ParseTags", "influx/tags.go")],
  (), ["destination of each line", "RuleSet.Lookup"])

p("C08", "Filter drops exactly the lines outside the time window",
  "A line with a nanosecond timestamp that differs from the current time by max_time_delta or more, in either direction, is never passed on, and one that differs by less is never dropped for its timestamp. A line without a timestamp (or whose last item is not a valid integer) counts as current.",
  ["inputs", "histories", "configurations"],
  "every timestamp (far past, far future, limits of 64 bits, malformed) and every max_time_delta",
  "The test has one line on each side, a second away from the limit; overflow, malformed and extreme timestamps and moving time are not covered.",
  ["filter/worker.go", "influx/timestamps.go", "convert/convert.go"],
  [("processBatch window test", "filter/worker.go"), ("ExtractNanos", "influx/timestamps.go")],
  (), ["NATS messages on rule and junkyard subjects", "invalid_time metric"])

p("C09", "Filter output has tags sorted and is otherwise unchanged",
  "Every line the filter publishes has its tags in ascending order of (unescaped) key; a line whose tags were already in order is published byte for byte, and for any other line the measurement name, the tag pairs and everything after the tags are preserved. Two lines that differ only in tag order come out identical.",
  ["inputs"],
  "every line, including escapes that change the encoded length and lines without fields or newline",
  "Tests sort a handful of lines; combinations of escaping with in-place rewriting, lines without fields and neighbouring lines in the buffer are not covered.",
  ["filter/rules.go", "filter/worker.go", "influx/tags.go", "influx/escape.go"],
  [("SortTags (in place or rebuilt)", "filter/rules.go"), ("TagSet.Bytes", "influx/tags.go")],
  (), ["NATS messages on rule and junkyard subjects"])

p("C10", "Filter metrics account for every line",
  "At any quiescent point processed equals the number of lines received (blank ones included), passed the number published to rule subjects, rejected the number sent to the junkyard and invalid_time the number outside the time window; each rule's triggered metric equals the lines that rule matched and they sum to passed. The remainder (processed minus the other three) is the number of malformed lines.",
  ["histories", "schedules", "configurations"],
  "every history of messages, any number of workers",
  "Tests compare the counters once after a single message.",
  ["filter/worker.go", "filter/filter.go", "stats/stats.go", "stats/anonstats.go"],
  [("Inc at each decision", "filter/worker.go"), ("startStatistician", "filter/filter.go")],
  [("st, ruleSt", "counters", "filter worker")],
  ["metrics on the monitor subject"])

p("C11", "Downsampler assigns lines to the right period and emits each once",
  "Each accepted line contributes to exactly one output period: the one, aligned to multiples of the sampling period (counted from the year 1, so that e.g. hours and days begin as in UTC), whose start <= timestamp < end (lines without timestamp use the current time); lines older than the previous period or newer than the next one are rejected and counted. Each period's aggregate is published exactly once, stamped with the period's end, after the following period has ended and not before, to the input subject plus suffix.",
  ["histories", "inputs", "schedules"],
  "every sequence of lines, timestamps and clock advances (including long gaps), every period, several input subjects",
  "Assigner tests walk through a few hand-picked instants; boundaries, long gaps and repeated rotation with mixed lines are not explored.",
  ["downsampler/assigner.go", "downsampler/downsampler.go", "downsampler/avgbucket.go"],
  [("findBucket, Bytes (rotation), UntilNext", "downsampler/assigner.go"), ("worker loop", "downsampler/downsampler.go")],
  [("buckets prev/curr/next, tmin", "open periods", "assigner")],
  ["NATS messages on the output subjects", "invalid_timestamps metric"])

p("C12", "Downsampler aggregates each field correctly",
  "For each period and each distinct measurement and tag set, one line is emitted holding every field seen: integer fields as the mean of their values (within one unit), float fields as the mean (within floating point rounding), string and other fields as the latest value, encoded so that reading the line back yields that value. Series, fields and periods never influence one another, and the result does not depend on how the lines were grouped into messages.",
  ["inputs", "histories"],
  "every sequence of lines with any fields, types, escapes and values",
  "Bucket tests aggregate two or three values each; rounding drift, many values, escapes, backslashes in strings and interference between series are not covered.",
  ["downsampler/avgbucket.go", "influx/token.go", "influx/escape.go"],
  [("fieldPairs.update, intFieldValue, floatFieldValue, stringFieldValue", "downsampler/avgbucket.go"), ("QuotedString / EscapeQuotedString", "influx")],
  [("lines", "aggregates per series", "avgBucket.lines")],
  ["NATS messages on the output subjects"])

p("C13", "Downsampler isolates bad lines and accounts for its work",
  "A line that cannot be parsed or whose field has changed type is counted in invalid_lines (once for each problem found in it) and never affects other series or the fields that come before it or are valid in other lines; a line rejected for its timestamp is counted in invalid_timestamps only. The received metric counts input messages and sent counts published aggregates, per history exactly.",
  ["inputs", "histories"],
  "every mix of valid, malformed, type-changing and out-of-range lines",
  "Tests check single malformed lines in isolation; their effect on neighbouring state and the counters over a history are not checked.",
  ["downsampler/avgbucket.go", "downsampler/assigner.go", "downsampler/downsampler.go"],
  [("error returns of AddLine/Update", "downsampler/avgbucket.go, downsampler/assigner.go"), ("counter updates in worker", "downsampler/downsampler.go")],
  (), ["metrics on the monitor subject", "NATS messages on the output subjects"])

p("C14", "Writer delivers every message to InfluxDB exactly once",
  "While InfluxDB accepts writes, the data of every message received from the configured subjects is written to the configured database exactly once, byte for byte, with the lines of each message in order; messages of one worker's batch are neither interleaved nor torn, whatever the number of workers and the grouping into batches. A batch that was accepted is never written again.",
  ["histories", "schedules", "configurations"],
  "every stream of messages over one or more subjects, any number of workers and batch settings, including buffer reuse between batches",
  "Tests write two or three short messages per case with fixed batching; reuse of the batch buffer, several workers, splitting and long streams are not checked for exactly-once.",
  ["writer/writer.go", "writer/influxclient.go", "batch/batch.go", "batchsplitter/batch_splitter.go"],
  [("worker loop: append, shouldSend, split, Write, Reset", "writer/writer.go")],
  [("batch", "received data not yet written", "writer worker")],
  ["HTTP requests received by InfluxDB"])

p("C15", "Writer writes exactly when count, size or age limit is reached",
  "A worker writes its pending data as soon as it holds batch_max_count messages (or matching lines, when filtering) or at least batch_max_size bytes, and within about a second of its oldest data reaching batch_max_age even when nothing more arrives; it never writes earlier. Requests are POSTs to /write of the configured database with the configured credentials, and count, size and age start afresh after each write.",
  ["histories", "configurations", "schedules"],
  "every sequence of arrivals and pauses and every combination of limits",
  "Each limit is tried once from a fresh start; carry-over, interaction and premature writes are not examined.",
  ["writer/writer.go", "writer/influxclient.go", "batch/batch.go"],
  [("shouldSend and the one second wake-up", "writer/writer.go"), ("influxClient.Write", "writer/influxclient.go")],
  [("batch writes/size/age", "progress towards the limits", "writer worker")],
  ["time, headers and content of HTTP requests"])

p("C16", "Writer with rules writes exactly the matching lines",
  "When rules are configured, precisely the lines matching at least one rule are written, unmodified and in order; lines that match no rule or are malformed are never written and never affect other lines. Without rules every byte is written.",
  ["inputs", "configurations", "histories"],
  "every message and rule list of any rule type",
  "Two tests use one basic rule and two lines each.",
  ["writer/writer.go", "filter/rules.go", "config/config.go"],
  [("getBatchWriteFunc / filterLine", "writer/writer.go")],
  (), ["HTTP requests received by InfluxDB"])

p("C17", "Failed writes are retried within the configured bounds",
  "When a write fails temporarily (no connection, timeout, a redirection, any other non-2xx and non-4xx answer to the POST) its data is attempted again, unchanged, once per writer_retry_interval in rotation with other waiting batches, until it succeeds, is rejected with a client error or is older than writer_retry_timeout; then it is never attempted again. Each worker keeps at most writer_retry_batches batches waiting, discarding the oldest when a new one needs room, makes at most one retry attempt per interval, and with writer_retry_batches = 0 makes exactly one attempt.",
  ["fault_sequences", "histories", "schedules"],
  "every sequence of successes, temporary and permanent failures, arrivals and expiries",
  "Retry tests cover single batches and a pair of batches with scripted outcomes; interleavings of arrival, rotation, expiry and capacity are not explored.",
  ["writer/retryworker.go", "writer/writer.go", "writer/influxclient.go"],
  [("retryWorker.loop", "writer/retryworker.go"), ("retryQueue Add/Front/DropFront/CycleFront/removeOldest", "writer/retryworker.go"), ("isPermanentError", "writer/influxclient.go")],
  [("queue", "batches waiting for retry with expiry", "retryWorker.queue"), ("nextSend", "pending retry timer", "retryWorker.loop")],
  ["attempts seen by InfluxDB (time, content)"])

p("C18", "A failing or slow InfluxDB never wedges or corrupts the writer",
  "Whatever InfluxDB does (error answers, hangs up to write_timeout, dropped connections, recovery), the writer goes on consuming messages, attempts every batch of new data at least once, keeps retried data identical to the data first attempted, and returns to normal delivery when InfluxDB recovers; its connections to InfluxDB do not pile up. Its write_requests and failed_writes metrics count every attempt and every failed attempt, retries included.",
  ["fault_sequences", "schedules", "histories"],
  "every fault sequence, any number of workers and retry settings",
  "Tests use at most three scripted failures with one worker; back-pressure between a worker and its retry queue, long outages and data aliasing during retries are not reached.",
  ["writer/writer.go", "writer/retryworker.go", "writer/influxclient.go"],
  [("copy of the chunk handed to the retry worker", "writer/writer.go"), ("non-blocking reportWrite/reportError", "writer/retryworker.go"), ("client timeout", "writer/influxclient.go")],
  [("retryCh", "hand-over to the retry worker", "writer worker")],
  ["HTTP requests received by InfluxDB", "metrics on the monitor subject"])

p("C19", "Monitor serves the latest value of every metric received",
  "After any history of metric messages, /metrics lists each distinct combination of metric name and label set (label order is irrelevant) exactly once, with the value and timestamp received last and labels in sorted order, in an order of lines that depends only on what is listed. Serving metrics does not change them and concurrent updates and requests never produce a mixed or partial line.",
  ["histories", "schedules", "inputs"],
  "every history of updates, interleaved with requests",
  "Tests send a few updates and read once; unsorted labels, repeated reads and concurrent updates are not covered.",
  ["monitor/monitor.go", "prometheus/metricset.go", "prometheus/metric.go", "prometheus/labels.go"],
  [("UpdateFromSet keyed by name and sorted labels", "prometheus/metricset.go"), ("mutex around update and render", "monitor/monitor.go")],
  [("metrics", "latest values", "Monitor.metrics")],
  ["HTTP /metrics"])

p("C20", "Malformed metric messages are discarded whole and harmless",
  "A message containing any line that is not a well-formed metric has no effect at all on what the monitor serves, and no message of any content stops the monitor from serving earlier metrics or accepting later ones.",
  ["inputs", "histories"],
  "every byte sequence as a message, at any point of a history",
  "Parser tests reject about ten malformed lines; truncations that crashed the parser were not among them.",
  ["monitor/monitor.go", "prometheus/parse.go", "convert/convert.go"],
  [("ParseMetrics is all or nothing", "prometheus/parse.go"), ("receiveMetrics returns on error", "monitor/monitor.go")],
  (), ["HTTP /metrics"])

p("C21", "Counters are exact under concurrency",
  "With any number of concurrent users, each increment of a counter is counted exactly once and returns a value no other increment returned, a maximum update leaves the largest value ever supplied, counters never decrease, and every snapshot contains each counter exactly once with a value it actually had between the start and the end of the snapshot.",
  ["schedules", "histories"],
  "every interleaving of increments, maximum updates, reads and snapshots",
  "One test increments from several goroutines and compares the total; concurrent maximum updates, reads and snapshots are not checked against any order.",
  ["stats/anonstats.go", "stats/stats.go"],
  [("atomic add, load and compare-and-swap loop", "stats/anonstats.go")],
  [("counts", "counter values", "AnonStats.counts")],
  ["results of the counter API"])

p("C22", "Every component reports truthful metrics regularly",
  "Each component publishes, at start and then every stats_interval, one metric line for each of its documented counters, labelled with component type, name and host (plus the documented extra labels) and stamped with the current time; values never decrease and at rest equal the work done. Everything published is well formed, so that the monitor accepts it.",
  ["histories", "configurations"],
  "every component mode, name, rule list and history of work",
  "Tests compare counters once, shortly after start, for one configuration.",
  ["listener/listener.go", "filter/filter.go", "downsampler/downsampler.go", "writer/writer.go", "stats/prometheus.go", "prometheus/labels.go"],
  [("startStatistician of each component", "listener, filter, downsampler, writer"), ("SnapshotToPrometheus / CounterToPrometheus", "stats/prometheus.go")],
  (), ["metrics on the monitor subject"])

p("C23", "Probes reflect the component's life cycle",
  "With a probe port configured, the port is served shortly after the start and /healthz answers 200 from start until shutdown begins, /readyz answers 503 until the component can process data sent to it and 200 from then until shutdown begins, each following the state last set, and once shut down the port is closed and can be reused. Without a probe port nothing is served and every operation is harmless.",
  ["schedules", "histories"],
  "every order of state changes and requests, for every component",
  "Tests set each state once; readiness ahead of the subscription or port being active is a race they cannot see.",
  ["probes/probes.go", "listener/listener.go", "filter/filter.go", "downsampler/downsampler.go", "writer/writer.go", "monitor/monitor.go"],
  [("atomic alive and ready values", "probes/probes.go"), ("SetReady(true) after subscribe, flush and bind", "each component"), ("SetReady(false), SetAlive(false) first in Stop", "each component")],
  [("alive, ready", "probe states", "probes.listener")],
  ["HTTP /healthz and /readyz", "delivery of data sent once ready"])

p("C24", "Effective configuration is defaults, common file, then own file",
  "For every option the effective value is the one in the component's file if given there, else the one in the common file if given there, else the documented default for the mode; a rule list in the component's file replaces the common one entirely. The common file is optional, but an unreadable or invalid file, a missing component file or a missing mode is an error, an empty or zero value stands for the default where the default depends on the mode, and the name defaults to the file's base name without extension.",
  ["configurations", "inputs"],
  "every combination of options in both files and every mode",
  "Tests cover all defaults, one full file and a two-option overlay.",
  ["config/config.go", "config/duration.go"],
  [("newDefaultConfig, readConfig twice, dynamic defaults", "config/config.go")],
  (), ["NewConfigFromFile"])

p("C25", "Exactly the invalid configurations are refused",
  "A configuration is refused if and only if it breaks a documented constraint: unknown mode; ports out of range; not exactly one subject for a listener or filter, or none for a writer; listener batches above the bus limit; a sampling period outside the downsampler, or a downsampler without period or suffix; an InfluxDB protocol other than http and https; a user name without password or the reverse; or a rule with missing, superfluous or malformed parts (rule types that don't exist and malformed expressions are refused when the component starts, with an error). Filter and writer accept the same kinds of rules, except that writer rules have no subject and filter rules need one.",
  ["configurations"],
  "every combination of option values and rules in every mode",
  "Tests have one example per error message; writers refused tags rules and skipped validating them without a test noticing.",
  ["config/config.go"],
  [("Validate and the per-mode validators", "config/config.go")],
  (), ["NewConfigFromFile", "Config.Validate"])

p("C26", "Line protocol parsing and escaping are inverse and lossless",
  "Escaping a measurement name, tag key or tag value without backslashes and parsing the result back yields the original, and any string field read from a line and quoted again reads back the same. Parsing a line yields its unescaped measurement, its unescaped tags in order and the untouched remainder, or an error exactly when a tag is malformed (missing or empty key or value); it never changes the line it is given.",
  ["inputs"],
  "every string over the significant characters (comma, equals, space, backslash, quote, newline) and others",
  "Tests list examples; empty items, delimiters in first position and backslashes at the end were mishandled without a test noticing.",
  ["influx/token.go", "influx/tags.go", "influx/escape.go", "influx/unescape.go"],
  [("Token, TokenEscaped, QuotedString", "influx/token.go"), ("ParseTags", "influx/tags.go"), ("Escape*, Unescape", "influx/escape.go, influx/unescape.go")],
  (), ["results of the parsing and escaping functions"])

p("C27", "Timestamps are located and converted exactly",
  "The timestamp of a line is the integer after its last space, provided it is a well-formed 64-bit decimal; its value and position are exact, with or without trailing newline, and anything else counts as no timestamp. Converting from a precision to nanoseconds is exact multiplication, refused if the result is outside the representable range.",
  ["inputs"],
  "every line and every integer, including the limits of 64 bits, negative and overlong numbers",
  "Tests list examples; overlong integers that wrapped around were accepted without a test noticing.",
  ["influx/timestamps.go", "convert/convert.go"],
  [("ExtractTimestamp, ExtractNanos, SafeCalcTime", "influx/timestamps.go"), ("ToInt", "convert/convert.go")],
  (), ["results of the timestamp functions"])

p("C28", "No input can crash or wedge a component",
  "Whatever bytes arrive as datagrams, request bodies, lines or messages on the bus, each component stays up and goes on handling valid data that arrives later exactly as if the bad data had not been there.",
  ["inputs", "histories"],
  "every byte sequence at every input of every component",
  "Tests send a few malformed lines to individual functions, never hostile data to running components.",
  ["listener/listener.go", "filter/worker.go", "downsampler/assigner.go", "writer/writer.go", "monitor/monitor.go", "influx/token.go", "prometheus/parse.go"],
  [("bounds checks in the parsers", "influx, prometheus, convert"), ("errors counted rather than returned", "components")],
  (), ["process survival", "output for later valid data"])

p("C29", "A line entering a listener reaches its backend exactly once, intact",
  "With listener, filter and writer running and no overload, every valid current line sent to a listener (UDP or HTTP) is delivered exactly once, with sorted tags and otherwise unchanged, to each InfluxDB whose writer subscribes to the subject chosen by the first matching rule, and to no other; invalid lines reach none. A downsampler on the same subject leads to archive lines for exactly those series.",
  ["histories", "schedules", "configurations"],
  "every stream of lines and every rule set across the composed components",
  "The end-to-end test sends three batches of lines through one fixed set-up and compares one write.",
  ["cmd/influx-spout/main.go", "listener/listener.go", "filter/filter.go", "writer/writer.go", "downsampler/downsampler.go"],
  [("runComponent", "cmd/influx-spout/main.go"), ("NATS subjects linking the components", "config")],
  (), ["HTTP requests received by InfluxDB"])

p("C30", "Filters share work; writers share it only within a queue group",
  "Each message on an input subject is handled by exactly one of the filters subscribed to it and by exactly one of the writers in each queue group, while a writer without queue group, and each group of a different name, sees every message; a downsampler sees every message of each of its subjects. This holds while instances are added.",
  ["histories", "schedules", "configurations"],
  "every set of filters, writers and groups on the same subjects and every stream of messages",
  "No test runs two instances of a component on one subject apart from one queue group test with two writers.",
  ["filter/filter.go", "writer/writer.go", "downsampler/downsampler.go"],
  [("QueueSubscribe with fixed group", "filter/filter.go"), ("queue_group", "writer/writer.go")],
  (), ["outputs of all instances"])

p("C31", "Stopping always completes and releases everything",
  "Stopping a component at any moment (idle, with data pending, under load, while InfluxDB or the bus hangs, fails or is away) completes within bounded time (a small multiple of the write timeout), after which it publishes and writes nothing more and its ports are free for a new instance, which works normally.",
  ["schedules", "crash_points", "fault_sequences"],
  "every moment of stopping for every component",
  "Tests stop components only when they are idle.",
  ["listener/listener.go", "filter/filter.go", "downsampler/downsampler.go", "writer/writer.go", "writer/retryworker.go", "monitor/monitor.go", "probes/probes.go"],
  [("stop channel and wait group", "each component")],
  (), ["duration of Stop", "bus and HTTP traffic afterwards", "ports"])

p("C32", "Tap prints exactly the lines selected, verbatim",
  "The tap prints every line of every message received, byte for byte and in order, or with an expression exactly those lines that match it.",
  ["inputs"],
  "every line (including format characters) and expression",
  "The tap has no tests.",
  ["cmd/influx-spout-tap/influx-spout-tap.go"],
  [("process", "cmd/influx-spout-tap/influx-spout-tap.go")],
  (), ["standard output"])

p("C33", "Components go on by themselves after the bus was away",
  "While the bus can't be reached a component keeps running and can still be stopped promptly. Once the bus can be reached again, however long it was away, every component is back on it without having been restarted: it handles what is sent from then on exactly as before, once, and goes on reporting. What a listener accepts meanwhile (up to the client's buffer of 8 MiB) is published when it is back.",
  ["fault_sequences", "schedules", "histories"],
  "every component, any set of components cut off at the same time, any length of the outage and whatever is sent or stopped during it",
  "No test takes the bus away.",
  ["listener/listener.go", "filter/filter.go", "downsampler/downsampler.go", "writer/writer.go", "monitor/monitor.go"],
  [("nats.Connect with MaxReconnects(-1)", "each component"), ("no waiting for the bus in goroutines that Stop waits for", "writer/writer.go startStatistician")],
  [("connected", "whether a component is on the bus", "nats.Conn of each component")],
  ["where marked lines turn up after an outage", "reports", "duration of Stop"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
