From 4487999a4985b1d8fd860e0ca6dd5031b3d5178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 01/41] fix: batchsplitter could return chunks one byte over
 the limit

When a newline sat directly after the size limit, the chunk returned
included it and was chunkSize+1 bytes long. Such a NATS message is
rejected (maximum payload exceeded) and its lines were lost.
---
 batchsplitter/batch_splitter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 33e49e9..1c2ab16 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -54,8 +54,9 @@ func (s *BatchSplitter) Next() bool {
 		return true
 	}
 
-	// Look backwards from the maximum size for a newline.
-	for i := s.chunkSize; i >= 0; i-- {
+	// Look backwards from the maximum size for a newline. The newline
+	// itself is part of the chunk so it must sit within chunkSize.
+	for i := s.chunkSize - 1; i >= 0; i-- {
 		if s.buf[i] == '\n' {
 			i++
 			s.out = s.buf[:i]
-- 
2.43.0


From 16361ef8277370d070f5ea78b18b7046e88807f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 02/41] fix: HTTP listener joined lines of different requests

A request body which didn't end with a newline had its last line glued
to the first line of the next body in the same batch. The UDP listener
already handles this.
---
 listener/listener.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 215eb3e..e7eb0fe 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -282,6 +282,8 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
+	// The previous body might not have ended with a newline.
+	l.batch.EnsureNewline()
 	return l.batch.ReadFrom(r.Body)
 }
 
@@ -304,6 +306,7 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 
 		newLine := applyTimestampPrecision(line, precision)
 		l.mu.Lock()
+		l.batch.EnsureNewline()
 		l.batch.Append(newLine)
 		l.mu.Unlock()
 	}
-- 
2.43.0


From 13086c3d78d1792315712e3c1ebc9eb41fbf2b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 03/41] fix: a slow HTTP client blocked the whole HTTP listener

The batch lock was held while reading a request body, so a client which
stalled part way through its body stopped all other requests and the
sending of aged batches.
---
 listener/listener.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index e7eb0fe..f601892 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"net"
 	"net/http"
@@ -280,11 +281,17 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 }
 
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
-	l.mu.Lock()
-	defer l.mu.Unlock()
-	// The previous body might not have ended with a newline.
-	l.batch.EnsureNewline()
-	return l.batch.ReadFrom(r.Body)
+	// Read the body before taking the lock. A slow client must not hold
+	// up other clients or the sending of batches.
+	body, err := ioutil.ReadAll(r.Body)
+	if len(body) > 0 {
+		l.mu.Lock()
+		// The previous body might not have ended with a newline.
+		l.batch.EnsureNewline()
+		l.batch.Append(body)
+		l.mu.Unlock()
+	}
+	return int64(len(body)), err
 }
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
-- 
2.43.0


From 63bf88c4c7e8da83e36fbdb183049ca30f8a41a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 04/41] fix: HTTP listener dropped lines over 64KB when
 precision was given

A line longer than bufio.Scanner's default limit caused it and the rest
of the request body to be discarded. Allow lines up to the NATS message
size, as without precision.
---
 listener/listener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/listener/listener.go b/listener/listener.go
index f601892..909862d 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -296,6 +296,7 @@ func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
 	scanner := bufio.NewScanner(r.Body)
+	scanner.Buffer(nil, int(config.MaxNATSMsgSize))
 
 	// scanLines is like bufio.ScanLines but the returned lines
 	// includes the trailing newlines. Leaving the newline on the line
-- 
2.43.0


From 2960fc02d0038e27c044bc4ec046df779cfe1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 05/41] fix: integers too big for 64 bits wrapped instead of
 overflowing

convert.ToInt only noticed an overflow when the wrapped value happened
to be above the signed maximum, so e.g. 18446744073709551617 was read
as 1. Timestamps, averages and metric values were affected.
---
 convert/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convert/convert.go b/convert/convert.go
index b12830c..a6813c8 100644
--- a/convert/convert.go
+++ b/convert/convert.go
@@ -45,6 +45,9 @@ func ToInt(s []byte) (int64, error) {
 		} else {
 			return 0, errors.New("invalid char")
 		}
+		if n > (math.MaxUint64-uint64(c))/10 {
+			return 0, errors.New("overflow")
+		}
 		n = n*10 + uint64(c)
 	}
 
-- 
2.43.0


From d79b0b8c4338c3fb2ac7e7b5e378a485f2888af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 06/41] fix: downsampled integer averages drifted due to
 rounding

Each update of the incremental average discarded its remainder, so the
result could be far from the mean (the average of 0 and then any number
of 1s was 0, the average of 10, 0, 0, ... stayed well above 0).
---
 downsampler/avgbucket.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7aead5b..7e522b8 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -196,8 +196,9 @@ func newStringValue(v []byte) fieldValue {
 }
 
 type intFieldValue struct {
-	average int64
-	count   int64
+	average   int64
+	remainder int64 // sum of values is average*count + remainder
+	count     int64
 }
 
 func (v *intFieldValue) update(b []byte) error {
@@ -209,9 +210,12 @@ func (v *intFieldValue) update(b []byte) error {
 		return fmt.Errorf("wrong type for int: %s", b)
 	}
 
-	// Update incremental average.
+	// Update incremental average. The remainder is kept so that rounding
+	// errors don't accumulate.
 	v.count++
-	v.average = v.average + ((bi - v.average) / v.count)
+	delta := bi - v.average + v.remainder
+	v.average += delta / v.count
+	v.remainder = delta % v.count
 	return nil
 }
 
-- 
2.43.0


From dc9cd33294e0c5a35c7446689da1263a79e45202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 07/41] fix: rendering a parsed metric overwrote the metric
 itself

bytes.NewBuffer(m.Name) writes to the spare capacity of m.Name which, for
a parsed metric, is the received message that the labels refer to. A
metric with unsorted labels changed after being served once.
---
 prometheus/metric.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prometheus/metric.go b/prometheus/metric.go
index ccc9ecc..52132c7 100644
--- a/prometheus/metric.go
+++ b/prometheus/metric.go
@@ -34,7 +34,8 @@ func (m *Metric) String() string {
 
 // ToBytes renders the metric to wire format.
 func (m *Metric) ToBytes() []byte {
-	out := bytes.NewBuffer(m.Name)
+	out := new(bytes.Buffer)
+	out.Write(m.Name)
 	if len(m.Labels) > 0 {
 		out.Write(m.Labels.ToBytes())
 	}
-- 
2.43.0


From 39e75c0b152a79e3d842f9c678050a2c10862728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 08/41] fix: truncated metrics crashed the monitor

Metric lines that ended straight after an opening brace, a label value
or the closing brace caused an index out of range panic.
---
 prometheus/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index f37555e..fc5c23a 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -71,6 +71,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 	}
 
 	i++
+	if i > len(s) {
+		return nil, errors.New("no value")
+	}
 	j := bytes.IndexByte(s[i:], ' ')
 	if j == -1 {
 		j = len(s[i:]) // No timestamp
@@ -92,6 +95,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 }
 
 func parseLabels(s []byte) (Labels, int, error) {
+	if len(s) == 0 {
+		return nil, 0, errors.New("invalid label")
+	}
 	if s[0] == '}' {
 		return nil, 1, nil
 	}
@@ -117,6 +123,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 
 		out = append(out, label)
 
+		if i >= len(s) {
+			return nil, i, errors.New("missing closing brace")
+		}
 		switch s[i] {
 		case '}':
 			return out, i + 1, nil
-- 
2.43.0


From 2a9d6f94c63723617f8d9d4051f025452b3da339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 09/41] fix: tap mangled lines containing percent signs

Lines were used as format strings.
---
 cmd/influx-spout-tap/influx-spout-tap.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 9dbe8b9..b87b798 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -19,7 +19,6 @@ package main
 import (
 	"bytes"
 	"flag"
-	"fmt"
 	"log"
 	"os"
 	"regexp"
@@ -57,10 +56,10 @@ func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
 			if r.Match(line) {
-				fmt.Printf(string(line))
+				os.Stdout.Write(line)
 			}
 		} else {
-			fmt.Printf(string(line))
+			os.Stdout.Write(line)
 		}
 	}
 }
-- 
2.43.0


From 67fbc8c6d0a34b96741a3ac79e9eb7eae9105f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 10/41] fix: basic rules matched measurements with a colliding
 hash

Basic rules only compared 32 bit hashes of measurement names, so e.g. a
rule for "creamwove" also matched "quists".
---
 filter/rules.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index ddbc8ae..a5c1f65 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -15,6 +15,7 @@
 package filter
 
 import (
+	"bytes"
 	"fmt"
 	"hash/fnv"
 	"regexp"
@@ -37,11 +38,13 @@ type Rule struct {
 // CreateBasicRule creates a simple rule that publishes measurements
 // with the name @measurement to the NATS @subject.
 func CreateBasicRule(measurement string, subject string) Rule {
-	hh := hashMeasurement([]byte(measurement))
+	name := []byte(measurement)
+	hh := hashMeasurement(name)
 
 	return Rule{
 		match: func(line *parsedLine) bool {
-			return hh == line.HashedMeasurement()
+			// Comparing hashes first is fast but hashes may collide.
+			return hh == line.HashedMeasurement() && bytes.Equal(name, line.Measurement)
 		},
 		subject: subject,
 	}
-- 
2.43.0


From c6c7229f530c8f51c0aa67bb95f8772cd24f3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 11/41] fix: empty tag values and keys swallowed what followed
 them

The first character of a token was never compared to the delimiters, so
in "foo,a= x=1" the tag value was taken to be " x=1". Such malformed
lines were passed on and, if the tags needed sorting, came out as
different, valid looking lines. They're now rejected as intended.
---
 downsampler/avgbucket.go | 4 ++--
 influx/tags.go           | 2 +-
 influx/token.go          | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7e522b8..da17e06 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -99,14 +99,14 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 		raw = raw[1:] // remove leading comma or space
 		var nameBytes []byte
 		nameBytes, raw = influx.TokenEscaped(raw, []byte("="))
-		if len(raw) == 0 || raw[0] != '=' {
+		if len(nameBytes) == 0 || len(raw) == 0 || raw[0] != '=' {
 			errs = append(errs, errors.New("invalid field"))
 			return
 		}
 		name := string(nameBytes)
 
 		raw = raw[1:]
-		if len(raw) == 0 {
+		if len(raw) == 0 || raw[0] == ',' {
 			errs = append(errs, errors.New("missing field value"))
 			return
 		}
diff --git a/influx/tags.go b/influx/tags.go
index 83b6cff..9a9c00d 100644
--- a/influx/tags.go
+++ b/influx/tags.go
@@ -115,7 +115,7 @@ func ParseTags(line []byte) ([]byte, TagSet, []byte, error) {
 		}
 
 		key, line = Token(line[1:], []byte("= ,"))
-		if len(line) == 0 || line[0] != '=' {
+		if len(key) == 0 || len(line) == 0 || line[0] != '=' {
 			return nil, nil, nil, errors.New("invalid tag")
 		}
 
diff --git a/influx/token.go b/influx/token.go
index 4b3fa56..dbaffd2 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -35,13 +35,12 @@ func TokenEscaped(s []byte, until []byte) ([]byte, []byte) {
 
 func token(s []byte, until []byte) ([]byte, []byte, bool) {
 	length := len(s)
-	if length == 1 {
+	if length > 0 {
 		for _, c := range until {
 			if s[0] == c {
 				return nil, s, false
 			}
 		}
-		return s, nil, false
 	}
 
 	escaped := false
-- 
2.43.0


From c7823cfd550073a4ebbe5628644220d2bc0cb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 12/41] fix: quoted strings with backslashes were rejected or
 changed

A string field ending with an escaped backslash was considered to be
unterminated, and backslashes before commas, spaces and equals signs
were removed from strings which also contained an escaped quote.
---
 influx/token.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/influx/token.go b/influx/token.go
index dbaffd2..e29160e 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -14,7 +14,10 @@
 
 package influx
 
-import "errors"
+import (
+	"bytes"
+	"errors"
+)
 
 // Token takes an escaped line protocol line and returns the
 // unescaped characters leading up to until.
@@ -86,14 +89,17 @@ func QuotedString(s []byte) ([]byte, []byte, error) {
 		if i >= length {
 			return nil, nil, errors.New("missing trailing double quote")
 		}
+		if s[i] == '\\' && i+1 < length && (s[i+1] == '"' || s[i+1] == '\\') {
+			// Skip next character (it's escaped).
+			escaped = escaped || s[i+1] == '"'
+			i++
+			continue
+		}
 		if s[i] == '"' {
-			if s[i-1] == '\\' {
-				escaped = true
-				continue
-			}
 			out := s[1:i]
 			if escaped {
-				out = Unescape(out)
+				// Only double quotes are escaped by EscapeQuotedString.
+				out = bytes.Replace(out, []byte(`\"`), []byte(`"`), -1)
 			}
 			return out, s[i+1:], nil
 		}
-- 
2.43.0


From 79e0cb7ceb61bc07f22b79c20d3248d2489e594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 13/41] fix: filter treated the newline as part of the last tag
 or field

Sorting the tags of a line without fields moved its newline into the
middle of the line, breaking up that line and joining it to the next
one. Also, tags and basic rules didn't match newline terminated lines
without fields and regex rules ending in $ didn't match newline
terminated lines.
---
 filter/rules.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index a5c1f65..f397563 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -165,8 +165,12 @@ func (rs *RuleSet) LookupParsed(line *parsedLine) int {
 	return -1
 }
 
+var newline = []byte{'\n'}
+
 func newParsedLine(escaped []byte) (*parsedLine, error) {
-	measurement, tags, remainder, err := influx.ParseTags(escaped)
+	// The newline isn't part of the line's content.
+	content := bytes.TrimSuffix(escaped, newline)
+	measurement, tags, remainder, err := influx.ParseTags(content)
 	if err != nil {
 		return nil, err
 	}
@@ -199,7 +203,7 @@ type parsedLine struct {
 func (pl *parsedLine) Unescaped() []byte {
 	// Cached unescaped version if it hasn't been generated yet.
 	if pl.unescaped == nil {
-		pl.unescaped = influx.Unescape(pl.Escaped)
+		pl.unescaped = influx.Unescape(bytes.TrimSuffix(pl.Escaped, newline))
 	}
 	return pl.unescaped
 }
@@ -222,18 +226,23 @@ func (pl *parsedLine) SortTags() {
 
 	// Replace Escaped with sorted tags version.
 
+	var ending []byte
+	if bytes.HasSuffix(pl.Escaped, newline) {
+		ending = newline
+	}
+
 	var newHdr []byte
 	newHdr = append(newHdr, influx.EscapeMeasurement(pl.Measurement)...)
 	newHdr = append(newHdr, ',')
 	newHdr = append(newHdr, pl.Tags.Bytes()...)
 
 	if len(pl.Remainder) == 0 {
-		// Nothing left so "newHdr" is exactly what needs to be returned.
-		pl.Escaped = newHdr
+		// Nothing left apart from the line ending.
+		pl.Escaped = append(newHdr, ending...)
 		return
 	}
 
-	if len(newHdr)+len(pl.Remainder)+1 == len(pl.Escaped) {
+	if len(newHdr)+1+len(pl.Remainder)+len(ending) == len(pl.Escaped) {
 		// Length hasn't changed so reuse memory used by original,
 		// overwriting the measurement name and tags part.
 		copy(pl.Escaped, newHdr)
@@ -243,5 +252,6 @@ func (pl *parsedLine) SortTags() {
 	// Length as changed (original escaped differently?)
 	newHdr = append(newHdr, ' ')
 	newHdr = append(newHdr, pl.Remainder...)
+	newHdr = append(newHdr, ending...)
 	pl.Escaped = newHdr
 }
-- 
2.43.0


From 904d09e6256eacf8978f858c149fa5bfa033a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 14/41] fix: filter reported ready before it was subscribed

The subscription hadn't necessarily been processed by the NATS server
yet, so lines published once the filter was ready could be missed. The
other components already flush their subscriptions.
---
 filter/filter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 7ab2f00..29f2582 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -102,6 +102,11 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 		return nil, fmt.Errorf("NATS: failed to set pending limits: %v", err)
 	}
 
+	// Ensure that the subscription is active before reporting ready.
+	if err := f.nc.Flush(); err != nil {
+		return nil, fmt.Errorf("NATS flush error: %v", err)
+	}
+
 	f.wg.Add(1)
 	go f.startStatistician(st, ruleSt, rules)
 
@@ -124,6 +129,7 @@ func (f *Filter) natsConnect() (natsConn, error) {
 type natsConn interface {
 	Publish(string, []byte) error
 	QueueSubscribe(string, string, nats.MsgHandler) (*nats.Subscription, error)
+	Flush() error
 	Close()
 }
 
-- 
2.43.0


From 7d468ec5b79c1fea227389227bd6e96921d8d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 15/41] fix: writer miscounted write_requests for split batches

write_requests was incremented once per batch, even when the batch was
written using several requests or (being empty) none at all. Failures
were counted per request, so failed_writes could exceed it.
---
 writer/writer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 5bfc905..cf00fb9 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -181,8 +181,6 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		}
 
 		if w.shouldSend(batch) {
-			w.stats.Inc(statWriteRequests)
-
 			// It is possible for the batch to end up being slightly
 			// larger than the configured maximum batch size because
 			// inbound messages will almost never align exactly with
@@ -190,6 +188,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 			splitter := batchsplitter.New(batch.Bytes(), w.c.BatchMaxSize)
 			for splitter.Next() {
 				chunk := splitter.Chunk()
+				w.stats.Inc(statWriteRequests)
 				if err := dbClient.Write(chunk); err != nil {
 					w.stats.Inc(statFailedWrites)
 					log.Printf("Error: %v", err)
-- 
2.43.0


From c0ab16b0d6dd970090185d8dc2b9be142c1edec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 16/41] fix: writer config rejected tags rules

Writers support the same rules as filters but a tags rule was rejected
for not having a match. The contents of the tags weren't validated
either, although rule creation relies on that.
---
 config/config.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/config/config.go b/config/config.go
index 31cffe4..7e6ff5a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -161,23 +161,32 @@ func (c *Config) validateFilter() error {
 		if rule.Subject == "" {
 			return errors.New(`rule missing "subject"`)
 		}
-		if rule.Rtype != "tags" && rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
-		if rule.Rtype != "tags" && len(rule.Tags) > 0 {
-			return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	return nil
+}
+
+// validateMatch checks the parts of a rule which determine what it
+// matches.
+func (rule *Rule) validateMatch() error {
+	if rule.Rtype != "tags" && rule.Match == "" {
+		return errors.New(`rule missing "match"`)
+	}
+	if rule.Rtype != "tags" && len(rule.Tags) > 0 {
+		return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	if rule.Rtype == "tags" {
+		if rule.Match != "" {
+			return errors.New(`tags rule cannot use "match"`)
 		}
-		if rule.Rtype == "tags" {
-			if rule.Match != "" {
-				return errors.New(`tags rule cannot use "match"`)
-			}
-			if len(rule.Tags) == 0 {
-				return errors.New(`tags rule missing "tags"`)
-			}
-			for _, tag := range rule.Tags {
-				if len(tag) != 2 {
-					return errors.New("each tags item must contain 2 values")
-				}
+		if len(rule.Tags) == 0 {
+			return errors.New(`tags rule missing "tags"`)
+		}
+		for _, tag := range rule.Tags {
+			if len(tag) != 2 {
+				return errors.New("each tags item must contain 2 values")
 			}
 		}
 	}
@@ -215,8 +224,8 @@ func (c *Config) validateWriter() error {
 		if rule.Rtype == "" {
 			return errors.New(`rule missing "type"`)
 		}
-		if rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
 		if rule.Subject != "" {
 			return fmt.Errorf("writer rules shouldn't have subject (%q)", rule.Subject)
-- 
2.43.0


From 8529ee631fd644c2eec8fe8823af89b3400e6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 17/41] fix: rules inherited leftovers from rules in the common
 config

Rules in the component's config file were decoded on top of the rules in
/etc/influx-spout.toml, so a rule which didn't set a given option kept
the value from the common rule at the same position.
---
 config/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/config/config.go b/config/config.go
index 7e6ff5a..3abfb48 100644
--- a/config/config.go
+++ b/config/config.go
@@ -241,9 +241,16 @@ func NewConfigFromFile(fileName string) (*Config, error) {
 	if err := readConfig(commonFileName, conf); err != nil && !os.IsNotExist(err) {
 		return nil, err
 	}
+	// Rules replace those of the common file. They are set aside because
+	// otherwise the new ones would be decoded on top of them.
+	commonRules := conf.Rule
+	conf.Rule = nil
 	if err := readConfig(fileName, conf); err != nil {
 		return nil, err
 	}
+	if conf.Rule == nil {
+		conf.Rule = commonRules
+	}
 
 	if conf.Mode == "" {
 		return nil, errors.New("mode not specified in config")
-- 
2.43.0


From 072975c00f8ec2c3ff59aa106650314aee2b2d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 18/41] fix: batch may not grow enough to read a whole datagram

A batch with a capacity between 32KB and 64KB was only doubled, leaving
less free space than the largest datagram so that it was truncated when
read.
---
 batch/batch.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/batch/batch.go b/batch/batch.go
index 9be7ef4..32ea93f 100644
--- a/batch/batch.go
+++ b/batch/batch.go
@@ -146,13 +146,12 @@ func (b *Batch) growIfLow() {
 	}
 }
 
-// grow doubles the size of the Batch's internal buffer. If the new
-// size is less than maxReadSize, then the buffer is grown to at least
-// maxReadSize. This call is expensive and should be avoided where
+// grow doubles the size of the Batch's internal buffer. The buffer is
+// always grown by at least maxReadSize. This call is expensive and should be avoided where
 // possible.
 func (b *Batch) grow() {
 	newSize := cap(b.buf) * 2
-	if newSize < maxReadSize {
+	if newSize < cap(b.buf)+maxReadSize {
 		newSize = cap(b.buf) + maxReadSize
 	}
 	newBuf := make([]byte, int(newSize))
-- 
2.43.0


From 470a965310d8945ebfbade6b8b8319e732ac88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 19/41] fix: HTTP listener and monitor were ready before their
 port was open

Readiness was reported before the HTTP port had been bound, so requests
sent by a client waiting for readiness could be refused.
---
 listener/listener.go | 6 +++++-
 monitor/monitor.go   | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 909862d..8b5fa9c 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -360,8 +360,12 @@ func (l *Listener) listenHTTP(server *http.Server) {
 	defer l.wg.Done()
 
 	go func() {
+		sc, err := net.Listen("tcp", server.Addr)
+		if err != nil {
+			log.Fatal(err)
+		}
 		l.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err = server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 3a3bdc8..2eec8ae 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -18,6 +18,7 @@ package monitor
 import (
 	"fmt"
 	"log"
+	"net"
 	"net/http"
 	"sync"
 
@@ -126,8 +127,12 @@ func (m *Monitor) serveHTTP() {
 	}
 
 	go func() {
+		sc, err := net.Listen("tcp", server.Addr)
+		if err != nil {
+			log.Fatal(err)
+		}
 		m.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err = server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
-- 
2.43.0


From abc9013df4ae41e84a872af0c5c3326c0a91c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 20/41] fix: filter passed lines with the timestamp -1

The value -1 was taken to mean that the line has no timestamp, so such
lines counted as current instead of being outside the time window.
---
 filter/worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter/worker.go b/filter/worker.go
index 3c028da..ddc10ba 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -170,8 +170,8 @@ func extractTimestamp(line []byte, defaultTs int64) int64 {
 		return defaultTs
 	}
 
-	out, _ := influx.ExtractNanos(line)
-	if out == -1 {
+	out, offset := influx.ExtractNanos(line)
+	if offset == -1 {
 		return defaultTs
 	}
 	return out
-- 
2.43.0


From 1d3d3adfbf44221c3ad34edb6abc2c3b5cdaebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 21/41] fix: filter dropped every line with a very large
 max_time_delta

The upper end of the time window overflowed when max_time_delta was more
than about 235 years.
---
 filter/worker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filter/worker.go b/filter/worker.go
index ddc10ba..82fd797 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -89,6 +89,8 @@ func (w *worker) processBatch(batch []byte) {
 	now := time.Now().UnixNano()
 	minTs := now - int64(w.maxTimeDelta)
 	maxTs := now + int64(w.maxTimeDelta)
+	// The end of the window may lie beyond the largest timestamp.
+	noMaxTs := w.maxTimeDelta > 0 && maxTs < now
 
 	for _, line := range bytes.SplitAfter(batch, []byte("\n")) {
 		if len(line) == 0 {
@@ -97,7 +99,7 @@ func (w *worker) processBatch(batch []byte) {
 		w.st.Inc(statProcessed)
 
 		ts := extractTimestamp(line, now)
-		if minTs < ts && ts < maxTs {
+		if minTs < ts && (ts < maxTs || noMaxTs) {
 			w.processLine(line)
 		} else {
 			w.st.Inc(statInvalidTime)
-- 
2.43.0


From 4cd4c77864ea745b705d9218ee072c4514a87628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 22/41] fix: tags rules missed lines whose tags weren't in
 order

SortTags rearranged the tags in place when the length of the line didn't
change. The parsed tags refer to the same memory so they were overwritten
before the rules looked at them.
---
 filter/rules.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index f397563..d991d78 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -242,14 +242,8 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
-	if len(newHdr)+1+len(pl.Remainder)+len(ending) == len(pl.Escaped) {
-		// Length hasn't changed so reuse memory used by original,
-		// overwriting the measurement name and tags part.
-		copy(pl.Escaped, newHdr)
-		return
-	}
-
-	// Length as changed (original escaped differently?)
+	// The memory of the original line can't be reused because the
+	// measurement name and tags may refer to it.
 	newHdr = append(newHdr, ' ')
 	newHdr = append(newHdr, pl.Remainder...)
 	newHdr = append(newHdr, ending...)
-- 
2.43.0


From f14cb65de36812d6be4a9018cfcd1cb91443b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 23/41] fix: escape the database name in the URL of writes

---
 writer/influxclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 800a44b..ebf8f8c 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/jumptrading/influx-spout/v2/config"
@@ -26,7 +27,7 @@ import (
 
 func newInfluxClient(c *config.Config) *influxClient {
 	return &influxClient{
-		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, c.DBName),
+		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName)),
 		username: c.InfluxDBUser,
 		password: c.InfluxDBPass,
 		debug:    c.Debug,
-- 
2.43.0


From 020653c8b6c06abf0ac1efef44501fcd2c0f2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 24/41] fix: count every retry in the writer's metrics

The retry worker's reports are dropped when the worker is busy (e.g. waiting for a write), so retries and their failures went uncounted.
---
 writer/writer.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index cf00fb9..fdbeae7 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -150,15 +150,13 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	dbClient := newInfluxClient(w.c)
 
 	var (
-		retryCh      chan []byte
-		retryWriteCh <-chan struct{}
-		retryErrCh   <-chan error
+		retryCh    chan []byte
+		retryErrCh <-chan error
 	)
 	if w.c.WriterRetryBatches > 0 {
 		retryCh = make(chan []byte, 1)
-		rw := newRetryWorker(retryCh, dbClient, w.c)
+		rw := newRetryWorker(retryCh, &countingWriter{dbClient, w.stats}, w.c)
 		defer rw.Stop()
-		retryWriteCh = rw.Writes()
 		retryErrCh = rw.WriteErrors()
 	}
 
@@ -169,10 +167,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		case j := <-jobs:
 			w.stats.Inc(statReceived)
 			batchAppend(j.Data)
-		case <-retryWriteCh:
-			w.stats.Inc(statWriteRequests)
 		case err := <-retryErrCh:
-			w.stats.Inc(statFailedWrites)
 			log.Printf("Retry error: %v", err)
 		case <-time.After(time.Second):
 			// Wake up regularly to check batch age
@@ -210,6 +205,24 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	}
 }
 
+// countingWriter counts the writes made by a retryWorker. They are
+// counted as they are made because the retryWorker's reports are
+// dropped when the worker can't consume them (for example while it's
+// waiting for a write of its own).
+type countingWriter struct {
+	dbWriter dbWriter
+	stats    *stats.Stats
+}
+
+func (cw *countingWriter) Write(buf []byte) error {
+	cw.stats.Inc(statWriteRequests)
+	err := cw.dbWriter.Write(buf)
+	if err != nil {
+		cw.stats.Inc(statFailedWrites)
+	}
+	return err
+}
+
 func (w *Writer) getBatchWriteFunc(batch *batch.Batch) func([]byte) {
 	if w.rules.Count() == 0 {
 		// No rules - just append the received data straight onto the
-- 
2.43.0


From 6d746e996b0e3292755b49ef4a0459ab2c60c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 25/41] fix: downsampled averages of large integers overflowed

---
 downsampler/avgbucket.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index da17e06..93c2970 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -211,11 +211,15 @@ func (v *intFieldValue) update(b []byte) error {
 	}
 
 	// Update incremental average. The remainder is kept so that rounding
-	// errors don't accumulate.
+	// errors don't accumulate. Dividing before subtracting avoids overflows.
 	v.count++
-	delta := bi - v.average + v.remainder
-	v.average += delta / v.count
-	v.remainder = delta % v.count
+	rem := bi%v.count - v.average%v.count + v.remainder
+	v.average += bi/v.count - v.average/v.count + rem/v.count
+	v.remainder = rem % v.count
+	if v.remainder < 0 {
+		v.average--
+		v.remainder += v.count
+	}
 	return nil
 }
 
-- 
2.43.0


From 26151fc358f32e991b7b279eaf36f8a9c647ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 26/41] fix: downsampler missed changes between strings and
 other types

---
 downsampler/avgbucket.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 93c2970..7ac1ae3 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -123,6 +123,8 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 			value, exists := fp.fields[name]
 			if !exists {
 				fp.fields[name] = newStringValue(rawValue)
+			} else if !isStringValue(value) {
+				errs = append(errs, wrongType(value, rawValue)) // Non-fatal, so keep going.
 			} else {
 				if err := value.update(rawValue); err != nil {
 					errs = append(errs, err) // Non-fatal, so keep going.
@@ -134,6 +136,8 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 			value, exists := fp.fields[name]
 			if !exists {
 				fp.fields[name] = newFieldValue(rawValue)
+			} else if isStringValue(value) {
+				errs = append(errs, wrongType(value, rawValue)) // Non-fatal, so keep going.
 			} else {
 				if err := value.update(rawValue); err != nil {
 					errs = append(errs, err) // Non-fatal, so keep going.
@@ -191,6 +195,24 @@ func newFieldValue(v []byte) fieldValue {
 	return &rawFieldValue{v}
 }
 
+func isStringValue(v fieldValue) bool {
+	_, ok := v.(*stringFieldValue)
+	return ok
+}
+
+func wrongType(v fieldValue, b []byte) error {
+	kind := "other"
+	switch v.(type) {
+	case *intFieldValue:
+		kind = "int"
+	case *floatFieldValue:
+		kind = "float"
+	case *stringFieldValue:
+		kind = "string"
+	}
+	return fmt.Errorf("wrong type for %s: %s", kind, b)
+}
+
 func newStringValue(v []byte) fieldValue {
 	return &stringFieldValue{v}
 }
@@ -261,6 +283,9 @@ func (v *stringFieldValue) bytes() []byte {
 type rawFieldValue struct{ b []byte }
 
 func (v *rawFieldValue) update(b []byte) error {
+	if _, ok := newFieldValue(b).(*rawFieldValue); !ok {
+		return wrongType(v, b)
+	}
 	v.b = b
 	return nil
 }
-- 
2.43.0


From 39f84911326e73a08e6a672c5d3e3e365ac89fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 27/41] fix: downsampler ignored characters after a quoted
 string

---
 downsampler/avgbucket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7ac1ae3..d0fc639 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -120,6 +120,10 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 				errs = append(errs, err)
 				return
 			}
+			if len(raw) > 0 && raw[0] != ',' {
+				errs = append(errs, errors.New("invalid field"))
+				return
+			}
 			value, exists := fp.fields[name]
 			if !exists {
 				fp.fields[name] = newStringValue(rawValue)
-- 
2.43.0


From bd4ebc0f872bd959a5aeb9fb3a96058664327a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 28/41] fix: downsampler dropped the valid fields of a new
 series' first line

---
 downsampler/avgbucket.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index d0fc639..e890850 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -51,12 +51,11 @@ func (b *avgBucket) AddLine(line []byte) (errs []error) {
 	if !found {
 		fields = newFieldPairs()
 	}
-	if updateErrs := fields.update(line); len(updateErrs) > 0 {
-		errs = append(errs, updateErrs...)
-		return
+	errs = fields.update(line)
+	if len(errs) == 0 || fields.count() > 0 {
+		b.lines[key] = fields
 	}
-	b.lines[key] = fields
-	return
+	return errs
 }
 
 func (b *avgBucket) Bytes() []byte {
-- 
2.43.0


From 5124c35863dcd4c6d4ce06e62bde229800d21a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 29/41] fix: a slow HTTP client blocked the monitor

---
 monitor/monitor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 2eec8ae..9279ba6 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -116,9 +116,12 @@ func (m *Monitor) serveHTTP() {
 		r.Body.Close()
 		w.Header().Set("Content-Type", "text/plain")
 
-		defer m.mu.Unlock()
+		// The lock isn't held while writing because a slow client must
+		// not hold up updates and other clients.
 		m.mu.Lock()
-		w.Write(m.metrics.ToBytes())
+		body := m.metrics.ToBytes()
+		m.mu.Unlock()
+		w.Write(body)
 	})
 
 	server := &http.Server{
-- 
2.43.0


From 2c59a3bfb7ce5e1ac31ae16ab9f67f029d79c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 30/41] fix: metrics without names or separators were accepted

---
 prometheus/parse.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index fc5c23a..a2afd64 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -58,6 +58,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 	if i == -1 {
 		return nil, errors.New("no value")
 	}
+	if i == 0 {
+		return nil, errors.New("no name")
+	}
 	out.Name = s[:i]
 
 	if s[i] == '{' {
@@ -70,10 +73,10 @@ func ParseMetric(s []byte) (*Metric, error) {
 		i += n
 	}
 
-	i++
-	if i > len(s) {
+	if i >= len(s) || s[i] != ' ' {
 		return nil, errors.New("no value")
 	}
+	i++
 	j := bytes.IndexByte(s[i:], ' ')
 	if j == -1 {
 		j = len(s[i:]) // No timestamp
@@ -111,6 +114,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 		if j == -1 {
 			return nil, i, errors.New("invalid label")
 		}
+		if j == 0 {
+			return nil, i, errors.New("missing label name")
+		}
 		label.Name = s[i : i+j]
 		i = i + j + 2
 
-- 
2.43.0


From d1173af83066e41b136f00cdd8b64d96abe9d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 31/41] fix: the end of a line could not be matched by the tap

---
 cmd/influx-spout-tap/influx-spout-tap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index b87b798..b3277d9 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -55,7 +55,8 @@ func main() {
 func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
-			if r.Match(line) {
+			// The newline isn't part of the line's content.
+			if r.Match(bytes.TrimSuffix(line, []byte("\n"))) {
 				os.Stdout.Write(line)
 			}
 		} else {
-- 
2.43.0


From 7821474aeb1a36f6ca7e36312afb831853433bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 32/41] fix: HTTP ports could be opened after the component had
 been stopped

---
 listener/listener.go | 26 +++++++++++++++++---------
 monitor/monitor.go   | 21 ++++++++++++---------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 8b5fa9c..19d8d07 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -87,11 +87,22 @@ func StartHTTPListener(c *config.Config) (*Listener, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			listener.Stop()
+		}
+	}()
+
+	sc, err := net.Listen("tcp", fmt.Sprintf(":%d", c.Port))
+	if err != nil {
+		return nil, err
+	}
 	server := listener.setupHTTP()
 
 	listener.wg.Add(2)
 	go listener.startStatistician()
-	go listener.listenHTTP(server)
+	go listener.listenHTTP(server, sc)
+	listener.probes.SetReady(true)
 
 	log.Printf("HTTP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
@@ -219,7 +230,6 @@ func (l *Listener) setupHTTP() *http.Server {
 	mux := http.NewServeMux()
 	mux.HandleFunc("/write", l.handleHTTPWrite)
 	return &http.Server{
-		Addr:    fmt.Sprintf(":%d", l.c.Port),
 		Handler: mux,
 	}
 }
@@ -356,16 +366,13 @@ func applyTimestampPrecision(line []byte, precision string) []byte {
 	return append(newLine, '\n')
 }
 
-func (l *Listener) listenHTTP(server *http.Server) {
+func (l *Listener) listenHTTP(server *http.Server, sc net.Listener) {
 	defer l.wg.Done()
 
+	served := make(chan struct{})
 	go func() {
-		sc, err := net.Listen("tcp", server.Addr)
-		if err != nil {
-			log.Fatal(err)
-		}
-		l.probes.SetReady(true)
-		err = server.Serve(sc)
+		defer close(served)
+		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
@@ -375,6 +382,7 @@ func (l *Listener) listenHTTP(server *http.Server) {
 	// Close the server if the stop channel is closed.
 	<-l.stop
 	server.Close()
+	<-served
 }
 
 func (l *Listener) maybeSendBatch() {
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 9279ba6..d30f7e0 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -57,8 +57,14 @@ func Start(conf *config.Config) (_ *Monitor, err error) {
 		return nil, fmt.Errorf("NATS: failed to flush: %v", err)
 	}
 
+	sc, err := net.Listen("tcp", fmt.Sprintf(":%d", m.c.Port))
+	if err != nil {
+		return nil, err
+	}
+
 	m.wg.Add(1)
-	go m.serveHTTP()
+	go m.serveHTTP(sc)
+	m.probes.SetReady(true)
 
 	log.Printf("monitor subscribed to [%s] at %s - serving HTTP on port %d",
 		m.c.NATSSubjectMonitor, m.c.NATSAddress, m.c.Port)
@@ -108,7 +114,7 @@ func (m *Monitor) natsConnect() (*nats.Conn, error) {
 	return nc, nil
 }
 
-func (m *Monitor) serveHTTP() {
+func (m *Monitor) serveHTTP(sc net.Listener) {
 	defer m.wg.Done()
 
 	mux := http.NewServeMux()
@@ -125,17 +131,13 @@ func (m *Monitor) serveHTTP() {
 	})
 
 	server := &http.Server{
-		Addr:    fmt.Sprintf(":%d", m.c.Port),
 		Handler: mux,
 	}
 
+	served := make(chan struct{})
 	go func() {
-		sc, err := net.Listen("tcp", server.Addr)
-		if err != nil {
-			log.Fatal(err)
-		}
-		m.probes.SetReady(true)
-		err = server.Serve(sc)
+		defer close(served)
+		err := server.Serve(sc)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
@@ -145,6 +147,7 @@ func (m *Monitor) serveHTTP() {
 	// Close the server if the stop channel is closed.
 	<-m.stop
 	server.Close()
+	<-served
 }
 
 func (m *Monitor) receiveMetrics(msg *nats.Msg) {
-- 
2.43.0


From 60cc1b8383d674383c8d4c1f49d115b992980c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 33/41] fix: the writer's subscriptions could block forever
 after Stop

---
 writer/writer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index fdbeae7..d1be13e 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -92,11 +92,11 @@ func StartWriter(c *config.Config) (_ *Writer, err error) {
 		var sub *nats.Subscription
 		if c.QueueGroup == "" {
 			sub, err = w.nc.Subscribe(subject, func(msg *nats.Msg) {
-				jobs <- msg
+				w.enqueue(jobs, msg)
 			})
 		} else {
 			sub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, func(msg *nats.Msg) {
-				jobs <- msg
+				w.enqueue(jobs, msg)
 			})
 		}
 
@@ -144,6 +144,16 @@ func (w *Writer) Stop() {
 	w.probes.Close()
 }
 
+// enqueue passes a message on to the workers. It gives up once the
+// Writer is stopped because there will be no workers to receive it
+// and the subscription's goroutine would be blocked forever.
+func (w *Writer) enqueue(jobs chan<- *nats.Msg, msg *nats.Msg) {
+	select {
+	case jobs <- msg:
+	case <-w.stop:
+	}
+}
+
 func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	defer w.wg.Done()
 
-- 
2.43.0


From b715f7f64ec8f516b200d62d3920204c0261c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 34/41] fix: the filter's subscription could block forever
 after Stop

---
 filter/filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filter/filter.go b/filter/filter.go
index 29f2582..7feb08c 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -93,7 +93,11 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 		if conf.Debug {
 			log.Printf("filter received %d bytes", len(msg.Data))
 		}
-		jobs <- msg.Data
+		select {
+		case jobs <- msg.Data:
+		case <-f.stop:
+			// The workers are gone; don't block forever.
+		}
 	})
 	if err != nil {
 		return nil, fmt.Errorf("NATS: failed to subscribe: %v", err)
-- 
2.43.0


From 5cb0280d68b611e9ba7a58fa8db336fcac7197f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 35/41] fix: the downsampler's subscriptions could block
 forever after Stop

---
 downsampler/downsampler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/downsampler/downsampler.go b/downsampler/downsampler.go
index 0eea6d7..b6ad4cb 100644
--- a/downsampler/downsampler.go
+++ b/downsampler/downsampler.go
@@ -82,7 +82,11 @@ func StartDownsampler(c *config.Config) (_ *Downsampler, err error) {
 		ds.wg.Add(1)
 		go ds.worker(subject, inputCh)
 		subscription, err := ds.nc.Subscribe(subject, func(msg *nats.Msg) {
-			inputCh <- msg.Data
+			select {
+			case inputCh <- msg.Data:
+			case <-ds.stop:
+				// The worker is gone; don't block forever.
+			}
 		})
 		if err != nil {
 			return nil, fmt.Errorf("NATS: subscription for %q failed: %v", subject, err)
-- 
2.43.0


From 2c7ecde8520b67b58b608c03c96c815f19bcb184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 36/41] fix: report a malformed regular expression in a rule
 instead of crashing

---
 filter/rules.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter/rules.go b/filter/rules.go
index d991d78..8c021e0 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -96,6 +96,11 @@ func CreateTagRule(tags influx.TagSet, subject string) Rule {
 func RuleSetFromConfig(conf *config.Config) (*RuleSet, error) {
 	rs := new(RuleSet)
 	for _, r := range conf.Rule {
+		if r.Rtype == "regex" || r.Rtype == "negregex" {
+			if _, err := regexp.Compile(r.Match); err != nil {
+				return nil, fmt.Errorf("invalid %s rule: %v", r.Rtype, err)
+			}
+		}
 		switch r.Rtype {
 		case "basic":
 			rs.Append(CreateBasicRule(r.Match, r.Subject))
-- 
2.43.0


From ebcf6d472d6cb7d539c5446e3de53b4d781eb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 37/41] fix: validate the port of the monitor

---
 config/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/config/config.go b/config/config.go
index 3abfb48..001baa8 100644
--- a/config/config.go
+++ b/config/config.go
@@ -131,9 +131,16 @@ func (c *Config) Validate() error {
 	case "writer":
 		return c.validateWriter()
 	case "monitor":
+		return c.validateMonitor()
 	default:
 		return fmt.Errorf("invalid mode: %s", c.Mode)
 	}
+}
+
+func (c *Config) validateMonitor() error {
+	if c.Port < 1 || c.Port > 65535 {
+		return errors.New("monitor port out of range")
+	}
 	return nil
 }
 
-- 
2.43.0


From a970edcbb1ac7cf02afa6c7f68e5ed51a2c0f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:55 +0000
Subject: [PATCH 38/41] fix: writer Stop no longer waits up to a minute for an
 absent bus

The statistician flushed the NATS connection after publishing. While the
bus can't be reached that blocks for up to 60 seconds, and Stop waits for
it. The NATS client flushes by itself, as for all other components.
---
 writer/writer.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index d1be13e..788957f 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -296,8 +296,6 @@ func (w *Writer) startStatistician(subs []*nats.Subscription) {
 			w.nc.Publish(w.c.NATSSubjectMonitor, line)
 		}
 
-		w.nc.Flush()
-
 		select {
 		case <-time.After(w.c.StatsInterval.Duration):
 		case <-w.stop:
-- 
2.43.0


From 31c1e047f8b7ab5fc96ed8f73c3786f038d2b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 39/41] fix: a redirected write is not a successful one

The HTTP client follows a 301, 302 or 303 answer with a GET without
body, and its success was taken for that of the write: the data was lost
silently. Such an answer is a failure now (and is retried).
---
 writer/influxclient.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index ebf8f8c..75b8841 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -16,6 +16,7 @@ package writer
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/http"
@@ -38,11 +39,24 @@ func newInfluxClient(c *config.Config) *influxClient {
 				IdleConnTimeout:     30 * time.Second,
 				DisableCompression:  true,
 			},
-			Timeout: c.WriteTimeout.Duration,
+			Timeout:       c.WriteTimeout.Duration,
+			CheckRedirect: checkRedirect,
 		},
 	}
 }
 
+// checkRedirect refuses redirections which would turn the POST into a
+// GET without a body: its success says nothing about the data.
+func checkRedirect(req *http.Request, via []*http.Request) error {
+	if req.Method != "POST" {
+		return http.ErrUseLastResponse
+	}
+	if len(via) >= 10 {
+		return errors.New("stopped after 10 redirects")
+	}
+	return nil
+}
+
 // influxClient supports HTTP writes to an InfluxDB instance.
 type influxClient struct {
 	url      string
-- 
2.43.0


From d2d0da9354e6183d4591052052b08a45222e58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:57 +0000
Subject: [PATCH 40/41] fix: writer Stop is not held up by messages still
 waiting

A worker chose at random between the next message and the request to
stop, so with InfluxDB hanging and messages waiting any number of further
write timeouts could pass before Stop returned. Likewise for retries.
---
 writer/retryworker.go | 5 +++++
 writer/writer.go      | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/writer/retryworker.go b/writer/retryworker.go
index 8341ae7..aab5bd9 100644
--- a/writer/retryworker.go
+++ b/writer/retryworker.go
@@ -94,6 +94,11 @@ func (w *retryWorker) loop() {
 			nextSend = time.After(w.retryInterval)
 		}
 		select {
+		case <-w.stop:
+			return
+		default:
+		}
+		select {
 		case <-w.stop:
 			return
 		case buf := <-w.inputCh:
diff --git a/writer/writer.go b/writer/writer.go
index 788957f..f1f339b 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -173,6 +173,15 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	batch := batch.New(32 * os.Getpagesize())
 	batchAppend := w.getBatchWriteFunc(batch)
 	for {
+		// Check this first: while there are messages waiting the select
+		// below would pick one of them (and perhaps another slow write)
+		// just as often.
+		select {
+		case <-w.stop:
+			return
+		default:
+		}
+
 		select {
 		case j := <-jobs:
 			w.stats.Inc(statReceived)
-- 
2.43.0


From 5aaa9af0d2de8f82c5ee9056e8fa035ed48bb931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 41/41] fix: filter lost messages that outgrew the limit of
 NATS

---
 filter/worker.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/filter/worker.go b/filter/worker.go
index 82fd797..d71bdcd 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -21,6 +21,8 @@ import (
 	"sync"
 	"time"
 
+	"github.com/jumptrading/influx-spout/v2/batchsplitter"
+	"github.com/jumptrading/influx-spout/v2/config"
 	"github.com/jumptrading/influx-spout/v2/influx"
 	"github.com/jumptrading/influx-spout/v2/stats"
 )
@@ -153,11 +155,16 @@ func (w *worker) sendOff() {
 }
 
 func (w *worker) publish(subject string, data []byte) {
-	err := w.nc.Publish(subject, data)
-	if err != nil {
-		w.st.Inc(statFailedNATSPublish)
-		if w.debug {
-			log.Printf("NATS publish failed: %v", err)
+	// Lines may grow when their tags are put in order because of
+	// characters that have to be escaped. What was just small enough for
+	// NATS may therefore have become too big.
+	splitter := batchsplitter.New(data, config.MaxNATSMsgSize)
+	for splitter.Next() {
+		if err := w.nc.Publish(subject, splitter.Chunk()); err != nil {
+			w.st.Inc(statFailedNATSPublish)
+			if w.debug {
+				log.Printf("NATS publish failed: %v", err)
+			}
 		}
 	}
 }
-- 
2.43.0

