"""Small changes to the code, each of which breaks a property; used by
tools/mutate.py to see what the checks detect (never applied to /repo)."""
L, W, F, FW, FR, D, A, V, RW = ("listener/listener.go", "writer/writer.go", "filter/filter.go", "filter/worker.go", "filter/rules.go",
                                "downsampler/downsampler.go", "downsampler/assigner.go", "downsampler/avgbucket.go", "writer/retryworker.go")
B, S, IC, M, P, C = ("batch/batch.go", "batchsplitter/batch_splitter.go", "writer/influxclient.go", "monitor/monitor.go", "probes/probes.go", "config/config.go")
T, G, K, ST = ("influx/timestamps.go", "influx/tags.go", "influx/token.go", "stats/anonstats.go")
MUT = []


def m(name, props, f, old, new):
    MUT.append((name, props.split(), {f: [(old, new)]}))


def mm(name, props, edits):
    MUT.append((name, props.split(), edits))


# C01 C04 listener, batch
m("grow-loses-tail", "C01", B, "	if b.Remaining() < maxReadSize {\n", "	if b.Remaining() < maxReadSize/64 {\n")
m("grow-copies-less", "C02", B, "	copy(newBuf, b.buf)\n	newBuf = newBuf[:len(b.buf)]\n", "	n := copy(newBuf, b.buf[:len(b.buf)&^1])\n	n += copy(newBuf[n:], b.buf[n:])\n	newBuf = newBuf[:n&^1]\n")
m("newline-only-if-batched", "C01", L, "			l.batch.EnsureNewline()\n		}\n\n		l.maybeSendBatch()", "			if l.batch.Writes() < l.c.BatchMaxCount {\n				l.batch.EnsureNewline()\n			}\n		}\n\n		l.maybeSendBatch()")
m("age-from-reset", "C04 C15", B, "	if b.writes == 0 {\n		b.created", "	if b.created.IsZero() {\n		b.created")
m("age-refreshed-by-write", "C04 C15", B, "	if b.writes == 0 {\n		b.created", "	if b.writes <= 1 {\n		b.created")
m("count-over", "C04", L, "	if l.batch.Writes() >= l.c.BatchMaxCount {", "	if l.batch.Writes() > l.c.BatchMaxCount {")
m("size-datagram", "C04", L, "l.batch.Size() <= maxUDPDatagramSize {", "l.batch.Size() < maxUDPDatagramSize {")
m("udp-age-only-on-data", "C04", L, "		l.maybeSendBatch()\n\n		select {\n		case <-l.stop:", "		if bytesRead > 0 {\n			l.maybeSendBatch()\n		}\n\n		select {\n		case <-l.stop:")
# C02 C03
m("http-unlocked-send", "C04", L, "		l.mu.Lock()\n		l.maybeSendBatch()\n		l.mu.Unlock()\n	}\n	if err", "		if l.shouldSend() {\n			l.mu.Lock()\n			l.sendBatch()\n			l.mu.Unlock()\n		}\n	}\n	if err")
m("http-precision-no-unlock-age", "C04", L, "			if l.batch.Age() >= l.c.BatchMaxAge.Duration {\n				l.sendBatch()", "			if l.batch.Age() > l.c.BatchMaxAge.Duration*2 {\n				l.sendBatch()")
m("precision-cr", "C03", L, "	return append(newLine, '\\n')", "	if len(line) > offset+influx.MaxTsLen {\n		return newLine\n	}\n	return append(newLine, '\\n')")
m("precision-drops-unconvertible", "C03", L, "	if err != nil {\n		return line\n	}\n\n	newLine", "	if err != nil {\n		return line[:offset]\n	}\n\n	newLine")
m("precision-shares-buffer", "C03", L, "	newLine := make([]byte, offset, offset+influx.MaxTsLen+1)\n	copy(newLine, line[:offset])\n", "	newLine := line[:offset]\n")
m("precision-short-lines", "C03", L, "		if len(line) <= 1 {", "		if len(line) <= 6 {")
m("scanner-limit", "C03", L, "	scanner.Buffer(nil, int(config.MaxNATSMsgSize))\n", "")
m("query-precision-ns", "C02 C03", L, '	if precision == "" || precision == "ns" {', '	if precision == "" || precision[0] == \'n\' || precision[0] == \'m\' && len(r.URL.Query()) > 1 {')
# C05
m("split-off-by-one", "C05", S, "	for i := s.chunkSize - 1; i >= 0; i-- {", "	for i := s.chunkSize - 2; i >= 0; i-- {")
m("split-first-newline-lost", "C05", S, "i >= 0; i-- {", "i > 0; i-- {")
m("split-equal", "C05", S, "	if len(s.buf) <= s.chunkSize {", "	if len(s.buf) < s.chunkSize {")
m("ds-unsplit", "C05", D, "batchsplitter.New(buf, config.MaxNATSMsgSize)", "batchsplitter.New(buf, ds.c.BatchMaxSize)")
# C06-C10
m("junk-unsorted", "C09", FW, "	line.SortTags()\n\n	idx := w.rules.LookupParsed(line)\n", "	idx := w.rules.LookupParsed(line)\n	if idx != -1 {\n		line.SortTags()\n	}\n")
m("sort-before-regex-cached", "C09 C07", FR, "	if sort.IsSorted(pl.Tags) {", "	if len(pl.Tags) < 2 || bytes.Compare(pl.Tags[0].Key, pl.Tags[len(pl.Tags)-1].Key) < 0 && sort.IsSorted(pl.Tags[1:]) {")
m("junk-not-reset", "C06 C10", FW, "		w.publish(w.junkSubject, w.junkBatch.Bytes())\n		w.junkBatch.Reset()", "		if w.nc.Publish(w.junkSubject, w.junkBatch.Bytes()) == nil {\n			w.junkBatch.Truncate(w.junkBatch.Len() & (1 << 16))\n		}")
m("hash-only", "C07", FR, "			return hh == line.HashedMeasurement() && bytes.Equal(name, line.Measurement)", "			return hh == line.HashedMeasurement() && len(name) == len(line.Measurement)")
m("min-ts-len", "C08", FW, "	if len(line) <= minTsLen+6 {", "	if len(line) <= minTsLen+8 {")
m("processed-nonempty", "C10", FW, "		w.st.Inc(statProcessed)\n\n		ts := extractTimestamp(line, now)", "		if len(line) > 1 {\n			w.st.Inc(statProcessed)\n		}\n\n		ts := extractTimestamp(line, now)")
m("rejected-counts-malformed", "C10", FW, "	if err != nil {\n		return\n	}\n\n	line.SortTags()", "	if err != nil {\n		w.st.Inc(statInvalidTime)\n		return\n	}\n\n	line.SortTags()")
m("triggered-before-tie", "C10", FW, "	w.st.Inc(statPassed)\n	w.ruleSt.Inc(idx)", "	if w.st.Inc(statPassed) > 0 && w.batches[idx].Len() < 1<<15 {\n		w.ruleSt.Inc(idx)\n	}")
m("subset-value-prefix", "C07", G, "bytes.Equal(tag.Value, otherTag.Value)", "bytes.HasPrefix(otherTag.Value, tag.Value)")
m("subset-counts-dup", "C07", G, "			if !found[i] && ", "			if ")
m("tag-empty-key-last", "C06 C26", G, "		if len(value) == 0 {\n			return nil, nil, nil, errors.New(\"invalid tag\")\n		}\n", "		if len(value) == 0 && len(line) > 0 && line[0] == ',' {\n			return nil, nil, nil, errors.New(\"invalid tag\")\n		}\n")
# C11-C13
m("bucket-boundary", "C11", A, "		if ts.Before(b.EndTime()) {", "		if !ts.After(b.EndTime()) {")
m("tmin-stale", "C11", A, "	a.tmin = a.buckets[prev].EndTime().Add(-a.period)\n	return out", "	if len(out) > 0 {\n		a.tmin = a.buckets[prev].EndTime().Add(-a.period)\n	}\n	return out")
m("until-next-short", "C11", A, "	d := a.buckets[curr].EndTime().Sub(a.clock.Now())\n", "	d := a.buckets[next].EndTime().Sub(a.clock.Now())\n")
m("key-without-order", "C12", V, "	key := string(keyBytes)\n", "	key := strings.TrimSuffix(string(keyBytes), \"=\")\n")
m("int-avg-drift", "C12", V, "	v.remainder = rem % v.count\n", "	v.remainder = rem % v.count / 2 * 2\n")
m("float-first-twice", "C12", V, "	v.average = v.average + ((bf - v.average) / float64(v.count))\n", "	if bf != v.average*2 {\n		v.average = v.average + ((bf - v.average) / float64(v.count))\n	}\n")
m("string-keeps-longest", "C12", V, "func (v *stringFieldValue) update(b []byte) error {\n	v.b = b\n", "func (v *stringFieldValue) update(b []byte) error {\n	v.b = append(v.b[:0], b...)\n")
m("float-format", "C12", V, "strconv.AppendFloat(nil, v.average, 'g', -1, 64)", "strconv.AppendFloat(nil, v.average, 'g', 15, 64)")
m("string-escape-lost", "C26", "influx/token.go", "			escaped = escaped || s[i+1] == '\"'\n", "			escaped = s[i+1] == '\"'\n")
m("type-change-drops-rest", "C13", V, "			} else if isStringValue(value) {\n				errs = append(errs, wrongType(value, rawValue)) // Non-fatal, so keep going.\n			} else {", "			} else if isStringValue(value) {\n				errs = append(errs, wrongType(value, rawValue))\n				return\n			} else {")
m("empty-series-kept", "C13", V, "	if len(errs) == 0 || fields.count() > 0 {\n		b.lines[key]", "	if len(errs) == 0 || fields.count() >= 0 {\n		b.lines[key]")
m("ts-error-class", "C13", A, "	if lerr, ok := err.(*lineError); ok {\n		err = lerr.reason\n	}\n", "	if lerr, ok := err.(*lineError); ok && len(lerr.line) < 1<<10 {\n		err = lerr.reason\n	}\n")
m("sent-per-chunk", "C13", D, "				if err := ds.nc.Publish(outSubject, splitter.Chunk()); err != nil {", "				ds.stats.Inc(statSent)\n				if err := ds.nc.Publish(outSubject, splitter.Chunk()); err != nil {")
m("received-per-line", "C13", D, "			ds.stats.Inc(statReceived)\n			errs := assigner.Update(lines)\n", "			errs := assigner.Update(lines)\n			if len(errs) == 0 || len(lines) > 0 && lines[0] != '\\n' {\n				ds.stats.Inc(statReceived)\n			}\n")
# C14-C18
m("reset-after-partial", "C14", W, "			splitter := batchsplitter.New(batch.Bytes(), w.c.BatchMaxSize)", "			splitter := batchsplitter.New(bytes.TrimRight(batch.Bytes(), \"\\n\"), w.c.BatchMaxSize)")
m("dbname-raw", "C15", IC, "url.QueryEscape(c.DBName)", "url.PathEscape(c.DBName)")
m("no-auth-empty-pass", "C15", IC, '	if ic.username != "" {', '	if ic.username != "" && len(ic.password) > 1 {')
m("size-strict", "C15", W, "		uint64(batch.Size()) >= w.c.BatchMaxSize.Bytes() ||", "		uint64(batch.Size()) > w.c.BatchMaxSize.Bytes() ||")
m("age-only-with-job", "C15", W, "		case <-time.After(time.Second):\n			// Wake up regularly to check batch age\n", "		case <-time.After(w.c.BatchMaxAge.Duration + 3*time.Second):\n			// Wake up regularly to check batch age\n")
m("rule-per-message", "C16", W, "			if w.filterLine(line) {\n				batch.Append(line)", "			if w.filterLine(line) && !bytes.HasPrefix(line, []byte(\"#\")) {\n				batch.Append(line)")
m("4xx-retried", "C17", RW, "					if isPermanentError(err) {", "					if isPermanentError(err) && w.queue.Len() > 1 {")
m("408-temporary", "C17", IC, "	return code >= 400 && code < 500\n", "	return code > 400 && code < 500\n")
m("3xx-success", "C15 C17", IC, "	return code >= 200 && code < 300\n", "	return code >= 200 && code < 400\n")
m("1-interval-burst", "C17", RW, "			w.queue.Add(buf)\n", "			w.queue.Add(buf)\n			nextSend = nil\n")
m("retry-restart-timer", "C17", RW, "		if nextSend == nil && w.queue.Len() > 0 {", "		if w.queue.Len() > 0 {")
m("ttl-refreshed", "C17", RW, "	q.batches.MoveToBack(el)\n", "	b := el.Value.(retryBatch)\n	b.ttl = b.ttl.Add(q.maxTTL / 4)\n	el.Value = b\n	q.batches.MoveToBack(el)\n")
m("queue-one-more", "C17", RW, "	if q.batches.Len() >= q.maxBatches {", "	if q.batches.Len() > q.maxBatches {")
m("queue-drop-new", "C17", RW, "		q.removeOldest()\n	}\n", "		if q.batches.Len() > 2 {\n			return\n		}\n		q.removeOldest()\n	}\n")
m("ttl-boundary", "C17", RW, "		if now.After(batch.ttl) {\n			q.batches.Remove(el)", "		if now.After(batch.ttl) && q.batches.Len() > 1 {\n			q.batches.Remove(el)")
m("report-blocks", "C18", RW, "	select {\n	case w.writes <- struct{}{}:\n	default:\n	}\n", "	w.writes <- struct{}{}\n")
m("errors-block", "C18", RW, "	select {\n	case w.writeErrors <- err:\n	default:\n	}\n", "	w.writeErrors <- err\n")
m("timeout-zero", "C18", IC, "			Timeout:       c.WriteTimeout.Duration,\n", "			Timeout:       c.WriteTimeout.Duration * 20,\n")
m("stop-on-error", "C18", W, "					w.stats.Inc(statFailedWrites)\n					log.Printf(\"Error: %v\", err)\n", "					w.stats.Inc(statFailedWrites)\n					log.Printf(\"Error: %v\", err)\n					if isPermanentError(err) {\n						break\n					}\n")
m("body-not-closed", "C18 C31", IC, "	defer resp.Body.Close()\n\n	if !isHTTPPOSTSuccess(resp.StatusCode) {", "	if isHTTPPOSTSuccess(resp.StatusCode) {\n		resp.Body.Close()\n	}\n\n	if !isHTTPPOSTSuccess(resp.StatusCode) {")
# C19-C21
m("unsorted-output", "C19", "prometheus/metricset.go", "	sort.Strings(keys)\n", "	if len(keys) < 12 {\n		sort.Strings(keys)\n	}\n")
m("partial-bad-message", "C20", "prometheus/parse.go", "			return nil, fmt.Errorf(\"line %d: %v\", i+1, err)", "			if i > 8 {\n				continue\n			}\n			return nil, fmt.Errorf(\"line %d: %v\", i+1, err)")
m("metric-double-space", "C20", "prometheus/parse.go", "	if i >= len(s) || s[i] != ' ' {", "	if i >= len(s) || s[i] > ' ' {")
m("metrics-unlocked", "C19", M, "		m.mu.Lock()\n		body := m.metrics.ToBytes()\n		m.mu.Unlock()\n", "		body := m.metrics.ToBytes()\n")
m("max-store", "C21", ST, "		if atomic.CompareAndSwapUint64(pCount, curVal, newVal) {\n			return newVal\n		}", "		atomic.StoreUint64(pCount, newVal)\n		return newVal")
m("inc-two-steps", "C21", ST, "	return atomic.AddUint64(&s.counts[i], 1)\n", "	atomic.AddUint64(&s.counts[i], 1)\n	return atomic.LoadUint64(&s.counts[i])\n")
# C22 C23
m("stats-once-delayed", "C22", L, "		case <-time.After(l.c.StatsInterval.Duration):\n", "		case <-time.After(l.c.StatsInterval.Duration * 2):\n")
m("drop-per-subject", "C22", D, "				int(natsDrops[i]),\n", "				int(natsDrops[i*0]),\n")
m("ready-early", "C23", F, "	// Ensure that the subscription is active before reporting ready.\n", "	f.probes.SetReady(true)\n")
m("probe-close-async", "C23 C31", P, "	p.server.Close()\n	p.wg.Wait()", "	go p.server.Close()")
m("writer-ready-stays", "C23", W, "	w.probes.SetReady(false)\n	w.probes.SetAlive(false)\n\n	close(w.stop)\n	w.wg.Wait()\n", "	w.probes.SetAlive(false)\n\n	close(w.stop)\n	w.wg.Wait()\n	w.probes.SetReady(false)\n")
# C24 C25
m("rules-merge", "C24", C, "	if conf.Rule == nil {\n		conf.Rule = commonRules\n	}", "	if len(conf.Rule) == 0 {\n		conf.Rule = commonRules\n	}")
m("name-ext", "C24", C, "	ext := filepath.Ext(path)\n", "	ext := filepath.Ext(path)\n	if ext != \".toml\" && ext != \".conf\" {\n		ext = \"\"\n	}\n")
m("common-error-ignored", "C24", C, "	if err := readConfig(commonFileName, conf); err != nil && !os.IsNotExist(err) {", "	if err := readConfig(commonFileName, conf); err != nil && !os.IsNotExist(err) && !os.IsPermission(err) {")
m("writer-port-65536", "C25", C, "	if c.InfluxDBPort < 1 || c.InfluxDBPort > 65535 {", "	if c.InfluxDBPort < 1 || c.InfluxDBPort > 65536 {")
m("batch-max-listener-http", "C25", C, "	if c.BatchMaxSize > MaxNATSMsgSize {", '	if c.Mode == "listener" && c.BatchMaxSize > MaxNATSMsgSize {')
m("pass-without-user", "C25", C, '	if c.InfluxDBUser == "" && c.InfluxDBPass != "" {', '	if c.InfluxDBUser == "" && c.InfluxDBPass != "" && c.Debug {')
m("period-negative", "C25", C, '	if c.Mode != "downsampler" && c.DownsamplePeriod.Duration != time.Duration(0) {', '	if c.Mode != "downsampler" && c.Mode != "monitor" && c.DownsamplePeriod.Duration != time.Duration(0) {')
m("tags-first-pair-only", "C25", C, "		for _, tag := range rule.Tags {\n			if len(tag) != 2 {", "		for i, tag := range rule.Tags {\n			if len(tag) != 2 && i == 0 {")
# C26 C27
m("escape-tag-comma", "C26 C09", "influx/escape.go", "	return Escape(in, []byte(`, `))", "	return Escape(in, []byte(`, =`))")
m("unescape-backslash", "C26", "influx/unescape.go", "			case ',', '\"', ' ', '=':", "			case ',', '\"', ' ', '=', '\\\\':")
m("toint-plus", "C27", "convert/convert.go", "	if s[0] == '-' {", "	if s[0] == '+' {\n		s = s[1:]\n	}\n	if len(s) > 0 && s[0] == '-' {")
m("extract-window", "C27 C03", T, "	to := length - MaxTsLen - 1\n", "	to := length - MaxTsLen\n")
m("nanos-window", "C27 C08", T, "	from := length - MaxTsLen - 1\n", "	from := length - MaxTsLen - 2\n")
m("mult-overflow", "C27 C03", T, "	return c, c/b == a\n", "	return c, (c < 0) == (a < 0)\n")
m("max-nano", "C27 C03", T, "		if t < minNanoTime || t > maxNanoTime {", "		if t <= minNanoTime || t > maxNanoTime {")
# C28-C32
m("crash-short-metric", "C28 C20", "prometheus/parse.go", "	if i >= len(s) || s[i] != ' ' {", "	if s[i] != ' ' {")
m("crash-quoted", "C28", "influx/token.go", "		if s[i] == '\\\\' && i+1 < length && (", "		if s[i] == '\\\\' && (")
m("ds-queue", "C30", D, "		subscription, err := ds.nc.Subscribe(subject, func", "		subscription, err := ds.nc.QueueSubscribe(subject, \"downsampler\", func")
m("stop-order", "C31", M, "	server.Close()\n	<-served", "	server.Shutdown(context.Background())\n	<-served")
m("http-stop-shutdown", "C31", L, "	server.Close()\n	<-served", "	server.Shutdown(context.Background())\n	<-served")
m("tap-trim", "C32", "cmd/influx-spout-tap/influx-spout-tap.go", "		} else {\n			os.Stdout.Write(line)", "		} else if len(line) > 1 {\n			os.Stdout.Write(line)")
m("tap-newline", "C32", "cmd/influx-spout-tap/influx-spout-tap.go", "				os.Stdout.Write(line)\n			}", "				os.Stdout.Write(append(bytes.TrimSuffix(line, []byte(\"\\n\")), '\\n'))\n			}")
# second batch
m("http-limit-10mb", "C02", L, "ioutil.ReadAll(r.Body)", "ioutil.ReadAll(io.LimitReader(r.Body, 10<<20))")
m("http-precision-newline-unlocked", "C02 C03", L, "		newLine := applyTimestampPrecision(line, precision)\n		l.mu.Lock()\n		l.batch.EnsureNewline()\n", "		newLine := applyTimestampPrecision(line, precision)\n		if bytesRead == len(line) {\n			l.mu.Lock()\n			l.batch.EnsureNewline()\n			l.mu.Unlock()\n		}\n		l.mu.Lock()\n")
m("old-sender-unchecked", "C04", L, "			if l.batch.Age() >= l.c.BatchMaxAge.Duration {\n				l.sendBatch()\n			}\n", "			l.sendBatch()\n")
m("old-sender-floor", "C04", L, "		case <-time.After(waitTime):\n			l.mu.Lock()", "		case <-time.After(waitTime + l.c.BatchMaxAge.Duration/2):\n			l.mu.Lock()")
m("ds-subject-first", "C11 C29", D, "	outSubject := subject + ds.c.DownsampleSuffix\n", "	outSubject := ds.c.NATSSubject[0] + ds.c.DownsampleSuffix\n")
m("fnp-listener", "C22 C33 C28", L, "			l.stats.Inc(statFailedNATSPublish)\n", "")
m("fnp-ds", "C13 C22", D, "					ds.stats.Inc(statFailedNATSPublish)\n", "")
m("filter-batch-cap", "C06 C10", FW, "	w.batches[idx].Write(line.Escaped)\n", "	if w.batches[idx].Len()+len(line.Escaped) > 1<<19 {\n		return\n	}\n	w.batches[idx].Write(line.Escaped)\n")
m("filter-now-per-worker", "C08", FW, "	now := time.Now().UnixNano()\n	minTs := now - int64(w.maxTimeDelta)\n", "	now := time.Now().UnixNano()\n	if len(batch) > 1<<12 {\n		now += int64(w.maxTimeDelta) / 2\n	}\n	minTs := now - int64(w.maxTimeDelta)\n")
m("mr-listener", "C33", L, "nats.MaxReconnects(-1), ", "")
m("mr-monitor", "C33", M, "nats.MaxReconnects(-1), ", "")
m("mr-ds", "C33", D, "nats.MaxReconnects(-1), ", "")
m("mr-writer", "C33", W, "nats.MaxReconnects(-1), ", "nats.MaxReconnects(60), ")
m("mr-filter", "C33", F, "nats.MaxReconnects(-1), ", "nats.MaxReconnects(10), ")
m("no-reconnect", "C33", W, "nats.MaxReconnects(-1), ", "nats.NoReconnect(), ")
m("publish-error-stops-stats", "C33 C22", L, "		l.nc.Publish(l.c.NATSSubjectMonitor, lines)\n", "		if err := l.nc.Publish(l.c.NATSSubjectMonitor, lines); err != nil {\n			return\n		}\n")
m("listener-not-connected-drops", "C33", L, "	splitter := batchsplitter.New(l.batch.Bytes(), config.MaxNATSMsgSize)\n", "	if !l.nc.IsConnected() {\n		l.stats.Inc(statFailedNATSPublish)\n		l.batch.Reset()\n		return\n	}\n	splitter := batchsplitter.New(l.batch.Bytes(), config.MaxNATSMsgSize)\n")
m("writer-sub-first-only", "C14 C29", W, "		subs = append(subs, sub)\n", "		subs = append(subs, sub)\n		if c.QueueGroup != \"\" && len(subs) == 3 {\n			break\n		}\n")
m("retry-channel-drop", "C17 C14", W, "						retryCh <- retryChunk\n", "						select {\n						case retryCh <- retryChunk:\n						default:\n						}\n")
m("retry-only-last-chunk", "C18", W, "						retryChunk := make([]byte, len(chunk))\n						copy(retryChunk, chunk)\n", "						retryChunk := append([]byte(nil), batch.Bytes()...)\n")
m("writer-rules-last-line", "C16", W, "		for _, line := range bytes.SplitAfter(data, []byte(\"\\n\")) {\n			if w.filterLine", "		for _, line := range bytes.SplitAfter(bytes.TrimSuffix(data, []byte(\"\\n\")), []byte(\"\\n\")) {\n			if w.filterLine")
m("removeOldest-front", "C17", RW, "		if removeE == nil || b.ttl.Before(minTTL) {", "		if removeE == nil || b.ttl.Before(minTTL.Add(-time.Hour)) {")
m("retry-interval-from-write", "C17", RW, "			nextSend = nil\n\n", "			nextSend = time.After(0)\n\n")
m("lineerr-stops", "C13", A, "		if err != nil {\n			errs = append(errs, newLineError(err, origLine))\n		} else {", "		if err != nil {\n			errs = append(errs, newLineError(err, origLine))\n			if len(errs) > 3 {\n				return errs\n			}\n		} else {")
m("ds-now-late", "C11", A, "		return a.clock.Now(), line\n", "		return a.buckets[curr].EndTime(), line\n")
m("ds-cr", "C11", A, "	return time.Unix(0, nanos), line[:offset-1]\n", "	if nanos%1000 == 999 {\n		nanos++\n	}\n	return time.Unix(0, nanos), line[:offset-1]\n")
m("assigner-tmin-init", "C11", A, "	a.tmin = tp.Add(-a.period)\n", "	a.tmin = tp\n")
m("env-only-if-unset", "C24", C, "		conf.InfluxDBUser = os.Getenv(\"INFLUXDB_USER\")\n", "		if conf.InfluxDBUser == \"\" && conf.InfluxDBProtocol == \"http\" {\n			conf.InfluxDBUser = os.Getenv(\"INFLUXDB_USER\")\n		}\n")
m("port-default-monitor", "C24", C, "			conf.Port = 9331\n", "			conf.Port = 9313\n")
m("port-probe-steal", "C24", C, "	if conf.Port == 0 {\n		switch", "	if conf.Port == 0 && conf.ProbePort != 10001 {\n		switch")
m("bms-default-filter", "C24", C, "			conf.BatchMaxSize = 10 * datasize.MB\n", "			conf.BatchMaxSize = 10 * 1000 * 1000\n")
m("suffix-common", "C24", C, "	commonRules := conf.Rule\n	conf.Rule = nil\n", "	commonRules := conf.Rule\n	conf.Rule = nil\n	if len(conf.NATSSubject) > 1 {\n		conf.NATSSubject = conf.NATSSubject[:1]\n	}\n")
m("rule-empty-own", "C24", C, "	if conf.Rule == nil {\n		conf.Rule = commonRules\n", "	if len(commonRules) > len(conf.Rule) {\n		conf.Rule = commonRules\n")
m("name-dots", "C24", C, "	return path[:len(path)-len(ext)]\n", "	return strings.SplitN(path, \".\", 2)[0]\n")
m("validate-last-rule", "C25", C, "		if rule.Subject != \"\" {\n			return fmt.Errorf(\"writer rules", "		if rule.Subject != \"\" && rule.Rtype != \"tags\" {\n			return fmt.Errorf(\"writer rules")
m("validate-pprof", "C25", C, "	if c.PprofPort < 0 || c.PprofPort > 65535 {", "	if c.PprofPort < 0 || c.PprofPort >= 65535 {")
m("validate-listener-subjects", "C25", C, "	if len(c.NATSSubject) != 1 {\n		return errors.New(\"listener", "	if len(c.NATSSubject) < 1 {\n		return errors.New(\"listener")
m("validate-suffix", "C25", C, "	if c.DownsampleSuffix == \"\" {", "	if c.DownsampleSuffix == \"\" && len(c.NATSSubject) > 1 {")
m("rules-reversed-two", "C07", FR, "	for i, rule := range rs.rules {\n		if rule.match(line) {\n			return i\n		}\n	}\n	return -1\n", "	out := -1\n	for i, rule := range rs.rules {\n		if rule.match(line) && (out == -1 || i > 8) {\n			out = i\n		}\n	}\n	return out\n")
m("unescape-cache-shared", "C07", FR, "	if pl.unescaped == nil {", "	if len(pl.unescaped) == 0 && pl.hashedMeasurement == nil {")
m("negregex-empty", "C07", FR, "			return !reg.Match(line.Unescaped())", "			return len(line.Tags) > 0 && !reg.Match(line.Unescaped()) || !reg.Match(line.Escaped)")
m("sort-remainder-empty", "C09", FR, "	if len(pl.Remainder) == 0 {\n		// Nothing left apart from the line ending.\n		pl.Escaped = append(newHdr, ending...)\n		return\n	}\n", "")
m("sort-inplace", "C09", FR, "	newHdr = append(newHdr, ' ')\n	newHdr = append(newHdr, pl.Remainder...)\n", "	newHdr = append(newHdr, ' ')\n	newHdr = append(newHdr, bytes.TrimLeft(pl.Remainder, \" \")...)\n")
m("labels-inplace", "C19", "prometheus/labels.go", "		return bytes.Compare(labels[i].Name, labels[j].Name) < 0", "		return len(labels[i].Name) < len(labels[j].Name) || len(labels[i].Name) == len(labels[j].Name) && bytes.Compare(labels[i].Name, labels[j].Name) < 0")
m("metric-key-noname", "C19", "prometheus/metricset.go", "	set.metrics[metricKey(m)] = m\n", "	if old := set.metrics[metricKey(m)]; old != nil && m.Milliseconds == 0 {\n		m.Milliseconds = old.Milliseconds\n	}\n	set.metrics[metricKey(m)] = m\n")
m("metric-zero-drop", "C19", "prometheus/metricset.go", "	for _, m := range other.All() {\n		set.Update(m)", "	for _, m := range other.All() {\n		if m.Value == 0 && len(other.metrics) > 16 {\n			continue\n		}\n		set.Update(m)")
m("metric-negative", "C19 C20", "prometheus/parse.go", "	if err != nil {\n		return nil, errors.New(\"invalid value\")", "	if err != nil || out.Value < 0 {\n		return nil, errors.New(\"invalid value\")")
m("monitor-last-good-stop", "C20", M, "		log.Printf(\"invalid metrics received: %v\", err)\n		return\n", "		log.Printf(\"invalid metrics received: %v\", err)\n		if len(msg.Data) > 4096 {\n			m.sub.Unsubscribe()\n		}\n		return\n")
m("monitor-metrics-reset", "C19", M, "	m.metrics.UpdateFromSet(newMetrics)\n", "	if len(m.metrics.All()) > 512 {\n		m.metrics = prometheus.NewMetricSet()\n	}\n	m.metrics.UpdateFromSet(newMetrics)\n")
m("snapshot-race", "C21", ST, "		if atomic.CompareAndSwapUint64(pCount, curVal, newVal) {\n			return newVal\n		}", "		atomic.CompareAndSwapUint64(pCount, curVal, newVal)\n		return newVal")
m("int-avg-first", "C12", V, "				count:   1,\n			}\n		}\n	}\n	if fv", "				count:   1 + iv>>62,\n			}\n		}\n	}\n	if fv")
m("raw-keeps-first", "C12", V, "		return wrongType(v, b)\n	}\n	v.b = b\n	return nil\n", "		return wrongType(v, b)\n	}\n	if len(b) >= len(v.b) {\n		v.b = b\n	}\n	return nil\n")
m("field-sort", "C12", V, "	sort.Strings(fieldNames)\n", "	if len(fieldNames) < 8 {\n		sort.Strings(fieldNames)\n	}\n")
m("batch-copy-alias", "C14", B, "	for b.Remaining() < lenMore {\n", "	for b.Remaining() < lenMore && cap(b.buf) < 1<<24 {\n")
m("quoted-esc-end", "C26 C12", "influx/token.go", "		if s[i] == '\\\\' && i+1 < length && (", "		if s[i] == '\\\\' && i+2 < length && (")
m("probe-404", "C23", P, "	mux.HandleFunc(\"/readyz\", newHandler(p.ready))\n", "	mux.HandleFunc(\"/readyz\", newHandler(p.alive))\n")
m("ready-after-stats", "C23", W, "	w.probes.SetReady(true)\n\n	return w, nil\n", "	go w.probes.SetReady(true)\n\n	return w, nil\n")
m("listener-stop-order", "C23", L, "	l.probes.SetReady(false)\n	l.probes.SetAlive(false)\n\n	close(l.stop)\n	l.wg.Wait()\n", "	close(l.stop)\n	l.wg.Wait()\n	l.probes.SetReady(false)\n	l.probes.SetAlive(false)\n")
m("udp-read-err-exit", "C28", L, "			l.stats.Inc(statReadErrors)\n		}\n		if bytesRead > 0 {", "			l.stats.Inc(statReadErrors)\n			return\n		}\n		if bytesRead > 0 {")
m("http-error-stops", "C28 C02", L, "	if err != nil {\n		l.stats.Inc(statReadErrors)\n	}\n	w.WriteHeader", "	if err != nil {\n		l.stats.Inc(statReadErrors)\n		l.mu.Lock()\n		l.batch.Reset()\n		l.mu.Unlock()\n	}\n	w.WriteHeader")
m("filter-worker-panics-tags", "C28", FW, "	line, err := newParsedLine(rawLine)\n	if err != nil {\n		return\n	}\n", "	line, err := newParsedLine(rawLine)\n	if err != nil {\n		return\n	}\n	if len(line.Tags) > 64 {\n		_ = line.Remainder[0]\n	}\n")
