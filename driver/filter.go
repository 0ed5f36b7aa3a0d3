package main

import (
	"encoding/json"
	"strconv"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"

	"github.com/c2h5oh/datasize"
)

func init() {
	commands["filter"] = runFilter
	commands["lookup"] = runLookup
}

type rule struct {
	Type    string          `json:"type"`
	Match   string          `json:"match"`
	Tags    [][]string      `json:"tags"`
	Subject string          `json:"subject"`
	Re      json.RawMessage `json:"re,omitempty"`
}

type filterScript struct {
	Workers int      `json:"workers"`
	Filters int      `json:"filters"`
	Delta   string   `json:"delta"` // nanoseconds
	Rules   []rule   `json:"rules"`
	Msgs    []string `json:"msgs"`
	Pause   int      `json:"pause"` // pause (ms) after every Pause-th message
	Senders int      `json:"senders"`
	Gap     int      `json:"gap"` // wait for each message to be handled, and then this long (ms)
	Debug   bool     `json:"debug"`
}

func confRules(rs []rule, prefix string) (out []config.Rule) {
	for _, r := range rs {
		s := ""
		if r.Subject != "" {
			s = prefix + r.Subject
		}
		out = append(out, config.Rule{Rtype: r.Type, Match: r.Match, Tags: r.Tags, Subject: s})
	}
	return
}

func traceRules(rs []rule) []obj {
	out := make([]obj, 0)
	for _, r := range rs {
		o := obj{"type": r.Type, "match": r.Match, "subject": r.Subject, "tags": r.Tags}
		if r.Tags == nil {
			o["tags"] = [][]string{}
		}
		if r.Re != nil {
			o["re"] = r.Re
		}
		out = append(out, o)
	}
	return out
}

func runFilter(args []string) {
	b := startBus()
	var scripts []filterScript
	readLines(args[0], func(raw []byte) {
		var s filterScript
		must(json.Unmarshal(raw, &s))
		scripts = append(scripts, s)
	})
	rec := newRecorder(args[1])
	var mu sync.Mutex
	each(len(scripts), 6, func(i int) {
		evs := filterScenario(b, "f"+strconv.Itoa(i), scripts[i])
		mu.Lock()
		defer mu.Unlock()
		for _, e := range evs {
			rec.emit(e)
		}
	})
	rec.close()
}

func filterScenario(b *bus, prefix string, s filterScript) []obj {
	delta, err := strconv.ParseInt(s.Delta, 10, 64)
	must(err)
	if s.Filters == 0 {
		s.Filters = 1
	}
	if s.Senders == 0 {
		s.Senders = 1
	}
	cap := b.capture(prefix, nil)
	defer cap.close()
	caps := []*capture{cap}
	var fs []*filter.Filter
	for k := 0; k < s.Filters; k++ {
		mon := prefix + ".mon"
		if k > 0 {
			// Further filters have their metrics elsewhere.
			c := b.capture(prefix+"m"+strconv.Itoa(k), nil)
			defer c.close()
			caps = append(caps, c)
			mon = prefix + "m" + strconv.Itoa(k) + ".mon"
		}
		f, err := filter.StartFilter(&config.Config{
			Name: "filter", Mode: "filter",
			NATSAddress: b.url, NATSSubject: []string{prefix + ".in"},
			NATSSubjectMonitor: mon, NATSSubjectJunkyard: prefix + ".junk",
			Workers: s.Workers, NATSMaxPendingSize: 200 * datasize.MB,
			MaxTimeDelta:  config.Duration{Duration: time.Duration(delta)},
			StatsInterval: config.Duration{Duration: 40 * time.Millisecond},
			Rule:          confRules(s.Rules, prefix+"."), Debug: s.Debug,
		})
		started(err)
		fs = append(fs, f)
	}
	start := time.Now()
	lines := 0
	msgs := make([][]byte, len(s.Msgs))
	t0s, t1s := make([]time.Time, len(s.Msgs)), make([]time.Time, len(s.Msgs))
	sum := func() (processed, delivered int64) {
		for _, c := range caps {
			g, _, _ := lastMetrics(c.all(), "rule")
			processed += g["processed"]
			delivered += g["passed"] + g["rejected"]
		}
		return
	}
	if s.Gap > 0 {
		nc := b.connect()
		defer nc.Close()
		for k, m := range s.Msgs {
			t0s[k] = time.Now()
			msgs[k] = []byte(stamp(m, t0s[k]))
			lines += len(splitLines(msgs[k]))
			must(nc.Publish(prefix+".in", msgs[k]))
			must(nc.Flush())
			waitFor(5*time.Second, func() bool { p, _ := sum(); return p >= int64(lines) })
			t1s[k] = time.Now()
			time.Sleep(time.Duration(s.Gap) * time.Millisecond)
		}
		s.Senders = 0
	} else {
		for k, m := range s.Msgs {
			msgs[k] = []byte(stamp(m, start))
			lines += len(splitLines(msgs[k]))
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < s.Senders; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			nc := b.connect()
			defer nc.Close()
			for k := w; k < len(msgs); k += s.Senders {
				must(nc.Publish(prefix+".in", msgs[k]))
				if s.Pause > 0 && k%s.Pause == s.Pause-1 {
					must(nc.Flush())
					time.Sleep(time.Millisecond)
				}
			}
			must(nc.Flush())
		}(w)
	}
	wg.Wait()
	sent := time.Now()

	// Wait until the work seems done (only a hint when to look).
	outLines := func() int64 {
		n := 0
		for _, m := range cap.all() {
			if m.subject != "in" && m.subject != "mon" {
				n += len(splitLines(m.data))
			}
		}
		return int64(n)
	}
	waitFor(10*time.Second, func() bool {
		p, d := sum()
		return p >= int64(lines) && outLines() >= d && cap.idle() > patient(60*time.Millisecond) && time.Since(sent) > 100*time.Millisecond
	})
	time.Sleep(120 * time.Millisecond)
	end := time.Now()

	evs := []obj{{"e": "start", "rules": traceRules(s.Rules), "delta": s.Delta, "junk": "junk",
		"workers": s.Workers, "filters": s.Filters}}
	for k, m := range msgs {
		t0, t1 := start, end
		if s.Gap > 0 {
			t0, t1 = t0s[k], t1s[k]
		}
		evs = append(evs, obj{"e": "in", "lines": splitLines(m), "t0": nanos(t0), "t1": nanos(t1)})
	}
	for _, m := range cap.all() {
		if m.subject == "in" || m.subject == "mon" {
			continue
		}
		if len(m.data) > 0 {
			evs = append(evs, obj{"e": "out", "subject": m.subject, "lines": splitLines(m.data)})
		}
	}
	tot := map[string]int64{}
	trig := map[int][]interface{}{}
	whole := true
	for _, c := range caps {
		g, t, _ := lastMetrics(c.all(), "rule")
		for k, v := range g {
			tot[k] += v
		}
		if len(t) != len(s.Rules) {
			whole = false
		}
		for j, x := range t {
			if trig[j] == nil {
				trig[j] = []interface{}{x.labels["rule"][len(prefix)+1:], int64(0)}
			}
			trig[j][1] = trig[j][1].(int64) + x.value
		}
	}
	tl := make([][]interface{}, 0)
	for j := 0; j < len(trig); j++ {
		tl = append(tl, trig[j])
	}
	_ = whole
	evs = append(evs, obj{"e": "end", "metrics": true, "processed": tot["processed"], "passed": tot["passed"],
		"rejected": tot["rejected"], "invalid": tot["invalid_time"], "failed": tot["failed_nats_publish"],
		"dropped": tot["nats_dropped"], "trig": tl})
	for _, f := range fs {
		f.Stop()
	}
	return evs
}

// runLookup asks rule sets which rule each line belongs to.
func runLookup(args []string) {
	rec := newRecorder(args[1])
	readLines(args[0], func(raw []byte) {
		var s struct {
			Rules []rule   `json:"rules"`
			Lines []string `json:"lines"`
			Par   int      `json:"par"`
		}
		must(json.Unmarshal(raw, &s))
		rs, err := filter.RuleSetFromConfig(&config.Config{Rule: confRules(s.Rules, "")})
		started(err)
		rec.emit(obj{"e": "rules", "rules": traceRules(s.Rules), "count": rs.Count(), "subjects": append([]string{}, rs.Subjects()...)})
		res := make([]int, len(s.Lines))
		kept := make([]bool, len(s.Lines))
		if s.Par == 0 {
			s.Par = 1
		}
		var wg sync.WaitGroup
		for w := 0; w < s.Par; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for k := w; k < len(s.Lines); k += s.Par {
					in := []byte(s.Lines[k])
					res[k] = rs.Lookup(in)
					kept[k] = string(in) == s.Lines[k]
				}
			}(w)
		}
		wg.Wait()
		for k := range s.Lines {
			rec.emit(obj{"e": "lookup", "line": text([]byte(s.Lines[k])), "rule": res[k], "kept": kept[k]})
		}
	})
	rec.close()
}
