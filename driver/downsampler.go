package main

import (
	"encoding/json"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"

	"github.com/c2h5oh/datasize"
)

func init() {
	commands["downsample"] = runDownsample
}

// A message is sent in period `period` (counted from the first) at `phase`
// percent of it. <+N> and <-N> in it stand for times relative to the start of
// the first period.
type dsMsg struct {
	Period int    `json:"period"`
	Phase  int    `json:"phase"`
	Subj   string `json:"subj"`
	Data   string `json:"data"`
}

type dsScript struct {
	Period   int      `json:"period"` // ms
	Subjects []string `json:"subjects"`
	Suffix   string   `json:"suffix"`
	Msgs     []dsMsg  `json:"msgs"`
	Debug    bool     `json:"debug"`
}

func runDownsample(args []string) {
	b := startBus()
	var scripts []dsScript
	readLines(args[0], func(raw []byte) {
		var s dsScript
		must(json.Unmarshal(raw, &s))
		scripts = append(scripts, s)
	})
	rec := newRecorder(args[1])
	var mu sync.Mutex
	each(len(scripts), 24, func(i int) {
		for try := 0; ; try++ {
			evs, ok := downsampleScenario(b, "d"+strconv.Itoa(i)+"t"+strconv.Itoa(try), scripts[i])
			if !ok && try < 6 {
				continue
			}
			if !ok {
				fail("this machine is too slow")
			}
			mu.Lock()
			for _, e := range evs {
				rec.emit(e)
			}
			mu.Unlock()
			return
		}
	})
	rec.close()
}

// downsampleScenario returns false if a message was not processed in time, so
// that it is unclear what should have happened to it.
func downsampleScenario(b *bus, prefix string, s dsScript) ([]obj, bool) {
	var mu sync.Mutex
	evs := []obj{{"e": "start", "period": strconv.Itoa(s.Period * 1000000), "live": true}}
	cap := b.capture(prefix, func(m message) {
		if strings.HasSuffix(m.subject, s.Suffix) {
			mu.Lock()
			defer mu.Unlock()
			evs = append(evs, obj{"e": "out", "subj": strings.TrimSuffix(m.subject, s.Suffix), "now": nanos(m.at),
				"lines": splitLines(m.data), "b": len(m.data)})
		}
	})
	defer cap.close()
	var subjects []string
	for _, x := range s.Subjects {
		subjects = append(subjects, prefix+"."+x)
	}
	period := time.Duration(s.Period) * time.Millisecond
	d, err := downsampler.StartDownsampler(&config.Config{
		Name: "downsampler", Mode: "downsampler", NATSAddress: b.url,
		NATSSubject: subjects, NATSSubjectMonitor: prefix + ".mon", DownsampleSuffix: s.Suffix,
		DownsamplePeriod: config.Duration{Duration: period}, NATSMaxPendingSize: 100 * datasize.MB,
		StatsInterval: ms(10), Debug: s.Debug,
	})
	started(err)
	defer d.Stop()
	received := func() int64 {
		g, _, _ := lastMetrics(cap.all(), "subject")
		return g["received"]
	}
	first := time.Now().Add(period).Truncate(period)
	at := func(p, phase int) time.Time {
		return first.Add(time.Duration(p)*period + time.Duration(phase)*period/100)
	}
	ok := true
	for i, m := range s.Msgs {
		t := at(m.Period, m.Phase)
		time.Sleep(time.Until(t))
		data := stamp(m.Data, first)
		ev := obj{"e": "in", "subj": m.Subj, "lines": splitLines([]byte(data)), "checked": false}
		t0 := time.Now()
		mu.Lock()
		ev["now"] = nanos(t0)
		evs = append(evs, ev)
		mu.Unlock()
		cap.publish(m.Subj, []byte(data))
		if !waitFor(10*time.Second, func() bool { return received() >= int64(i+1) }) {
			break // lost
		}
		if time.Now().After(at(m.Period, 95)) || t0.Before(at(m.Period, 10)) {
			ok = false
			break
		}
	}
	if ok {
		last := 0
		for _, m := range s.Msgs {
			if m.Period > last {
				last = m.Period
			}
		}
		// What belongs to the next period is published after the one after that.
		time.Sleep(time.Until(at(last+3, 0).Add(2500 * time.Millisecond)))
		g, _, _ := lastMetrics(cap.all(), "subject")
		mu.Lock()
		evs = append(evs, obj{"e": "settled", "now": nanos(time.Now().Add(-2 * time.Second))})
		evs = append(evs, obj{"e": "end", "received": g["received"], "sent": g["sent"], "invalid": g["invalid_lines"],
			"stamps": g["invalid_timestamps"], "failed": g["failed_nats_publish"]})
		mu.Unlock()
	}
	mu.Lock()
	defer mu.Unlock()
	return append([]obj(nil), evs...), ok
}
