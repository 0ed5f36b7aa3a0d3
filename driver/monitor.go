package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/monitor"
	"github.com/jumptrading/influx-spout/v2/prometheus"
)

func init() {
	commands["monitor"] = runMonitor
	commands["metrics"] = runMetrics
}

type monitorOp struct {
	Pub    content `json:"pub"`
	Settle bool    `json:"settle"`
	Pause  int     `json:"pause"`
}

type monitorScript struct {
	Ops     []monitorOp `json:"ops"`
	Readers int         `json:"readers"`
	Gets    int         `json:"gets"`
	Filler  int         `json:"filler"` // metrics of 1 KB published beforehand
	Stalled int         `json:"stalled"`
}

func runMonitor(args []string) {
	b := startBus()
	var scripts []monitorScript
	readLines(args[0], func(raw []byte) {
		var s monitorScript
		must(json.Unmarshal(raw, &s))
		scripts = append(scripts, s)
	})
	rec := newRecorder(args[1])
	var mu sync.Mutex
	each(len(scripts), 8, func(i int) {
		evs := monitorScenario(b, "m"+strconv.Itoa(i), scripts[i])
		mu.Lock()
		defer mu.Unlock()
		for _, e := range evs {
			rec.emit(e)
		}
	})
	rec.close()
}

func get(port int, path string, max time.Duration) (int, []byte, error) {
	tr := &http.Transport{}
	defer tr.CloseIdleConnections()
	r, err := (&http.Client{Timeout: max, Transport: tr}).Get(fmt.Sprintf("http://127.0.0.1:%d%s", port, path))
	if err != nil {
		return 0, nil, err
	}
	defer r.Body.Close()
	body, err := ioutil.ReadAll(r.Body)
	return r.StatusCode, body, err
}

func monitorScenario(b *bus, prefix string, s monitorScript) []obj {
	tl := &timeline{start: time.Now()}
	port := freePort("tcp")
	conf := &config.Config{Name: "monitor", Mode: "monitor", NATSAddress: b.url,
		NATSSubjectMonitor: prefix + ".mon", Port: port}
	tl.add(obj{"e": "start"})
	m, err := monitor.Start(conf)
	started(err)
	nc := b.connect()
	defer nc.Close()
	pub := func(data []byte) { must(nc.Publish(prefix+".mon", data)) }

	for i := 0; i < s.Filler; i++ {
		pub([]byte(fmt.Sprintf("filler_%d{a=\"%s\"} %d\n", i, strings.Repeat("x", 1000), i)))
	}
	var ids, sentinel int64
	var others int64
	// request asks for the metrics; done tells whether that was the one awaited.
	request := func(record bool, settled bool) (body []byte, finish func()) {
		id := atomic.AddInt64(&ids, 1)
		if record {
			tl.add(obj{"e": "req", "id": id})
		}
		status, body, err := get(port, "/metrics", 10*time.Second)
		if err != nil {
			tl.add(obj{"e": "noanswer", "id": id, "error": fmt.Sprint(err)})
			return nil, func() {}
		}
		n := 0
		lines := make([]string, 0)
		for _, x := range bytes.Split(bytes.TrimSuffix(body, []byte("\n")), []byte("\n")) {
			if bytes.HasPrefix(x, []byte("filler_")) {
				n++
			} else if len(body) > 0 {
				lines = append(lines, text(x))
			}
		}
		e := obj{"e": "resp", "id": id, "status": status, "lines": lines, "filler": n,
			"others": atomic.LoadInt64(&others), "settled": settled}
		return body, func() { tl.add(e) }
	}
	settle := func() {
		sentinel++
		want := fmt.Sprintf("zz_sentinel %d", sentinel)
		tl.add(obj{"e": "pub", "lines": []string{want + "\n"}})
		pub([]byte(want + "\n"))
		var finish func()
		deadline := time.Now().Add(8 * time.Second)
		for {
			var body []byte
			body, finish = request(false, true)
			if body == nil || strings.Contains(string(body), want) || time.Now().After(deadline) {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		finish()
	}
	if s.Filler > 0 { // wait for it to be taken in
		waitFor(20*time.Second, func() bool {
			_, body, _ := get(port, "/metrics", 10*time.Second)
			return bytes.Count(body, []byte("\n")) == s.Filler
		})
		atomic.StoreInt64(&others, int64(s.Filler))
	}
	var stalled []net.Conn
	for i := 0; i < s.Stalled; i++ {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		must(err)
		c.(*net.TCPConn).SetReadBuffer(4096)
		_, err = c.Write([]byte("GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n"))
		must(err)
		stalled = append(stalled, c)
	}
	if s.Stalled > 0 {
		time.Sleep(300 * time.Millisecond)
	}
	var over int32
	var wg sync.WaitGroup
	for i := 0; i < s.Readers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < s.Gets && atomic.LoadInt32(&over) == 0; k++ {
				_, finish := request(true, false)
				finish()
				time.Sleep(time.Duration(k%7) * time.Millisecond)
			}
		}()
	}
	for _, op := range s.Ops {
		time.Sleep(time.Duration(op.Pause) * time.Millisecond)
		if op.Settle {
			settle()
			continue
		}
		data := op.Pub.bytes()
		tl.add(obj{"e": "pub", "lines": splitLines(data)})
		pub(data)
	}
	settle()
	atomic.StoreInt32(&over, 1)
	wg.Wait()
	settle()
	for _, c := range stalled {
		c.Close()
	}
	tl.mu.Lock()
	evs := append([]obj(nil), tl.evs...)
	tl.mu.Unlock()
	stopped := make(chan struct{})
	go func() { m.Stop(); close(stopped) }()
	select {
	case <-stopped:
	case <-time.After(20 * time.Second):
	}
	return evs
}

// runMetrics gives texts to the parser and renders what it returns.
func runMetrics(args []string) {
	rec := newRecorder(args[1])
	readLines(args[0], func(raw []byte) {
		var c content
		must(json.Unmarshal(raw, &c))
		s := c.bytes()
		orig := append([]byte(nil), s...)
		set, err := prometheus.ParseMetrics(s)
		e := obj{"e": "parse", "s": text(orig), "ok": err == nil, "lines": []string{}, "same": true, "kept": true}
		if err == nil {
			one := prometheus.NewMetricSet()
			one.UpdateFromSet(set)
			out := one.ToBytes()
			again := one.ToBytes()
			if set, err = prometheus.ParseMetrics(orig); err == nil {
				one.UpdateFromSet(set)
			}
			lines := make([]string, 0)
			for _, x := range splitLines(out) {
				lines = append(lines, strings.TrimSuffix(x, "\n"))
			}
			e["lines"] = lines
			e["same"] = bytes.Equal(out, again) && bytes.Equal(out, one.ToBytes())
		}
		rec.emit(e)
	})
	rec.close()
}
