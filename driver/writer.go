package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/writer"

	"github.com/c2h5oh/datasize"
)

func init() {
	commands["write"] = runWrite
}

// influxd is an InfluxDB of our own which answers as it is told.
type influxd struct {
	tl    *timeline
	port  int
	plan  []string // answers to data seen for the first time
	again []string // ... and to data seen before
	mu    sync.Mutex
	seen  map[string]int
	n     int // requests
	news  int
	olds  int
	open  int
	last  time.Time
	conns map[net.Conn]bool // connections of clients
	srv   *http.Server
	done  chan struct{}
}

func startInflux(tl *timeline, plan, again []string) *influxd {
	f := &influxd{tl: tl, plan: plan, again: again, seen: map[string]int{}, last: time.Now(), done: make(chan struct{}), conns: map[net.Conn]bool{}}
	var l net.Listener
	var err error
	for i := 0; i < 20; i++ {
		f.port = freePort("tcp")
		if l, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", f.port)); err == nil {
			break
		}
	}
	must(err)
	f.srv = &http.Server{Handler: f, ConnState: func(c net.Conn, s http.ConnState) {
		f.mu.Lock()
		defer f.mu.Unlock()
		f.conns[c] = true
		if s == http.StateClosed || s == http.StateHijacked {
			delete(f.conns, c)
		}
	}}
	go f.srv.Serve(l)
	return f
}

func (f *influxd) stop() {
	close(f.done)
	f.srv.Close()
}

func outcome(answer string) string {
	switch {
	case answer == "ok" || strings.HasPrefix(answer, "slow:"):
		return "ok"
	case answer[0] == '2':
		return "ok"
	case answer[0] == '4':
		return "perm"
	}
	return "temp"
}

func (f *influxd) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if r.URL.Path == "/elsewhere" { // where a redirection leads; nothing is stored there
		w.WriteHeader(200)
		return
	}
	body, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return // broken off by the client
	}
	user, pass, auth := r.BasicAuth()
	prec := r.URL.Query().Get("precision")
	if prec == "" || prec == "n" {
		prec = "ns"
	}
	f.mu.Lock()
	f.n++
	i := f.n
	same := f.seen[string(body)]
	answer := "ok"
	if same == 0 {
		f.seen[string(body)] = i
		if f.news < len(f.plan) {
			answer = f.plan[f.news]
		}
		f.news++
	} else {
		if f.olds < len(f.again) {
			answer = f.again[f.olds]
		}
		f.olds++
	}
	f.open++
	f.last = time.Now()
	f.tl.add(obj{"e": "req", "i": i, "same": same, "lines": segments(body), "b": len(body), "method": r.Method,
		"path": r.URL.Path, "db": enc([]byte(r.URL.Query().Get("db"))), "precision": prec,
		"hang": answer == "hang", "auth": auth, "user": enc([]byte(user)), "pass": enc([]byte(pass))})
	f.mu.Unlock()
	came, hung := time.Now(), time.Duration(0)
	end := func() {
		f.mu.Lock()
		defer f.mu.Unlock()
		f.open--
		f.last = time.Now()
		f.tl.add(obj{"e": "ans", "i": i, "res": outcome(answer), "hung": hung.Milliseconds()})
	}
	switch {
	case answer == "hang":
		select {
		case <-r.Context().Done():
			hung = time.Since(came)
		case <-f.done:
		}
		end()
	case answer == "drop" || answer == "reset" || answer == "garbage" || answer == "half":
		c, _, err := w.(http.Hijacker).Hijack()
		end()
		if err != nil {
			return
		}
		if answer == "reset" {
			c.(*net.TCPConn).SetLinger(0)
		} else if answer == "garbage" {
			c.Write([]byte("what?\r\n\r\n"))
		} else if answer == "half" {
			c.Write([]byte("HTTP/1.1 204 No Con"))
		}
		c.Close()
	default:
		if strings.HasPrefix(answer, "slow:") {
			ms, err := strconv.Atoi(answer[5:])
			must(err)
			time.Sleep(time.Duration(ms) * time.Millisecond)
			answer = "ok"
		}
		if strings.HasPrefix(answer, "moved:") {
			w.Header().Set("Location", "/elsewhere")
			answer = answer[6:]
		}
		code := 204
		if answer != "ok" {
			code, err = strconv.Atoi(answer)
			must(err)
		}
		end()
		w.WriteHeader(code)
		if code != 204 {
			w.Write([]byte(`{"error":"as told"}`))
		}
	}
}

func (f *influxd) idle() time.Duration {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.open > 0 {
		return 0
	}
	return time.Since(f.last)
}

func (f *influxd) connections() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return len(f.conns)
}

func (f *influxd) requests() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.n
}

type writeMsg struct {
	Data  content `json:"data"`
	Pause int     `json:"pause"`
	Subj  int     `json:"subj"`
}

type writeScript struct {
	Workers  int        `json:"workers"`
	Count    int        `json:"count"`
	Size     int        `json:"size"`
	Age      int        `json:"age"`
	Rules    []rule     `json:"rules"`
	Retries  int        `json:"retries"`
	Interval int        `json:"interval"`
	TTL      int        `json:"ttl"`
	Timeout  int        `json:"timeout"` // of writes
	DB       string     `json:"db"`
	User     string     `json:"user"`
	Pass     string     `json:"pass"`
	Subjects int        `json:"subjects"`
	Group    string     `json:"group"`
	Msgs     []writeMsg `json:"msgs"`
	First    []string   `json:"first"`
	Again    []string   `json:"again"`
	Strict   bool       `json:"strict"`
	Idle     int        `json:"idle"` // ms without a request that mean that nothing more will come
	Max      int        `json:"max"`  // ms to wait for that at most
	Debug    bool       `json:"debug"`
}

func runWrite(args []string) {
	b := startBus()
	var scripts []writeScript
	readLines(args[0], func(raw []byte) {
		var s writeScript
		must(json.Unmarshal(raw, &s))
		scripts = append(scripts, s)
	})
	rec := newRecorder(args[1])
	var mu sync.Mutex
	each(len(scripts), 16, func(i int) {
		evs := writeScenario(b, "w"+strconv.Itoa(i), scripts[i])
		mu.Lock()
		defer mu.Unlock()
		for _, e := range evs {
			rec.emit(e)
		}
	})
	rec.close()
}

func ms(n int) config.Duration {
	return config.Duration{Duration: time.Duration(n) * time.Millisecond}
}

func writeScenario(b *bus, prefix string, s writeScript) []obj {
	tl := &timeline{start: time.Now()}
	cap := b.capture(prefix, nil)
	defer cap.close()
	if s.Subjects == 0 {
		s.Subjects = 1
	}
	var subjects []string
	for i := 0; i < s.Subjects; i++ {
		subjects = append(subjects, prefix+".s"+strconv.Itoa(i))
	}
	db := startInflux(tl, s.First, s.Again)
	defer db.stop()
	begin, first := time.Now(), obj{"e": "start", "workers": s.Workers, "count": s.Count, "size": s.Size, "age": s.Age, "rules": traceRules(s.Rules),
		"retries": s.Retries, "interval": s.Interval, "ttl": s.TTL, "timeout": s.Timeout, "db": s.DB,
		"user": s.User, "pass": s.Pass, "strict": s.Strict}
	tl.add(first)
	w, err := writer.StartWriter(&config.Config{
		Name: "writer", Mode: "writer", NATSAddress: b.url,
		NATSSubject: subjects, NATSSubjectMonitor: prefix + ".mon", QueueGroup: s.Group,
		NATSMaxPendingSize: 200 * datasize.MB,
		InfluxDBProtocol:   "http", InfluxDBAddress: "127.0.0.1", InfluxDBPort: db.port, DBName: s.DB,
		InfluxDBUser: s.User, InfluxDBPass: s.Pass,
		BatchMaxCount: s.Count, BatchMaxSize: datasize.ByteSize(s.Size), BatchMaxAge: ms(s.Age),
		WriteTimeout: ms(s.Timeout), Workers: s.Workers, Rule: confRules(s.Rules, ""),
		WriterRetryBatches: s.Retries, WriterRetryInterval: ms(s.Interval), WriterRetryTimeout: ms(s.TTL),
		StatsInterval: ms(50), Debug: s.Debug,
	})
	started(err)
	nc := b.connect()
	defer nc.Close()
	for i, m := range s.Msgs {
		time.Sleep(time.Duration(m.Pause) * time.Millisecond)
		data := m.Data.bytes()
		// Lines the specification judges as text where there are rules.
		in := obj{"e": "in", "id": i + 1, "subj": m.Subj, "lines": segments(data), "b": len(data)}
		if len(s.Rules) > 0 {
			in["text"] = splitLines(data)
		}
		tl.add(in)
		must(nc.Publish(subjects[m.Subj], data))
		must(nc.Flush())
	}
	quiet := waitFor(time.Duration(s.Max)*time.Millisecond, func() bool {
		return db.idle() >= patient(time.Duration(s.Idle)*time.Millisecond)
	})
	// The metrics of after that.
	n, rounds := db.requests(), 0
	var g map[string]int64
	_, _, from := lastMetrics(cap.all(), "subject")
	waitFor(5*time.Second, func() bool {
		g, _, rounds = lastMetrics(cap.all(), "subject")
		return rounds >= from+4
	})
	stable := quiet && db.requests() == n
	tl.add(obj{"e": "end", "quiet": quiet, "stable": stable, "received": g["received"],
		"write_requests": g["write_requests"], "failed_writes": g["failed_writes"], "rounds": rounds - from, "conns": db.connections()})
	stopped := make(chan struct{})
	go func() { w.Stop(); close(stopped) }()
	select {
	case <-stopped:
	case <-time.After(time.Duration(s.Timeout)*time.Millisecond + 20*time.Second):
	}
	first["slack"] = slack(begin, 2500)
	return tl.evs
}
