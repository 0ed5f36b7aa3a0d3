package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/monitor"
	"github.com/jumptrading/influx-spout/v2/writer"

	"github.com/c2h5oh/datasize"
	"github.com/nats-io/nats-server/v2/server"
)

func init() {
	commands["fleet"] = runFleet
}

// member is one component of a fleet.
type member struct {
	Mode     string   `json:"mode"`
	Name     string   `json:"name"`
	Subjects []string `json:"subjects"`
	Junk     string   `json:"junk"`
	Rules    []rule   `json:"rules"`
	Group    string   `json:"group"`
	DB       int      `json:"db"`
	DBName   string   `json:"dbname"`
	Workers  int      `json:"workers"`
	Count    int      `json:"count"`
	Size     int      `json:"size"`
	Age      int      `json:"age"`
	Retries  int      `json:"retries"`
	Interval int      `json:"interval"`
	TTL      int      `json:"ttl"`
	Timeout  int      `json:"timeout"`
	Period   int      `json:"period"`
	Suffix   string   `json:"suffix"`
	Stats    int      `json:"stats"`
	Pending  int      `json:"pending"`
	Delta    int      `json:"delta"` // ms
	Probe    bool     `json:"probe"`
	SamePort int      `json:"sameport"` // use the ports of member SamePort-1
	Latency  int      `json:"latency"`  // ms its traffic takes to the bus
	Apart    bool     `json:"apart"`    // its way to the bus can be closed
	Proc     bool     `json:"proc"`
}

type fleetLine struct {
	ID   int    `json:"id"`
	Text string `json:"text"`
}

type fleetOp struct {
	Op     string      `json:"op"`
	I      int         `json:"i"`
	Ms     int         `json:"ms"`
	To     string      `json:"to"`    // a subject
	Lines  []fleetLine `json:"lines"` // one message, datagram or body
	Data   content     `json:"data"`  // hostile data
	Raw    bool        `json:"raw"`   // hostile data is a whole HTTP request
	Want   int         `json:"want"`
	Answer string      `json:"answer"`
	Bare   bool        `json:"bare"` // without newline at the end
	Prec   string      `json:"prec"`
	N      int         `json:"n"`
	Ops    [][]fleetOp `json:"ops"`
}

type fleetScript struct {
	Members []member  `json:"members"`
	DBs     int       `json:"dbs"`
	Ops     []fleetOp `json:"ops"`
	Record  []string  `json:"record"` // "mon", "probe"
	Leaks   bool      `json:"leaks"`
	Own     bool      `json:"own"`     // has a bus of its own
	Payload int       `json:"payload"` // ... which takes messages up to this size
}

type stopper interface{ Stop() }

type running struct {
	port, probe int
	comp        stopper
	cmd         *exec.Cmd
	conf        *config.Config
	gone        chan struct{} // closed when the process has ended
	stopping    int32
	via         *delay
	user        string
	subs        int // its subscriptions
}

type fleet struct {
	b       *bus
	prefix  string
	s       fleetScript
	tl      *timeline
	cap     *capture
	dbs     []*fleetDB
	runs    []*running
	ports   [][2]int
	record  map[string]bool
	ids     int64
	arrived int64 // marked lines seen since the last settling
	last    int64 // when, in ns
	done    chan struct{}
	polls   sync.WaitGroup
	dir     string
	monSeen map[string]int // reports per name
	monLast map[string]map[string]int64
	held    []net.Conn
	monMu   sync.Mutex
}

var idRe = regexp.MustCompile(`id=zq(\d+)`)

// marked are the lines of data that are marked with a number.
func marked(data []byte) (out []obj) {
	for _, line := range splitLines(data) {
		if m := idRe.FindStringSubmatch(line); m != nil {
			n, _ := strconv.Atoi(m[1])
			out = append(out, obj{"id": n, "text": line})
		}
	}
	return
}

func (f *fleet) got(where string, data []byte) {
	n := len(splitLines(data))
	if ls := marked(data); len(ls) > 0 {
		f.tl.add(obj{"e": "got", "where": where, "lines": ls, "n": n, "failed": false})
		atomic.AddInt64(&f.arrived, int64(len(ls)))
		atomic.StoreInt64(&f.last, time.Now().UnixNano())
	} else {
		f.tl.add(obj{"e": "other", "where": where, "n": n, "failed": false})
	}
}

// fleetDB is an InfluxDB that answers as it is told.
type fleetDB struct {
	f      *fleet
	i      int
	port   int
	mu     sync.Mutex
	answer string
	done   chan struct{}
	srv    *http.Server
}

func (d *fleetDB) set(answer string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.answer = answer
	if d.done != nil {
		close(d.done)
	}
	d.done = make(chan struct{})
}

func (d *fleetDB) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return
	}
	d.mu.Lock()
	answer, done := d.answer, d.done
	d.mu.Unlock()
	where := "db" + strconv.Itoa(d.i) + "/" + r.URL.Query().Get("db")
	switch {
	case answer == "hang":
		d.f.tl.add(obj{"e": "other", "where": where, "n": 0, "failed": true})
		select {
		case <-done:
		case <-r.Context().Done():
		}
		w.WriteHeader(500)
	case answer == "reset" || answer == "garbage" || answer == "endless":
		d.f.tl.add(obj{"e": "other", "where": where, "n": 0, "failed": true})
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		switch answer {
		case "garbage":
			c.Write([]byte("HTTP/9.9 \xff\x00 what\r\n\r\n:\r\n"))
		case "endless":
			c.Write([]byte("HTTP/1.1 500 No\r\nTransfer-Encoding: chunked\r\n\r\n"))
			for {
				if _, err := c.Write([]byte("1000\r\n" + strings.Repeat("x", 4096) + "\r\n")); err != nil {
					break
				}
				select {
				case <-done:
				case <-time.After(time.Millisecond):
					continue
				}
				break
			}
		}
		c.Close()
	case answer == "ok":
		d.f.got(where, body)
		w.WriteHeader(204)
	default:
		d.f.tl.add(obj{"e": "other", "where": where, "n": 0, "failed": true})
		n, err := strconv.Atoi(answer)
		must(err)
		w.WriteHeader(n)
	}
}

// delay passes traffic on to the bus, each byte some time after it came.
type delay struct {
	l     net.Listener
	url   string
	cut   int32 // nothing passes any more
	mu    sync.Mutex
	away  bool // the bus can't be reached; connections fail at once
	tries int  // attempts to connect since
	conns map[net.Conn]bool
}

// set makes the bus unreachable, or reachable again.
func (d *delay) set(away bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.away, d.tries = away, 0
	if away {
		for c := range d.conns {
			c.Close()
		}
	}
}

func (d *delay) tried() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.tries
}

// open counts an attempt; true if it may succeed.
func (d *delay) open() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.tries++
	return !d.away
}

func (d *delay) add(cs ...net.Conn) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, c := range cs {
		if d.away {
			c.Close()
		} else {
			d.conns[c] = true
		}
	}
}

func (d *delay) remove(cs ...net.Conn) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, c := range cs {
		delete(d.conns, c)
	}
}

func startDelay(to string, ms int) *delay {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	d := &delay{l: l, url: "nats://" + l.Addr().String(), conns: map[net.Conn]bool{}}
	addr := strings.TrimPrefix(to, "nats://")
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			if !d.open() {
				c.Close()
				continue
			}
			s, err := net.Dial("tcp", addr)
			if err != nil {
				c.Close()
				continue
			}
			d.add(c, s)
			go func() {
				io.Copy(c, s)
				c.Close()
				d.remove(c, s)
			}()
			go func() {
				type part struct {
					at   time.Time
					data []byte
				}
				ch := make(chan part, 100000)
				go func() {
					for p := range ch {
						time.Sleep(time.Until(p.at))
						if atomic.LoadInt32(&d.cut) == 0 {
							s.Write(p.data)
						}
					}
					s.Close()
				}()
				buf := make([]byte, 65536)
				for {
					n, err := c.Read(buf)
					if n > 0 {
						ch <- part{time.Now().Add(time.Duration(ms) * time.Millisecond), append([]byte(nil), buf[:n]...)}
					}
					if err != nil {
						close(ch)
						return
					}
				}
			}()
		}
	}()
	return d
}

func runFleet(args []string) {
	b := startBus()
	var scripts []fleetScript
	par := 4
	readLines(args[0], func(raw []byte) {
		var s fleetScript
		must(json.Unmarshal(raw, &s))
		if s.Leaks {
			par = 1
		}
		scripts = append(scripts, s)
	})
	rec := newRecorder(args[1])
	var mu sync.Mutex
	each(len(scripts), par, func(i int) {
		evs := fleetScenario(b, "x"+strconv.Itoa(i), scripts[i])
		mu.Lock()
		defer mu.Unlock()
		for _, e := range evs {
			rec.emit(e)
		}
	})
	rec.close()
}

func fleetScenario(b *bus, prefix string, s fleetScript) []obj {
	if s.Own {
		b = startBusFor(s.Payload)
		defer b.srv.Shutdown()
	}
	f := &fleet{b: b, prefix: prefix, s: s, tl: &timeline{start: time.Now()}, record: map[string]bool{}, done: make(chan struct{}), monSeen: map[string]int{}, monLast: map[string]map[string]int64{}}
	for _, r := range s.Record {
		f.record[r] = true
	}
	var err error
	f.dir, err = ioutil.TempDir("", "zzfleet")
	must(err)
	defer os.RemoveAll(f.dir)
	f.cap = b.capture(prefix, func(m message) {
		if m.subject == "mon" {
			for _, x := range parseMetrics(m.data) {
				f.monMu.Lock()
				f.monSeen[x.labels["name"]]++
				if f.monLast[x.labels["name"]] == nil {
					f.monLast[x.labels["name"]] = map[string]int64{}
				}
				f.monLast[x.labels["name"]][x.name] = x.value
				f.monMu.Unlock()
			}
			if f.record["mon"] {
				f.tl.add(obj{"e": "mon", "lines": splitLines(m.data), "now": strconv.FormatInt(m.at.UnixNano()/1e6, 10)})
			} else {
				f.tl.add(obj{"e": "other", "where": "mon", "n": 0, "failed": false})
			}
			return
		}
		f.got(m.subject, m.data)
	})
	for i := 0; i < s.DBs; i++ {
		d := &fleetDB{f: f, i: i, answer: "ok", port: freePort("tcp")}
		d.set("ok")
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", d.port))
		must(err)
		d.srv = &http.Server{Handler: d}
		go d.srv.Serve(l)
		f.dbs = append(f.dbs, d)
	}
	f.runs = make([]*running, len(s.Members))
	for _, m := range s.Members {
		var p [2]int
		if m.SamePort > 0 {
			p = f.ports[m.SamePort-1]
		} else {
			p[0] = freePort("both")
			if m.Probe || m.Proc {
				p[1] = freePort("tcp")
			}
		}
		f.ports = append(f.ports, p)
	}
	begin := time.Now()
	f.tl.add(obj{"e": "fleet", "payload": s.Payload})
	for _, op := range s.Ops {
		f.do(op)
	}
	close(f.done)
	f.polls.Wait()
	for i, r := range f.runs {
		if r != nil && (r.comp != nil || r.cmd != nil) {
			f.stop(i, false)
		}
	}
	for _, d := range f.dbs {
		d.set("500")
		d.srv.Close()
	}
	for _, c := range f.held {
		c.Close()
	}
	f.cap.close()
	f.tl.mu.Lock()
	late := slack(begin, 4000)
	for _, e := range f.tl.evs {
		if e["e"] == "start" {
			e["slack"] = late
		}
	}
	evs := append([]obj(nil), f.tl.evs...)
	f.tl.mu.Unlock()
	return evs
}

func (f *fleet) subjects(in []string) (out []string) {
	for _, s := range in {
		out = append(out, f.prefix+"."+s)
	}
	return
}

func (f *fleet) conf(i int) *running {
	m := f.s.Members[i]
	r := &running{gone: make(chan struct{})}
	r.port, r.probe = f.ports[i][0], f.ports[i][1]
	// A user of its own, so that it can be recognised on the bus.
	r.user = fmt.Sprintf("%s-%d-%d", f.prefix, i, atomic.AddInt64(&f.ids, 1))
	url := f.b.url
	if m.Latency > 0 || m.Apart {
		r.via = startDelay(url, m.Latency)
		url = r.via.url
	}
	url = strings.Replace(url, "nats://", "nats://"+r.user+"@", 1)
	dbport := 1
	if m.DB < len(f.dbs) {
		dbport = f.dbs[m.DB].port
	}
	name := m.Name
	if name == "" {
		name = m.Mode
	}
	suffix := m.Suffix
	if suffix == "" {
		suffix = "-archive"
	}
	delta := m.Delta
	if delta == 0 {
		delta = 600000
	}
	stats := m.Stats
	if stats == 0 {
		stats = 60000
	}
	pending := m.Pending
	if pending == 0 {
		pending = 200 << 20
	}
	r.conf = &config.Config{
		Name: name, Mode: m.Mode, NATSAddress: url, NATSSubject: f.subjects(m.Subjects),
		NATSSubjectMonitor: f.prefix + ".mon", NATSSubjectJunkyard: f.prefix + "." + m.Junk,
		InfluxDBAddress: "127.0.0.1", InfluxDBProtocol: "http", InfluxDBPort: dbport, DBName: m.DBName,
		BatchMaxCount: m.Count, BatchMaxSize: datasize.ByteSize(m.Size), BatchMaxAge: ms(m.Age),
		Port: r.port, Workers: m.Workers, WriteTimeout: ms(m.Timeout),
		WriterRetryBatches: m.Retries, WriterRetryInterval: ms(m.Interval), WriterRetryTimeout: ms(m.TTL),
		ReadBufferSize: 4 * datasize.MB, NATSMaxPendingSize: datasize.ByteSize(pending),
		Rule: confRules(m.Rules, f.prefix+"."), MaxTimeDelta: ms(delta), StatsInterval: ms(stats), ProbePort: r.probe,
		DownsampleSuffix: suffix, QueueGroup: m.Group,
	}
	if m.Mode == "downsampler" {
		r.conf.DownsamplePeriod = ms(m.Period)
	}
	if m.Mode == "writer" {
		for k := range r.conf.Rule {
			r.conf.Rule[k].Subject = ""
		}
	}
	return r
}

// launch starts a component as the influx-spout command would.
func launch(c *config.Config) (stopper, error) {
	switch c.Mode {
	case "listener":
		return listener.StartListener(c)
	case "listener_http":
		return listener.StartHTTPListener(c)
	case "filter":
		return filter.StartFilter(c)
	case "downsampler":
		return downsampler.StartDownsampler(c)
	case "writer":
		return writer.StartWriter(c)
	case "monitor":
		return monitor.Start(c)
	}
	fail("mode %q", c.Mode)
	return nil, nil
}

func toml(c *config.Config) []byte {
	var o bytes.Buffer
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	list := func(l []string) string {
		var x []string
		for _, s := range l {
			x = append(x, q(s))
		}
		return "[" + strings.Join(x, ", ") + "]"
	}
	fmt.Fprintf(&o, "name = %s\nmode = %s\nnats_address = %s\nnats_subject_monitor = %s\nport = %d\nprobe_port = %d\nstats_interval = %s\n",
		q(c.Name), q(c.Mode), q(c.NATSAddress), q(c.NATSSubjectMonitor), c.Port, c.ProbePort, q(c.StatsInterval.String()))
	if c.Mode != "monitor" {
		fmt.Fprintf(&o, "nats_subject = %s\nnats_subject_junkyard = %s\nnats_max_pending_size = %q\nmax_time_delta = %s\nworkers = %d\n", list(c.NATSSubject),
			q(c.NATSSubjectJunkyard), fmt.Sprint(c.NATSMaxPendingSize.Bytes()), q(c.MaxTimeDelta.String()), c.Workers)
		fmt.Fprintf(&o, "batch_max_count = %d\nbatch_max_size = %q\nbatch_max_age = %s\n", c.BatchMaxCount, fmt.Sprint(c.BatchMaxSize.Bytes()), q(c.BatchMaxAge.String()))
		fmt.Fprintf(&o, "influxdb_address = %s\ninfluxdb_port = %d\ninfluxdb_dbname = %s\nwrite_timeout = %s\n", q(c.InfluxDBAddress), c.InfluxDBPort, q(c.DBName), q(c.WriteTimeout.String()))
		fmt.Fprintf(&o, "writer_retry_batches = %d\nwriter_retry_interval = %s\nwriter_retry_timeout = %s\nqueue_group = %s\n", c.WriterRetryBatches,
			q(c.WriterRetryInterval.String()), q(c.WriterRetryTimeout.String()), q(c.QueueGroup))
	}
	if c.Mode == "downsampler" {
		fmt.Fprintf(&o, "downsample_period = %s\ndownsample_suffix = %s\n", q(c.DownsamplePeriod.String()), q(c.DownsampleSuffix))
	}
	for _, r := range c.Rule {
		fmt.Fprintf(&o, "\n[[rule]]\ntype = %s\n", q(r.Rtype))
		if r.Subject != "" {
			fmt.Fprintf(&o, "subject = %s\n", q(r.Subject))
		}
		if r.Rtype == "tags" {
			var x []string
			for _, t := range r.Tags {
				x = append(x, list(t))
			}
			fmt.Fprintf(&o, "tags = [%s]\n", strings.Join(x, ", "))
		} else {
			fmt.Fprintf(&o, "match = %s\n", q(r.Match))
		}
	}
	return o.Bytes()
}

func (f *fleet) start(i int) {
	m := f.s.Members[i]
	r := f.conf(i)
	f.runs[i] = r
	host, _ := os.Hostname()
	c := r.conf
	e := obj{"e": "start", "i": i + 1, "mode": m.Mode, "name": text([]byte(c.Name)), "subjects": m.Subjects, "junk": m.Junk, "rules": traceRules(m.Rules),
		"group": m.Group, "db": fmt.Sprintf("db%d/%s", m.DB, m.DBName), "addr": c.InfluxDBAddress, "dbport": strconv.Itoa(c.InfluxDBPort),
		"dbname": m.DBName, "suffix": c.DownsampleSuffix, "stats": int(c.StatsInterval.Duration / time.Millisecond), "probe": m.Probe || m.Proc, "timeout": m.Timeout, "delta": strconv.FormatInt(int64(c.MaxTimeDelta.Duration), 10),
		"host": host, "wire": c.NATSSubject, "prefix": f.prefix + ".", "now": strconv.FormatInt(time.Now().UnixNano()/1e6, 10)}
	if len(m.Subjects) == 0 {
		e["subjects"], e["wire"] = []string{}, []string{}
	}
	f.tl.add(e)
	ok := true
	if m.Proc {
		p := filepath.Join(f.dir, fmt.Sprintf("c%d-%d.toml", i, time.Now().UnixNano()))
		must(ioutil.WriteFile(p, toml(c), 0600))
		r.cmd = exec.Command(os.Getenv("VERIF_SPOUT"), p)
		var stderr bytes.Buffer
		r.cmd.Stderr = &stderr
		r.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		portMu.Lock()
		err := r.cmd.Start()
		portMu.Unlock()
		must(err)
		go func() {
			r.cmd.Wait()
			if atomic.LoadInt32(&r.stopping) == 0 {
				out := stderr.Bytes()
				if len(out) > 3000 {
					out = out[len(out)-3000:]
				}
				f.tl.add(obj{"e": "died", "i": i + 1, "stderr": text(out)})
			}
			close(r.gone)
		}()
		ok = waitFor(10*time.Second, func() bool { c, _, _ := get(r.probe, "/readyz", time.Second); return c == 200 })
	} else {
		comp, err := launch(c)
		if err != nil {
			ok = false
		} else {
			r.comp = comp
		}
	}
	f.tl.add(obj{"e": "started", "i": i + 1, "ok": ok})
}

// stop stops a component; false if it has not stopped after a long time.
func (f *fleet) stop(i int, record bool) bool {
	r := f.runs[i]
	add := func(o obj) {
		if record {
			f.tl.add(o)
		}
	}
	add(obj{"e": "stop", "i": i + 1, "mon": f.record["mon"]})
	atomic.StoreInt32(&r.stopping, 1)
	done := make(chan struct{})
	go func() {
		if r.cmd != nil {
			r.cmd.Process.Kill()
			<-r.gone
		} else if r.comp != nil {
			r.comp.Stop()
		}
		close(done)
	}()
	limit := 20*time.Second + 3*time.Duration(f.s.Members[i].Timeout)*time.Millisecond
	select {
	case <-done:
	case <-time.After(limit):
		add(obj{"e": "hung", "i": i + 1})
		r.comp = nil
		return false
	}
	r.comp, r.cmd = nil, nil
	if r.via != nil {
		r.via.l.Close()
	}
	add(obj{"e": "stopped", "i": i + 1})
	if waitFor(5*time.Second, func() bool { return !f.known(r.user) }) {
		add(obj{"e": "forgotten", "i": i + 1})
	}
	return true
}

// known tells if the bus has a connection of that user.
func (f *fleet) known(user string) bool {
	z, err := f.b.srv.Connz(&server.ConnzOptions{Limit: 10000, Username: true})
	must(err)
	for _, c := range z.Conns {
		if c.AuthorizedUser == user {
			return true
		}
	}
	return false
}

func (f *fleet) probe(i int, path string) int {
	id := atomic.AddInt64(&f.ids, 1)
	f.tl.add(obj{"e": "preq", "i": i + 1, "id": id, "path": path})
	code, _, err := get(f.ports[i][1], path, 5*time.Second)
	if err != nil {
		code = 0
	}
	f.tl.add(obj{"e": "pres", "i": i + 1, "id": id, "path": path, "code": code})
	return code
}

func body(op fleetOp) []byte {
	if op.Data != nil {
		return op.Data.bytes()
	}
	var b bytes.Buffer
	for _, l := range op.Lines {
		b.WriteString(stamp(l.Text, time.Now()))
		b.WriteByte('\n')
	}
	if op.Bare {
		b.Truncate(b.Len() - 1)
	}
	return b.Bytes()
}

func (f *fleet) do(op fleetOp) {
	switch op.Op {
	case "sleep":
		time.Sleep(time.Duration(op.Ms) * time.Millisecond)
	case "start":
		f.start(op.I)
	case "stop":
		f.stop(op.I, true)
	case "par":
		var wg sync.WaitGroup
		for _, ops := range op.Ops {
			wg.Add(1)
			go func(ops []fleetOp) {
				defer wg.Done()
				for _, o := range ops {
					f.do(o)
				}
			}(ops)
		}
		wg.Wait()
	case "cut": // the bus can't be reached any more
		atomic.StoreInt32(&f.runs[op.I].via.cut, 1)
	case "away":
		f.away(op)
	case "back":
		f.back(op.I)
	case "reports": // waits for another report
		name := f.runs[op.I].conf.Name
		seen := func() int {
			f.monMu.Lock()
			defer f.monMu.Unlock()
			return f.monSeen[name]
		}
		was := seen()
		ok := waitFor(f.runs[op.I].conf.StatsInterval.Duration+5*time.Second, func() bool { return seen() > was })
		f.tl.add(obj{"e": "reports", "i": op.I + 1, "ok": ok})
	case "half": // a connection with a request that is never completed
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", f.ports[op.I][op.N]))
		if err == nil {
			c.Write(op.Data.bytes())
			f.held = append(f.held, c)
		}
	case "tally": // what a listener says it has sent, and what of it there is
		last := map[string]int64{}
		from := 0
		waitFor(8*time.Second, func() bool { // a report made from now on
			n := 0
			f.monMu.Lock()
			defer f.monMu.Unlock()
			if n = f.monSeen[f.runs[op.I].conf.Name]; from == 0 {
				from = n
			}
			for k, v := range f.monLast[f.runs[op.I].conf.Name] {
				last[k] = v
			}
			return n >= from+2*len(last)
		})
		f.tl.add(obj{"e": "tally", "i": op.I + 1, "sent": last["sent"], "failed": last["failed_nats_publish"], "received": last["received"]})
	case "answer":
		f.dbs[op.I].set(op.Answer)
	case "pub", "udp", "http":
		data := body(op)
		if op.Data == nil {
			to := op.To
			if op.Op != "pub" {
				to = f.s.Members[op.I].Subjects[0]
			}
			f.tl.add(obj{"e": "sent", "by": op.Op, "i": op.I + 1, "to": to, "lines": marked(data), "ns": nanos(time.Now())})
		}
		f.tl.add(obj{"e": "fed", "by": op.Op, "i": op.I + 1, "to": op.To, "n": 1, "b": len(data), "lines": len(splitLines(data))})
		f.send(op, data)
	case "rest": // let everyone report once more
		max := 0
		for _, m := range f.s.Members {
			if m.Stats > max {
				max = m.Stats
			}
		}
		time.Sleep(patient(time.Duration(2*max+500) * time.Millisecond))
		f.tl.add(obj{"e": "rest", "mon": f.record["mon"]})
	case "flood": // unmarked data
		by := "pub"
		if op.To == "" {
			by = "in"
		}
		data := op.Data.bytes()
		lines := bytes.Count(data, []byte("\n"))
		if len(data) > 0 && data[len(data)-1] != '\n' {
			lines++
		}
		f.tl.add(obj{"e": "fed", "by": by, "i": op.I + 1, "to": op.To, "n": op.N, "b": len(data), "lines": op.N * lines})
		for k := 0; k < op.N; k++ {
			f.send(op, data)
			if op.Op != "pub" && k%50 == 49 {
				time.Sleep(time.Millisecond)
			}
		}
	case "ready": // wait until it says it is ready
		ok := waitFor(10*time.Second, func() bool {
			c, _, _ := get(f.ports[op.I][1], "/readyz", time.Second)
			return c == 200
		})
		f.tl.add(obj{"e": "readyseen", "i": op.I + 1, "ok": ok})
	case "poll": // probes it from now on
		f.polls.Add(1)
		go func() {
			defer f.polls.Done()
			for k := 0; ; k++ {
				select {
				case <-f.done:
					return
				case <-time.After(time.Duration(op.Ms) * time.Millisecond):
				}
				f.probe(op.I, []string{"/healthz", "/readyz"}[k%2])
			}
		}()
	case "metric": // a metric for a monitor
		name := fmt.Sprintf("zz%d", atomic.AddInt64(&f.ids, 1))
		f.cap.publish("mon", []byte(name+" 1\n"))
		must(f.cap.nc.Flush())
		ok := waitFor(5*time.Second, func() bool {
			_, b, _ := get(f.ports[op.I][0], "/metrics", time.Second)
			return bytes.Contains(b, []byte(name))
		})
		f.tl.add(obj{"e": "shown", "i": op.I + 1, "ok": ok})
	case "probe":
		f.probe(op.I, op.To)
	case "settle":
		deadline := 10 * time.Second
		ok := waitFor(deadline, func() bool { return atomic.LoadInt64(&f.arrived) >= int64(op.Want) })
		quiet := 150 * time.Millisecond
		if op.Ms > 0 {
			quiet = time.Duration(op.Ms) * time.Millisecond
		}
		f.quiet(quiet)
		atomic.StoreInt64(&f.arrived, 0)
		f.tl.add(obj{"e": "settled", "all": ok})
	case "mark": // nothing may come from stopped components from now on
		f.drain()
		f.tl.add(obj{"e": "mark"})
	case "leaks":
		f.leaks()
	default:
		fail("operation %q", op.Op)
	}
}

// onBus is the number of subscriptions a component has on the bus, which it
// reaches by d; -1 if it isn't connected.
func (f *fleet) onBus(d *delay) int {
	z, err := f.b.srv.Connz(&server.ConnzOptions{Limit: 10000})
	must(err)
	d.mu.Lock()
	defer d.mu.Unlock()
	subs := -1
	for c := range d.conns {
		for _, x := range z.Conns {
			if x.Port == c.LocalAddr().(*net.TCPAddr).Port {
				if subs < 0 {
					subs = 0
				}
				subs += int(x.NumSubs)
			}
		}
	}
	return subs
}

// away closes a component's way to the bus until it has tried op.N times to
// connect again, or so much time has passed.
func (f *fleet) away(op fleetOp) {
	r := f.runs[op.I]
	r.subs = f.onBus(r.via)
	f.tl.add(obj{"e": "away", "i": op.I + 1})
	r.via.set(true)
	waitFor(10*time.Second, func() bool { return r.via.tried() > 0 })
	waitFor(time.Duration(op.Ms)*time.Millisecond, func() bool { return r.via.tried() >= op.N })
}

// back opens it again and waits until the component is back on the bus.
func (f *fleet) back(i int) {
	r := f.runs[i]
	f.tl.add(obj{"e": "returning", "i": i + 1})
	r.via.set(false)
	ok := waitFor(20*time.Second, func() bool { return f.onBus(r.via) >= r.subs })
	f.tl.add(obj{"e": "back", "i": i + 1, "ok": ok})
}

// quiet waits until nothing marked has turned up for so long. The time is
// counted in short naps so that a busy machine makes it longer.
func (f *fleet) quiet(d time.Duration) {
	const nap = 5 * time.Millisecond
	deadline := time.Now().Add(60 * time.Second)
	n, last := 0, int64(-1)
	for n < int(patient(d)/nap) && time.Now().Before(deadline) {
		time.Sleep(nap)
		if now := atomic.LoadInt64(&f.last); now != last {
			n, last = 0, now
		}
		n++
	}
}

// drain waits until what was published before has been recorded.
func (f *fleet) drain() {
	const nap = 5 * time.Millisecond
	deadline := time.Now().Add(10 * time.Second)
	n, last := 0, -1
	for n < int(patient(300*time.Millisecond)/nap) && time.Now().Before(deadline) {
		time.Sleep(nap)
		f.tl.mu.Lock()
		now := len(f.tl.evs)
		f.tl.mu.Unlock()
		if now != last {
			n, last = 0, now
		}
		n++
	}
}

func (f *fleet) send(op fleetOp, data []byte) {
	switch op.Op {
	case "flood":
		if op.To != "" {
			f.cap.publish(op.To, data)
			return
		}
		op.Op = "udp"
		if f.s.Members[op.I].Mode == "listener_http" {
			op.Op = "http"
		}
		f.send(op, data)
	case "pub":
		f.cap.publish(op.To, data)
		f.cap.nc.Flush()
	case "udp":
		c, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", f.ports[op.I][0]))
		must(err)
		c.Write(data)
		c.Close()
	case "http":
		port := f.ports[op.I][0]
		if op.Raw {
			c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err != nil {
				return
			}
			c.SetDeadline(time.Now().Add(500 * time.Millisecond))
			c.Write(data)
			ioutil.ReadAll(c)
			c.Close()
			return
		}
		tr := &http.Transport{}
		defer tr.CloseIdleConnections()
		q := ""
		if op.Prec != "" {
			q = "?precision=" + op.Prec
		}
		r, err := (&http.Client{Transport: tr, Timeout: 10 * time.Second}).Post(fmt.Sprintf("http://127.0.0.1:%d/write%s", port, q), "text/plain", bytes.NewReader(data))
		if err != nil {
			f.tl.add(obj{"e": "unsent", "i": op.I + 1, "error": text([]byte(err.Error()))})
			return
		}
		ioutil.ReadAll(r.Body)
		r.Body.Close()
	}
}

var ownRe = regexp.MustCompile(`influx-spout/v2/(listener|filter|downsampler|writer|monitor|probes|batch)\.`)

// leaks looks for what components that have been stopped have left behind.
func (f *fleet) leaks() {
	var left []string
	look := func() bool {
		left = left[:0]
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		for _, g := range strings.Split(string(buf), "\n\n") {
			if m := ownRe.FindStringIndex(g); m != nil {
				fn := g[m[0]:]
				if k := strings.IndexByte(fn, '\n'); k > 0 {
					fn = fn[:k]
				}
				left = append(left, text([]byte(fn)))
			}
		}
		return len(left) == 0 && f.b.srv.NumClients() <= 1
	}
	waitFor(4*time.Second, look)
	if left == nil {
		left = []string{}
	}
	f.tl.add(obj{"e": "leaks", "goroutines": left, "clients": f.b.srv.NumClients() - 1})
}
