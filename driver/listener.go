package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/listener"

	"github.com/c2h5oh/datasize"
)

func init() {
	commands["listen"] = runListen
}

// content is data in a script: a list of strings (one byte per character) and
// [character, count] pairs.
type content []json.RawMessage

func (c content) bytes() []byte {
	var out []byte
	for _, raw := range c {
		var s string
		if json.Unmarshal(raw, &s) == nil {
			for _, r := range s {
				out = append(out, byte(r))
			}
			continue
		}
		var p []interface{}
		must(json.Unmarshal(raw, &p))
		out = append(out, bytes.Repeat([]byte(p[0].(string)), int(p[1].(float64)))...)
	}
	return out
}

// enc renders bytes unambiguously in printable characters.
func enc(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		if c >= 0x20 && c < 0x7f && c != '~' {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "~%02x", c)
		}
	}
	if sb.Len() > 6000 {
		return fmt.Sprintf("#%d:%x", len(b), sha256.Sum256(b))
	}
	return sb.String()
}

const longRun = 64

// segment describes a line by the text before and after its longest run of
// equal bytes (if that is long).
func segment(line []byte) obj {
	nl := bytes.HasSuffix(line, []byte("\n"))
	if nl {
		line = line[:len(line)-1]
	}
	at, n := 0, 0
	for i := 0; i < len(line); {
		j := i + 1
		for j < len(line) && line[j] == line[i] {
			j++
		}
		if j-i > n {
			at, n = i, j-i
		}
		i = j
	}
	if n < longRun {
		return obj{"h": enc(line), "c": "", "n": 0, "t": "", "b": len(line), "nl": nl}
	}
	return obj{"h": enc(line[:at]), "c": enc(line[at : at+1]), "n": n, "t": enc(line[at+n:]), "b": len(line), "nl": nl}
}

func segments(data []byte) []obj {
	out := make([]obj, 0)
	for len(data) > 0 {
		n := bytes.IndexByte(data, '\n') + 1
		if n == 0 {
			n = len(data)
		}
		out = append(out, segment(data[:n]))
		data = data[n:]
	}
	return out
}

// timeline is a sequence of events in the order in which they happened.
type timeline struct {
	mu    sync.Mutex
	start time.Time
	evs   []obj
}

func (t *timeline) add(o obj) {
	t.mu.Lock()
	defer t.mu.Unlock()
	o["t"] = int(time.Since(t.start) / time.Millisecond)
	t.evs = append(t.evs, o)
}

type listenOp struct {
	Data   content `json:"data"`
	Prec   string  `json:"prec"`
	Pieces []int   `json:"pieces"` // sizes of the parts the body is sent in
	Stall  int     `json:"stall"`  // ms between parts
	Chunk  bool    `json:"chunk"`  // chunked transfer encoding
	Abort  bool    `json:"abort"`  // go away before the last part
	Pause  int     `json:"pause"`  // ms before the request
	Hold   bool    `json:"hold"`   // do not finish before all other clients have
}

type listenScript struct {
	Kind    string       `json:"kind"`
	Count   int          `json:"count"`
	Size    int          `json:"size"`
	Age     int          `json:"age"`
	Clients [][]listenOp `json:"clients"`
	Strict  bool         `json:"strict"`
	Gang    bool         `json:"gang"` // all clients at once, limits checked all the same
	Single  bool         `json:"single"`
	Metrics bool         `json:"metrics"`
	Tail    int          `json:"tail"` // ms to go on recording afterwards
	Debug   bool         `json:"debug"`
}

func runListen(args []string) {
	b := startBus()
	var scripts []listenScript
	readLines(args[0], func(raw []byte) {
		var s listenScript
		must(json.Unmarshal(raw, &s))
		scripts = append(scripts, s)
	})
	rec := newRecorder(args[1])
	var mu sync.Mutex
	each(len(scripts), 8, func(i int) {
		evs := listenScenario(b, "l"+strconv.Itoa(i), scripts[i])
		mu.Lock()
		defer mu.Unlock()
		for _, e := range evs {
			rec.emit(e)
		}
	})
	rec.close()
}

// udpQueue tells how many bytes wait in the socket bound to port, and how
// many datagrams the kernel has dropped.
func udpQueue(port int) (queued, drops int64, ok bool) {
	for _, f := range []string{"/proc/net/udp", "/proc/net/udp6"} {
		data, err := ioutil.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(data), "\n")[1:] {
			x := strings.Fields(line)
			if len(x) < 13 || !strings.HasSuffix(x[1], fmt.Sprintf(":%04X", port)) {
				continue
			}
			q := strings.Split(x[4], ":")
			queued, _ = strconv.ParseInt(q[1], 16, 64)
			drops, _ = strconv.ParseInt(x[12], 10, 64)
			return queued, drops, true
		}
	}
	return 0, 0, false
}

func waitTCP(port int) bool {
	return waitFor(10*time.Second, func() bool {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			c.Close()
		}
		return err == nil
	})
}

func listenScenario(b *bus, prefix string, s listenScript) []obj {
	for try := 0; ; try++ {
		evs, drops := listenOnce(b, prefix+"t"+strconv.Itoa(try), s)
		if drops == 0 {
			return evs
		}
		if try == 4 {
			fail("the kernel keeps dropping datagrams")
		}
	}
}

func listenOnce(b *bus, prefix string, s listenScript) ([]obj, int64) {
	tl := &timeline{start: time.Now()}
	cap := b.capture(prefix, func(m message) {
		if m.subject == "out" {
			tl.add(obj{"e": "out", "lines": segments(m.data), "b": len(m.data)})
		}
	})
	defer cap.close()
	port := freePort(map[string]string{"udp": "udp", "http": "tcp"}[s.Kind])
	conf := &config.Config{
		Name: "listener", Mode: "listener", NATSAddress: b.url,
		NATSSubject: []string{prefix + ".out"}, NATSSubjectMonitor: prefix + ".mon",
		BatchMaxCount: s.Count, BatchMaxSize: datasize.ByteSize(s.Size),
		BatchMaxAge:    config.Duration{Duration: time.Duration(s.Age) * time.Millisecond},
		ReadBufferSize: 4 * datasize.MB, Port: port,
		StatsInterval: config.Duration{Duration: 50 * time.Millisecond}, Debug: s.Debug,
	}
	begin, first := time.Now(), obj{"e": "start", "kind": s.Kind, "count": s.Count, "size": s.Size, "age": s.Age,
		"strict": s.Strict, "gang": s.Gang, "clients": len(s.Clients), "single": s.Single, "metrics": s.Metrics}
	tl.add(first)
	var l *listener.Listener
	var err error
	if s.Kind == "udp" {
		l, err = listener.StartListener(conf)
	} else {
		l, err = listener.StartHTTPListener(conf)
	}
	started(err)
	if s.Kind == "http" && !waitTCP(port) {
		fail("HTTP listener does not listen")
	}
	// How much there is to be published (a hint how long to wait): bytes, or
	// where these are converted, lines. Newlines may be added.
	convert := false
	for _, ops := range s.Clients {
		for _, op := range ops {
			convert = convert || op.Prec != ""
		}
	}
	weight := func(data []byte) (n int) {
		for _, line := range bytes.Split(data, []byte("\n")) {
			if !convert {
				n += len(line)
			} else if len(line) > 0 {
				n++
			}
		}
		return
	}
	var mu sync.Mutex
	id, units, aborts, want := 0, 0, 0, 0
	newID := func() int {
		mu.Lock()
		defer mu.Unlock()
		id++
		return id
	}
	var others, all sync.WaitGroup
	for c := range s.Clients {
		held := false
		for _, op := range s.Clients[c] {
			held = held || op.Hold
		}
		if !held {
			others.Add(1)
		}
		all.Add(1)
		go func(ops []listenOp, held bool) {
			defer all.Done()
			if !held {
				defer others.Done()
			}
			if s.Kind == "udp" {
				conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", port))
				must(err)
				defer conn.Close()
				for _, op := range ops {
					time.Sleep(time.Duration(op.Pause) * time.Millisecond)
					data := op.Data.bytes()
					i := newID()
					if len(data) > 0 {
						tl.add(obj{"e": "begin", "id": i, "prec": "", "lines": segments(data)})
					}
					_, err := conn.Write(data)
					must(err)
					if len(data) > 0 {
						tl.add(obj{"e": "ack", "id": i, "status": 204})
						mu.Lock()
						units++
						want += weight(data)
						mu.Unlock()
					}
					// Do not overrun the socket's buffer.
					waitFor(2*time.Second, func() bool {
						q, _, ok := udpQueue(port)
						if !ok {
							time.Sleep(2 * time.Millisecond)
						}
						return q < 100000
					})
				}
				return
			}
			for _, op := range ops {
				time.Sleep(time.Duration(op.Pause) * time.Millisecond)
				data := op.Data.bytes()
				i := newID()
				tl.add(obj{"e": "begin", "id": i, "prec": op.Prec, "lines": segments(data)})
				status, err := post(port, op, data, &others, func() {
					tl.add(obj{"e": "abort", "id": i})
					mu.Lock()
					aborts++
					mu.Unlock()
				})
				if op.Abort {
					continue
				}
				if err != nil {
					tl.add(obj{"e": "noanswer", "id": i, "error": fmt.Sprint(err)})
					return
				}
				mu.Lock()
				if len(data) > 0 {
					units++
				}
				want += weight(data)
				mu.Unlock()
				tl.add(obj{"e": "ack", "id": i, "status": status})
			}
		}(s.Clients[c], held)
	}
	all.Wait()
	if s.Kind == "udp" {
		waitFor(3*time.Second, func() bool { q, _, _ := udpQueue(port); return q == 0 })
	}
	size := func() int {
		n := 0
		for _, m := range cap.all() {
			if m.subject == "out" {
				n += weight(m.data)
			}
		}
		return n
	}
	if s.Strict || s.Gang {
		time.Sleep(time.Duration(s.Tail) * time.Millisecond)
	} else {
		d := time.Duration(s.Age)*time.Millisecond + 100*time.Millisecond
		if s.Kind == "udp" {
			d += 1100 * time.Millisecond
		}
		if s.Age < 5000 {
			time.Sleep(d)
		}
		waitFor(8*time.Second, func() bool { return size() >= want })
	}
	waitFor(3*time.Second, func() bool { return cap.idle() > patient(250*time.Millisecond) })
	time.Sleep(150 * time.Millisecond)
	g, _, _ := lastMetrics(cap.all(), "none")
	n := 0
	for _, m := range cap.all() {
		if m.subject == "out" {
			n++
		}
	}
	tl.add(obj{"e": "end", "units": units, "messages": n, "aborts": aborts, "received": g["received"],
		"sent": g["sent"], "errors": g["read_errors"], "failed": g["failed_nats_publish"]})
	var drops int64
	if s.Kind == "udp" {
		_, drops, _ = udpQueue(port)
	}
	tl.mu.Lock()
	first["slack"] = slack(begin, 2500)
	evs := append([]obj(nil), tl.evs...)
	tl.mu.Unlock()
	stopped := make(chan struct{})
	go func() { l.Stop(); close(stopped) }()
	select {
	case <-stopped:
	case <-time.After(20 * time.Second):
		fmt.Fprintln(os.Stderr, "listener did not stop")
	}
	return evs, drops
}

// post sends one request in parts; beforeAbort is called when it is broken off.
func post(port int, op listenOp, data []byte, others *sync.WaitGroup, beforeAbort func()) (int, error) {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return 0, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(25 * time.Second))
	q := ""
	if op.Prec != "" {
		q = "?db=x&precision=" + op.Prec
	}
	head := "POST /write" + q + " HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n"
	if op.Chunk {
		head += "Transfer-Encoding: chunked\r\n\r\n"
	} else {
		head += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(data))
	}
	w := bufio.NewWriter(conn)
	w.WriteString(head)
	rest := data
	sizes := append(append([]int(nil), op.Pieces...), len(data))
	for k, n := range sizes {
		if n > len(rest) {
			n = len(rest)
		}
		last := k == len(sizes)-1
		if last && op.Hold {
			w.Flush()
			others.Wait()
		}
		if last && op.Abort {
			w.Flush()
			beforeAbort()
			return 0, nil
		}
		if op.Chunk {
			if n > 0 {
				fmt.Fprintf(w, "%x\r\n%s\r\n", n, rest[:n])
			}
			if last {
				w.WriteString("0\r\n\r\n")
			}
		} else {
			w.Write(rest[:n])
		}
		rest = rest[n:]
		if err := w.Flush(); err != nil {
			return 0, err
		}
		if !last {
			time.Sleep(time.Duration(op.Stall) * time.Millisecond)
		}
	}
	resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		return 0, err
	}
	resp.Body.Close()
	return resp.StatusCode, nil
}
