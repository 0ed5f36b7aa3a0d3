package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats-server/v2/test"
	"github.com/nats-io/nats.go"
)

func init() {
	if os.Getenv("VERIF_LOGS") == "" {
		log.SetOutput(ioutil.Discard)
	}
}

// bus is a NATS server of our own.
type bus struct {
	srv *server.Server
	url string
}

func startBus() *bus { return startBusFor(0) }

// startBusFor starts a bus that takes messages up to a size (0: the usual).
func startBusFor(payload int) *bus {
	opts := test.DefaultTestOptions
	opts.Port = server.RANDOM_PORT
	opts.MaxPending = 1 << 30
	if payload > 0 {
		opts.MaxPayload = int32(payload)
	}
	opts.WriteDeadline = 60 * time.Second
	for i := 0; i < 10; i++ {
		s := server.New(&opts)
		if s == nil {
			continue
		}
		go s.Start()
		if s.ReadyForConnections(20 * time.Second) {
			return &bus{s, fmt.Sprintf("nats://127.0.0.1:%d", s.Addr().(*net.TCPAddr).Port)}
		}
		s.Shutdown()
	}
	fail("NATS server did not start")
	return nil
}

func (b *bus) connect() *nats.Conn {
	for i := 0; ; i++ {
		nc, err := nats.Connect(b.url, nats.MaxReconnects(-1), nats.Timeout(20*time.Second))
		if err == nil {
			return nc
		}
		if i == 5 {
			must(err)
		}
	}
}

type message struct {
	subject string // without the prefix
	data    []byte
	at      time.Time
}

// capture records every message below a subject prefix, in order.
type capture struct {
	nc     *nats.Conn
	prefix string
	mu     sync.Mutex
	msgs   []message
	last   time.Time
	onMsg  func(message)
}

func (b *bus) capture(prefix string, onMsg func(message)) *capture {
	c := &capture{nc: b.connect(), prefix: prefix + ".", last: time.Now(), onMsg: onMsg}
	sub, err := c.nc.Subscribe(prefix+".>", func(m *nats.Msg) {
		msg := message{strings.TrimPrefix(m.Subject, c.prefix), m.Data, time.Now()}
		c.mu.Lock()
		c.msgs = append(c.msgs, msg)
		if msg.subject != "mon" {
			c.last = msg.at
		}
		c.mu.Unlock()
		if c.onMsg != nil {
			c.onMsg(msg)
		}
	})
	must(err)
	must(sub.SetPendingLimits(-1, -1))
	must(c.nc.Flush())
	return c
}

func (c *capture) publish(subject string, data []byte) {
	must(c.nc.Publish(c.prefix+subject, data))
}

func (c *capture) all() []message {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]message(nil), c.msgs...)
}

func (c *capture) idle() time.Duration {
	c.mu.Lock()
	defer c.mu.Unlock()
	return time.Since(c.last)
}

func (c *capture) close() { c.nc.Close() }

var metricRe = regexp.MustCompile(`^([a-zA-Z0-9_]+)\{(.*)\} (-?\d+) (-?\d+)$`)
var labelRe = regexp.MustCompile(`([a-zA-Z0-9_]+)="((?:[^"\\]|\\.)*)"`)

type metric struct {
	name   string
	labels map[string]string
	value  int64
	millis int64
}

func parseMetrics(data []byte) (out []metric) {
	for _, line := range strings.Split(string(data), "\n") {
		m := metricRe.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		x := metric{name: m[1], labels: map[string]string{}}
		for _, l := range labelRe.FindAllStringSubmatch(m[2], -1) {
			x.labels[l[1]] = l[2]
		}
		x.value, _ = strconv.ParseInt(m[3], 10, 64)
		x.millis, _ = strconv.ParseInt(m[4], 10, 64)
		out = append(out, x)
	}
	return
}

// lastMetrics are the latest values of a component's general metrics, and the
// metrics with a further label `extra` published after them, in order.
func lastMetrics(msgs []message, extra string) (gen map[string]int64, more []metric, rounds int) {
	var curMore []metric
	var prevGen map[string]int64
	var prevMore []metric
	for _, m := range msgs {
		if m.subject != "mon" {
			continue
		}
		fresh := false
		for _, x := range parseMetrics(m.data) {
			if _, ok := x.labels[extra]; ok && extra != "" {
				curMore = append(curMore, x)
				continue
			}
			if !fresh {
				prevGen, prevMore = gen, curMore
				gen, curMore = map[string]int64{}, nil
				fresh = true
				rounds++
			}
			gen[x.name] = x.value
		}
	}
	// The last round may be incomplete.
	if len(curMore) < len(prevMore) && prevGen != nil {
		return prevGen, prevMore, rounds
	}
	return gen, curMore, rounds
}

// waitFor polls until cond holds; false on time-out.
// lag measures how late the machine runs what is due: the longest delay of a
// nap in the last two seconds or so. A stand-still has to last longer on a
// busy machine to mean that there's nothing left to come.
var lag struct {
	mu    sync.Mutex
	worst [8]time.Duration // a quarter of a second each
	at    int64            // the quarter of the latest
	late  []delayed        // the delays that matter
}

type delayed struct {
	at time.Time
	by time.Duration
}

func init() {
	go func() {
		const nap = 5 * time.Millisecond
		for {
			before := time.Now()
			time.Sleep(nap)
			late := time.Since(before) - nap
			lag.mu.Lock()
			for q := time.Now().UnixNano() / int64(250*time.Millisecond); lag.at != q; {
				if lag.at < q-8 {
					lag.at = q - 8
				}
				lag.at++
				lag.worst[lag.at%8] = 0
			}
			if late > lag.worst[lag.at%8] {
				lag.worst[lag.at%8] = late
			}
			if late > nap {
				lag.late = append(lag.late, delayed{before, late})
			}
			lag.mu.Unlock()
		}
	}()
}

// slack is how many milliseconds late what happened since then may have been
// only because of the machine, at most max.
func slack(since time.Time, max int64) int64 {
	lag.mu.Lock()
	defer lag.mu.Unlock()
	worst := 5 * time.Millisecond
	for _, d := range lag.late {
		if d.by > worst && d.at.Add(d.by).After(since) {
			worst = d.by
		}
	}
	ms := 800 + 40*worst.Milliseconds()
	if ms > max {
		return max
	}
	return ms
}

// patient is how long to wait instead of d on a machine as busy as this one.
func patient(d time.Duration) time.Duration {
	lag.mu.Lock()
	defer lag.mu.Unlock()
	worst := time.Duration(0)
	for _, w := range lag.worst {
		if w > worst {
			worst = w
		}
	}
	if worst *= 20; worst > 5*time.Second {
		worst = 5 * time.Second
	}
	return d + worst
}

func waitFor(max time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(max)
	for {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func nanos(t time.Time) string { return strconv.FormatInt(t.UnixNano(), 10) }

var stampRe = regexp.MustCompile(`<([+-]\d+)>`)

// stamp replaces <+N> and <-N> by the time N ns from now.
func stamp(s string, now time.Time) string {
	return stampRe.ReplaceAllStringFunc(fill(s), func(x string) string {
		n, err := strconv.ParseInt(x[1:len(x)-1], 10, 64)
		must(err)
		return strconv.FormatInt(now.UnixNano()+n, 10)
	})
}

// Long runs of one letter are written <*N> in scripts and traces.
var fillRe = regexp.MustCompile(`<\*(\d+)>`)
var runRe = regexp.MustCompile(`q{64,}`)

func fill(s string) string {
	return fillRe.ReplaceAllStringFunc(s, func(x string) string {
		n, err := strconv.Atoi(x[2 : len(x)-1])
		must(err)
		return strings.Repeat("q", n)
	})
}

func squeeze(s string) string {
	return runRe.ReplaceAllStringFunc(s, func(x string) string { return "<*" + strconv.Itoa(len(x)) + ">" })
}

func splitLines(data []byte) []string {
	out := make([]string, 0)
	for len(data) > 0 {
		i := bytes.IndexByte(data, '\n')
		n := i + 1
		if i < 0 {
			n = len(data)
		}
		out = append(out, squeeze(text(data[:n])))
		data = data[n:]
	}
	return out
}

var portMu sync.Mutex
var nextPort, firstPort, lastPort int
var portLock net.Listener

// claimPorts reserves a range of ports among the drivers running on this
// machine, all below those the system hands out by itself.
func claimPorts() {
	const slots, size = 36, 600
	for k := 0; k < slots; k++ {
		slot := (os.Getpid() + k) % slots
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", 9900+slot))
		if err == nil {
			portLock = l
			firstPort = 10000 + slot*size
			lastPort = firstPort + size - 1
			nextPort = firstPort
			return
		}
	}
	fail("no free range of ports")
}

// freePort finds a port that is free and has not been used for a while.
func freePort(network string) int {
	portMu.Lock() // (a child process started now would keep the port for a moment)
	defer portMu.Unlock()
	if portLock == nil {
		claimPorts()
	}
	for i := 0; i < 20000; i++ {
		nextPort++
		if nextPort > lastPort {
			nextPort = firstPort
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", nextPort))
		if err != nil {
			continue
		}
		l.Close()
		c, err := net.ListenPacket("udp", fmt.Sprintf(":%d", nextPort))
		if err != nil {
			continue
		}
		c.Close()
		return nextPort
	}
	fail("no free port")
	return 0
}

// each runs f(i) for i < n with at most `par` at a time.
func each(n, par int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, par)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			f(i)
		}(i)
	}
	wg.Wait()
}
