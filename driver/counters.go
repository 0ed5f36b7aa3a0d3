package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jumptrading/influx-spout/v2/stats"
)

func init() {
	commands["counters"] = runCounters
}

type counterScript struct {
	Kind    string       `json:"kind"`
	Names   []string     `json:"names"`
	Start   []string     `json:"start"`
	Threads [][][]string `json:"threads"` // operations: inc i, max i v, get i, snap
	Ms      int          `json:"ms"`
}

type counterOp struct {
	op  string
	i   int
	arg uint64
}

// runCounters repeats each script very often and records each different
// outcome once.
func runCounters(args []string) {
	runtime.GOMAXPROCS(runtime.NumCPU())
	rec := newRecorder(args[1])
	readLines(args[0], func(raw []byte) {
		var s counterScript
		must(json.Unmarshal(raw, &s))
		counterScenario(rec, s)
	})
	rec.close()
}

func u(s string) uint64 {
	v, err := strconv.ParseUint(s, 10, 64)
	must(err)
	return v
}

func counterScenario(rec *recorder, s counterScript) {
	n := len(s.Threads)
	progs := make([][]counterOp, n)
	for t := range progs {
		for _, o := range s.Threads[t] {
			c := counterOp{op: o[0]}
			if len(o) > 1 {
				c.i = int(u(o[1]))
			}
			if len(o) > 2 {
				c.arg = u(o[2])
			}
			progs[t] = append(progs[t], c)
		}
	}
	index := map[string]int{}
	for i, x := range s.Names {
		index[x] = i
	}
	var anon *stats.AnonStats
	var named *stats.Stats
	inc := func(i int) uint64 {
		if named != nil {
			return named.Inc(s.Names[i])
		}
		return anon.Inc(i)
	}
	get := func(i int) uint64 {
		if named != nil {
			return named.Get(s.Names[i])
		}
		return anon.Get(i)
	}
	max := func(i int, v uint64) uint64 {
		if named != nil {
			return named.Max(s.Names[i], v)
		}
		return anon.Max(i, v)
	}
	var badSnap atomic.Value
	snap := func() []uint64 {
		if named == nil {
			out := anon.Snapshot()
			if len(out) != len(s.Names) {
				fail("snapshot of %d counters", len(out))
			}
			return out
		}
		out := make([]uint64, len(s.Names))
		got := named.Snapshot()
		names := make([]string, 0)
		ok := len(got) == len(s.Names)
		for _, p := range got {
			names = append(names, p.Name)
			out[index[p.Name]] = p.Value
		}
		seen := map[string]bool{}
		for _, x := range names {
			seen[x] = true
		}
		if !ok || len(seen) != len(s.Names) {
			badSnap.Store(names)
		}
		return out
	}
	fresh := func() {
		if s.Kind == "anon" {
			anon, named = stats.NewAnon(len(s.Names)), nil
		} else {
			anon, named = nil, stats.New(s.Names...)
		}
		for i, v := range s.Start {
			max(i, u(v))
		}
	}
	results := make([][][]uint64, n)
	for t := range results {
		results[t] = make([][]uint64, len(progs[t]))
	}
	var round, ready, done, over int32
	var wg sync.WaitGroup
	for t := 0; t < n; t++ {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			runtime.LockOSThread()
			for r := int32(1); ; r++ {
				for spin := 0; atomic.LoadInt32(&round) != r; spin++ {
					if atomic.LoadInt32(&over) != 0 {
						return
					}
					if spin > 2000 {
						runtime.Gosched()
					}
				}
				atomic.AddInt32(&ready, 1)
				for spin := 0; atomic.LoadInt32(&ready) < int32(n); spin++ {
					if spin > 5000 {
						runtime.Gosched()
					}
				}
				for k, o := range progs[t] {
					switch o.op {
					case "inc":
						results[t][k] = append(results[t][k][:0], inc(o.i))
					case "get":
						results[t][k] = append(results[t][k][:0], get(o.i))
					case "max":
						results[t][k] = append(results[t][k][:0], max(o.i, o.arg))
					case "snap":
						results[t][k] = snap()
					}
				}
				atomic.AddInt32(&done, 1)
			}
		}(t)
	}
	seen := map[string]bool{}
	rounds := 0
	for deadline := time.Now().Add(time.Duration(s.Ms) * time.Millisecond); time.Now().Before(deadline); rounds++ {
		fresh()
		atomic.StoreInt32(&ready, 0)
		atomic.StoreInt32(&done, 0)
		atomic.AddInt32(&round, 1)
		for spin := 0; atomic.LoadInt32(&done) < int32(n); spin++ {
			if spin > 2000 {
				runtime.Gosched()
			}
		}
		key := fmt.Sprint(results)
		final := snap()
		key += fmt.Sprint(final)
		if seen[key] {
			continue
		}
		seen[key] = true
		for c := range s.Names {
			threads := make([][]obj, 0)
			for t := range progs {
				q := make([]obj, 0)
				for k, o := range progs[t] {
					v := uint64(0)
					switch {
					case o.op == "snap":
						v = results[t][k][c]
					case o.i != c:
						continue
					default:
						v = results[t][k][0]
					}
					q = append(q, obj{"op": o.op, "arg": strconv.FormatUint(o.arg, 10), "res": strconv.FormatUint(v, 10)})
				}
				if len(q) > 0 {
					threads = append(threads, q)
				}
			}
			start := "0"
			if c < len(s.Start) {
				start = s.Start[c]
			}
			key := fmt.Sprint("counter", c, threads, final[c])
			if !seen[key] {
				seen[key] = true
				rec.emit(obj{"e": "outcome", "threads": threads, "start": start, "final": strconv.FormatUint(final[c], 10)})
			}
		}
	}
	atomic.StoreInt32(&over, 1)
	wg.Wait()
	e := obj{"e": "snap", "names": s.Names, "got": s.Names, "rounds": rounds}
	if x := badSnap.Load(); x != nil {
		e["got"] = x
	}
	rec.emit(e)
}
