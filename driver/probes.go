package main

import (
	"encoding/json"
	"io/ioutil"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jumptrading/influx-spout/v2/probes"
)

func init() {
	commands["probes"] = runProbes
}

type probeScript struct {
	Null   bool           `json:"null"`
	Port   int            `json:"port"`  // if null
	Lanes  [][][][]string `json:"lanes"` // of each life: "alive"/"ready" "true"/"false", "get" path, "nap" us
	Abrupt bool           `json:"abrupt"`
}

func sockets() (n int) {
	fs, err := ioutil.ReadDir("/proc/self/fd")
	must(err)
	for _, f := range fs {
		to, _ := os.Readlink("/proc/self/fd/" + f.Name())
		if strings.HasPrefix(to, "socket:") {
			n++
		}
	}
	return
}

func runProbes(args []string) {
	rec := newRecorder(args[1])
	readLines(args[0], func(raw []byte) {
		var s probeScript
		must(json.Unmarshal(raw, &s))
		probeScenario(rec, s)
	})
	rec.close()
}

func probeScenario(rec *recorder, s probeScript) {
	tl := &timeline{start: time.Now()}
	port := s.Port
	before := 0
	if s.Null {
		freePort("tcp") // claims the ports
		before = sockets()
	} else {
		port = freePort("tcp")
	}
	tl.add(obj{"e": "probes", "null": s.Null})
	var ids int64
	for life := 0; life < len(s.Lanes); life++ {
		tl.add(obj{"e": "listen"})
		p := probes.Listen(port)
		if !s.Abrupt && !s.Null {
			waitFor(5*time.Second, func() bool { c, _, _ := get(port, "/healthz", time.Second); return c != 0 })
		}
		tl.add(obj{"e": "open", "bound": !s.Abrupt && !s.Null})
		var wg sync.WaitGroup
		for _, lane := range s.Lanes[life] {
			wg.Add(1)
			go func(lane [][]string) {
				defer wg.Done()
				for _, o := range lane {
					id := atomic.AddInt64(&ids, 1)
					switch o[0] {
					case "nap":
						time.Sleep(time.Duration(u(o[1])) * time.Microsecond)
					case "get":
						if s.Null {
							continue
						}
						tl.add(obj{"e": "get", "id": id, "what": o[1]})
						code, _, err := get(port, o[1], 5*time.Second)
						if err != nil {
							code = 0
						}
						tl.add(obj{"e": "got", "id": id, "code": code})
					default:
						tl.add(obj{"e": "set", "id": id, "what": o[0], "to": o[1] == "true"})
						if o[0] == "alive" {
							p.SetAlive(o[1] == "true")
						} else {
							p.SetReady(o[1] == "true")
						}
						tl.add(obj{"e": "done", "id": id})
					}
				}
			}(lane)
		}
		wg.Wait()
		if s.Null {
			time.Sleep(20 * time.Millisecond)
			tl.add(obj{"e": "sockets", "more": sockets() - before})
		}
		tl.add(obj{"e": "close"})
		p.Close()
		tl.add(obj{"e": "closed"})
		if !s.Null {
			id := atomic.AddInt64(&ids, 1)
			tl.add(obj{"e": "get", "id": id, "what": "/healthz"})
			code, _, err := get(port, "/healthz", 5*time.Second)
			if err != nil {
				code = 0
			}
			tl.add(obj{"e": "got", "id": id, "code": code})
		}
	}
	for _, e := range tl.evs {
		rec.emit(e)
	}
}
