package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"time"
)

func init() {
	commands["tap"] = runTap
}

type tapScript struct {
	Subject string      `json:"subject"` // "" for the default
	Expr    string      `json:"expr"`
	AST     interface{} `json:"ast"`
	Pause   int         `json:"pause"` // ms the reader of the output waits at first
	Steps   []struct {
		Subject string `json:"subject"`
		Data    string `json:"data"` // base64
		Here    bool   `json:"here"` // is it for the tap?
		Gap     int    `json:"gap"`  // ms
	} `json:"steps"`
}

// exact is text without loss: other bytes become ~ and two digits.
func exact(b []byte) string {
	var out strings.Builder
	for _, c := range b {
		if known[c] && c != '~' {
			out.WriteByte(c)
		} else {
			fmt.Fprintf(&out, "~%02X", c)
		}
	}
	return out.String()
}

// runTap runs the built tap (VERIF_TAP) and records what is published and
// what it prints.
func runTap(args []string) {
	rec := newRecorder(args[1])
	readLines(args[0], func(raw []byte) {
		var s tapScript
		must(json.Unmarshal(raw, &s))
		oneTap(rec, s)
	})
	rec.close()
}

func oneTap(rec *recorder, s tapScript) {
	b := startBus()
	defer b.srv.Shutdown()
	nc := b.connect()
	defer nc.Close()
	argv := []string{"-h", b.url}
	start := obj{"e": "start", "re": "all"}
	if s.Subject != "" {
		argv = append(argv, "-s", s.Subject)
	}
	var re *regexp.Regexp
	if s.Expr != "" {
		argv = append(argv, "-e", s.Expr)
		start["re"], start["ast"] = s.Expr, s.AST
		re = regexp.MustCompile(s.Expr)
	}
	rec.emit(start)
	subs := b.srv.NumSubscriptions()
	cmd := exec.Command(os.Getenv("VERIF_TAP"), argv...)
	r, w, err := os.Pipe()
	must(err)
	cmd.Stdout = w
	must(cmd.Start())
	w.Close()
	exited := make(chan struct{})
	go func() {
		cmd.Wait()
		close(exited)
	}()
	state := "running"
	for end := time.Now().Add(20 * time.Second); b.srv.NumSubscriptions() == subs && time.Now().Before(end); {
		time.Sleep(2 * time.Millisecond)
	}

	var mu sync.Mutex
	seen := 0
	closed := make(chan struct{})
	go func() {
		defer close(closed)
		time.Sleep(time.Duration(s.Pause) * time.Millisecond)
		buf := make([]byte, 1<<16)
		for {
			n, err := r.Read(buf)
			if n > 0 {
				mu.Lock()
				seen += n
				rec.emit(obj{"e": "out", "data": exact(buf[:n])})
				mu.Unlock()
			}
			if err != nil {
				return
			}
		}
	}()
	due := 0 // how much to wait for; it isn't judged here
	for _, step := range s.Steps {
		data, err := base64.StdEncoding.DecodeString(step.Data)
		must(err)
		rec.emit(obj{"e": "pub", "here": step.Here, "data": exact(data)})
		must(nc.Publish(step.Subject, data))
		must(nc.Flush())
		if step.Here {
			for _, l := range bytes.SplitAfter(data, []byte("\n")) {
				if re == nil || re.Match(bytes.TrimSuffix(l, []byte("\n"))) {
					due += len(l)
				}
			}
		}
		time.Sleep(time.Duration(step.Gap) * time.Millisecond)
	}
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end); {
		mu.Lock()
		n := seen
		mu.Unlock()
		if n >= due {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(60 * time.Millisecond)
	select {
	case <-exited:
		state = "exited"
	default:
	}
	cmd.Process.Kill()
	<-exited
	<-closed
	r.Close()
	rec.emit(obj{"e": "end", "state": state})
}
