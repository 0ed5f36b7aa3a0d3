// Command zzverif drives influx-spout's real code for the checks in /verif.
// It is added to the module by a build overlay. It executes scripts and
// records what happened; it never judges.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
)

type obj map[string]interface{}

// recorder writes one JSON object per line.
type recorder struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
}

func newRecorder(path string) *recorder {
	f, err := os.Create(path)
	must(err)
	return &recorder{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (r *recorder) emit(o obj) {
	b, err := json.Marshal(o)
	must(err)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.w.Write(b)
	r.w.WriteByte('\n')
}

func (r *recorder) close() {
	r.mu.Lock()
	defer r.mu.Unlock()
	must(r.w.Flush())
	must(r.f.Close())
}

func must(err error) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "verif harness: %v\n", err)
		os.Exit(3)
	}
}

// started is for what a component answers when it is started with a
// configuration that is fine: unless it's the machine that isn't, that's its
// failure.
func started(err error) {
	if err == nil {
		return
	}
	for _, s := range []string{"address already in use", "too many open files", "nats: ", "i/o timeout", "cannot allocate", "connection refused"} {
		if strings.Contains(err.Error(), s) {
			must(err)
		}
	}
	fmt.Fprintf(os.Stderr, "not started: %v\n", err)
	os.Exit(4)
}

func fail(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "verif harness: "+format+"\n", args...)
	os.Exit(3)
}

const charTable = "\t\n\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

var known [256]bool

func init() {
	for i := 0; i < len(charTable); i++ {
		known[charTable[i]] = true
	}
}

// text makes bytes readable for the specification: bytes it has no character
// for become "~", which no script contains otherwise.
func text(b []byte) string {
	out := make([]byte, len(b))
	for i, c := range b {
		if known[c] {
			out[i] = c
		} else {
			out[i] = '~'
		}
	}
	return string(out)
}

// readLines decodes a file of JSON values, one per line.
func readLines(path string, each func([]byte)) {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			each(sc.Bytes())
		}
	}
	must(sc.Err())
}

var commands = map[string]func(args []string){}

func main() {
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		fail("unknown command %v", os.Args)
	}
	commands[os.Args[1]](os.Args[2:])
}
