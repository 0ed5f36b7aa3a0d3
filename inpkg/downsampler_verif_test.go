package downsampler

import (
	"bufio"
	"encoding/json"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

type verifClock struct{ t time.Time }

func (c *verifClock) Now() time.Time { return c.t }

type verifOp struct {
	At  string `json:"at"`
	Msg string `json:"msg"`
}

type verifScript struct {
	Period string    `json:"period"`
	Start  string    `json:"start"`
	Ops    []verifOp `json:"ops"`
}

func verifNum(t *testing.T, s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		t.Fatal("verif harness: ", err)
	}
	return n
}

func verifLines(data []byte) []string {
	out := make([]string, 0)
	for _, x := range strings.SplitAfter(string(data), "\n") {
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

// TestVerifAssign runs scripts against assigners with a clock of our own.
func TestVerifAssign(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal("verif harness: ", err)
	}
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal("verif harness: ", err)
	}
	w := bufio.NewWriter(f)
	emit := func(o map[string]interface{}) {
		b, err := json.Marshal(o)
		if err != nil {
			t.Fatal("verif harness: ", err)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s verifScript
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			t.Fatal("verif harness: ", err)
		}
		clock := &verifClock{time.Unix(0, verifNum(t, s.Start))}
		a := newAssigner(time.Duration(verifNum(t, s.Period)), newAvgBucket, clock)
		emit(map[string]interface{}{"e": "start", "period": s.Period, "live": false})
		now := func() string { return strconv.FormatInt(clock.t.UnixNano(), 10) }
		poll := func() {
			for i := 0; i < 1000; i++ {
				if data := a.Bytes(); len(data) > 0 {
					emit(map[string]interface{}{"e": "out", "subj": "s", "now": now(), "lines": verifLines(data), "b": len(data)})
				}
				if a.UntilNext() > 0 {
					break
				}
			}
			emit(map[string]interface{}{"e": "settled", "now": now()})
		}
		for _, op := range s.Ops {
			if op.At != "" {
				clock.t = time.Unix(0, verifNum(t, op.At))
				poll()
				continue
			}
			bad, stamps := 0, 0
			for _, err := range a.Update([]byte(op.Msg)) {
				if strings.HasPrefix(err.Error(), "timestamp ") {
					stamps++
				} else {
					bad++
				}
			}
			emit(map[string]interface{}{"e": "in", "subj": "s", "now": now(), "lines": verifLines([]byte(op.Msg)),
				"checked": true, "invalid": bad, "stamps": stamps})
			poll()
		}
	}
	if sc.Err() != nil {
		t.Fatal("verif harness: ", sc.Err())
	}
	w.Flush()
	f.Close()
}
