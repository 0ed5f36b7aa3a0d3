package main

import (
	"bytes"
	"encoding/json"
	"strconv"

	"github.com/c2h5oh/datasize"

	"github.com/jumptrading/influx-spout/v2/batchsplitter"
	"github.com/jumptrading/influx-spout/v2/convert"
	"github.com/jumptrading/influx-spout/v2/influx"
)

func init() { commands["pure"] = runPure }

type pureCase struct {
	Op    string      `json:"op"`
	S     string      `json:"s"`
	Until string      `json:"until"`
	Prec  string      `json:"prec"`
	Max   int         `json:"max"`
	Tags  [][2]string `json:"tags"`
	Other [][2]string `json:"other"`
}

func tagSet(in [][2]string) influx.TagSet {
	var out influx.TagSet
	for _, t := range in {
		out = append(out, influx.NewTag(t[0], t[1]))
	}
	return out
}

func tagList(ts influx.TagSet) [][2]string {
	out := make([][2]string, 0)
	for _, t := range ts {
		out = append(out, [2]string{text(t.Key), text(t.Value)})
	}
	return out
}

// runPure calls a function of the code under test per case and records the result.
func runPure(args []string) {
	rec := newRecorder(args[1])
	readLines(args[0], func(b []byte) {
		var c pureCase
		must(json.Unmarshal(b, &c))
		// Spare capacity behind the data shows writes beyond its end.
		back := append([]byte(c.S), "\x01\x01\x01\x01"...)
		in := back[:len(c.S)]
		e := obj{"e": c.Op, "s": text([]byte(c.S))}
		switch c.Op {
		case "Token", "TokenEscaped":
			f := influx.Token
			if c.Op == "TokenEscaped" {
				f = influx.TokenEscaped
			}
			tok, rest := f(in, []byte(c.Until))
			u := make([]string, 0)
			for _, x := range []byte(c.Until) {
				u = append(u, string([]byte{x}))
			}
			e["until"], e["tok"], e["rest"] = u, text(tok), text(rest)
		case "ParseTags":
			m, tags, rest, err := influx.ParseTags(in)
			e["ok"] = err == nil
			if err == nil {
				e["m"], e["tags"], e["rest"] = text(m), tagList(tags), text(rest)
			}
		case "QuotedString":
			v, rest, err := influx.QuotedString(in)
			e["ok"] = err == nil
			if err == nil {
				e["v"], e["rest"] = text(v), text(rest)
				// Quoting it again must read back the same.
				q := influx.EscapeQuotedString(v)
				v2, rest2, err2 := influx.QuotedString(append(q[:len(q):len(q)], rest...))
				e["ok2"] = err2 == nil
				e["v2"], e["rest2"] = text(v2), text(rest2)
			}
		case "EscapeQuoted":
			e["out"] = text(influx.EscapeQuotedString(in))
		case "EscapeTag":
			e["out"] = text(influx.EscapeTagPart(in))
		case "EscapeMeasurement":
			e["out"] = text(influx.EscapeMeasurement(in))
		case "Unescape":
			e["out"] = text(influx.Unescape(in))
		case "RoundTrip":
			ts := tagSet(c.Tags)
			var line []byte
			line = append(line, influx.EscapeMeasurement(in)...)
			for _, t := range ts {
				line = append(line, ',')
				line = append(line, influx.TagSet{t}.Bytes()...)
			}
			line = append(line, " f=1 1"...)
			m, tags, rest, err := influx.ParseTags(line)
			e["tags"], e["all"], e["line"] = tagList(ts), text(ts.Bytes()), text(line)
			e["ok"] = err == nil
			if err == nil {
				e["m2"], e["tags2"], e["rest2"] = text(m), tagList(tags), text(rest)
			}
		case "Subset":
			e["tags"], e["other"] = tagList(tagSet(c.Tags)), tagList(tagSet(c.Other))
			e["out"] = tagSet(c.Tags).SubsetOf(tagSet(c.Other))
		case "ExtractTimestamp", "ExtractNanos":
			f := influx.ExtractTimestamp
			if c.Op == "ExtractNanos" {
				f = influx.ExtractNanos
			}
			v, off := f(in)
			e["ts"], e["off"] = strconv.FormatInt(v, 10), off
		case "ToInt":
			v, err := convert.ToInt(in)
			e["ok"], e["v"] = err == nil, strconv.FormatInt(v, 10)
		case "Calc":
			ts, err := strconv.ParseInt(c.S, 10, 64)
			must(err)
			v, cerr := influx.SafeCalcTime(ts, c.Prec)
			e["prec"], e["ok"], e["v"] = c.Prec, cerr == nil, strconv.FormatInt(v, 10)
		case "Split":
			sp := batchsplitter.New(in, datasize.ByteSize(c.Max))
			sizes := make([]int, 0)
			var all []byte
			for sp.Next() {
				ch := sp.Chunk()
				sizes = append(sizes, len(ch))
				all = append(all, ch...)
				if len(sizes) > len(in)+2 {
					break
				}
			}
			e["max"], e["sizes"] = c.Max, sizes
			e["same"] = bytes.Equal(all, []byte(c.S))
			e["len"] = len(in)
			ends := make([]int, 0) // positions just after each newline
			for i, x := range in {
				if x == '\n' {
					ends = append(ends, i+1)
				}
			}
			e["ends"] = ends
			delete(e, "s")
		default:
			fail("unknown op %q", c.Op)
		}
		e["kept"] = string(in) == c.S && string(back[len(in):]) == "\x01\x01\x01\x01"
		rec.emit(e)
	})
	rec.close()
}
