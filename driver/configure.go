package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"

	"github.com/c2h5oh/datasize"
	"github.com/spf13/afero"
)

func init() {
	commands["config"] = runConfig
}

type confScript struct {
	Kind   string            `json:"kind"`  // load or check
	Files  map[string]string `json:"files"` // text
	Denied []string          `json:"denied"`
	File   string            `json:"file"`
	Event  obj               `json:"event"` // what is known about it
	User   string            `json:"user"`
	Pass   string            `json:"pass"`
}

// denyFs refuses to open some files.
type denyFs struct {
	afero.Fs
	denied map[string]bool
}

func (d denyFs) Open(name string) (afero.File, error) {
	if d.denied[name] {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrPermission}
	}
	return d.Fs.Open(name)
}

// options finds the fields of a configuration by their names in files.
func options(c *config.Config) map[string]reflect.Value {
	out := map[string]reflect.Value{}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if n := v.Type().Field(i).Tag.Get("toml"); n != "" && n != "-" {
			out[n] = v.Field(i)
		}
	}
	return out
}

func plainValue(v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		return text([]byte(x))
	case int:
		return strconv.Itoa(x)
	case bool:
		return strconv.FormatBool(x)
	case config.Duration:
		return strconv.FormatInt(int64(x.Duration), 10)
	case datasize.ByteSize:
		return strconv.FormatUint(x.Bytes(), 10)
	case []string:
		out := []string{}
		for _, s := range x {
			out = append(out, text([]byte(s)))
		}
		return out
	case []config.Rule:
		out := []obj{}
		for _, r := range x {
			tags := [][]string{}
			for _, t := range r.Tags {
				tags = append(tags, append([]string{}, t...))
			}
			out = append(out, obj{"type": r.Rtype, "match": r.Match, "tags": tags, "subject": r.Subject})
		}
		return out
	}
	fail("value %T", v)
	return nil
}

// assign sets a field to a value in the notation of the traces.
func assign(f reflect.Value, v interface{}) {
	switch f.Interface().(type) {
	case string:
		f.SetString(v.(string))
	case int:
		n, err := strconv.Atoi(v.(string))
		must(err)
		f.SetInt(int64(n))
	case bool:
		f.SetBool(v.(string) == "true")
	case config.Duration:
		n, err := strconv.ParseInt(v.(string), 10, 64)
		must(err)
		f.Set(reflect.ValueOf(config.NewDuration(time.Duration(n))))
	case datasize.ByteSize:
		f.Set(reflect.ValueOf(datasize.ByteSize(u(v.(string)))))
	case []string:
		var l []string
		for _, s := range v.([]interface{}) {
			l = append(l, s.(string))
		}
		f.Set(reflect.ValueOf(l))
	case []config.Rule:
		var rs []config.Rule
		for _, x := range v.([]interface{}) {
			m := x.(map[string]interface{})
			r := config.Rule{Rtype: m["type"].(string), Match: m["match"].(string), Subject: m["subject"].(string)}
			for _, t := range m["tags"].([]interface{}) {
				var l []string
				for _, s := range t.([]interface{}) {
					l = append(l, s.(string))
				}
				r.Tags = append(r.Tags, l)
			}
			rs = append(rs, r)
		}
		f.Set(reflect.ValueOf(rs))
	default:
		fail("field %v", f.Type())
	}
}

// usable says whether components can use the rules.
func usable(c *config.Config) (out string) {
	defer func() {
		if x := recover(); x != nil {
			out = text([]byte(fmt.Sprint("crash: ", x)))
		}
	}()
	if c.Mode != "filter" && c.Mode != "writer" {
		return "n/a"
	}
	rs, err := filter.RuleSetFromConfig(c)
	if err != nil {
		return "no"
	}
	if rs.Count() != len(c.Rule) {
		return "not all"
	}
	return "yes"
}

func runConfig(args []string) {
	rec := newRecorder(args[1])
	readLines(args[0], func(raw []byte) {
		var s confScript
		must(json.Unmarshal(raw, &s))
		os.Setenv("INFLUXDB_USER", s.User)
		os.Setenv("INFLUXDB_PASS", s.Pass)
		e := s.Event
		e["e"], e["user"], e["pass"] = s.Kind, s.User, s.Pass
		if s.Kind == "check" {
			c := new(config.Config)
			opts := options(c)
			for k, v := range e["conf"].(map[string]interface{}) {
				assign(opts[k], v)
			}
			c.InfluxDBUser, c.InfluxDBPass = s.User, s.Pass
			err := c.Validate()
			e["ok"] = err == nil
			e["rules"] = "n/a"
			if err == nil {
				e["rules"] = usable(c)
			}
			rec.emit(e)
			return
		}
		fs := denyFs{afero.NewMemMapFs(), map[string]bool{}}
		for name, t := range s.Files {
			must(afero.WriteFile(fs.Fs, name, []byte(t), 0600))
		}
		for _, n := range s.Denied {
			fs.denied[n] = true
		}
		config.Fs = fs
		c, err := config.NewConfigFromFile(s.File)
		e["file"] = s.File
		e["ok"] = err == nil
		e["rules"] = "n/a"
		if err == nil {
			if c == nil {
				must(errors.New("no configuration and no error"))
			}
			got := obj{"user": c.InfluxDBUser, "pass": c.InfluxDBPass}
			for k, v := range options(c) {
				got[k] = plainValue(v.Interface())
			}
			e["got"] = got
			e["rules"] = usable(c)
		}
		rec.emit(e)
	})
	rec.close()
}
