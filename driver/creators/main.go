// Driver for the creators: makes loggers through them, derives and uses these,
// and reads back what arrives in each of the writers.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"path"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/madkins23/go-slog/creator/madkinsflash"
	"github.com/madkins23/go-slog/creator/madkinsreplattr"
	"github.com/madkins23/go-slog/creator/madkinssloggy"
	"github.com/madkins23/go-slog/creator/phsymzerolog"
	"github.com/madkins23/go-slog/creator/phusluslog"
	"github.com/madkins23/go-slog/creator/samberlogrus"
	"github.com/madkins23/go-slog/creator/samberzap"
	"github.com/madkins23/go-slog/creator/samberzerolog"
	"github.com/madkins23/go-slog/creator/slogjson"
	"github.com/madkins23/go-slog/creator/veqryndedup"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type attr struct {
	K string `json:"k"`
	V int    `json:"v"`
}

type entry struct {
	P string `json:"p"`
	K string `json:"k"`
	V string `json:"v"`
}

type observed struct {
	Made    bool    `json:"made"`
	Can     bool    `json:"can"`
	Name    string  `json:"name"`
	Changed bool    `json:"changed"` // the caller's options
	Wrote   []int   `json:"wrote"`   // lines in each writer
	On      bool    `json:"on"`
	By      string  `json:"by"`
	Msg     string  `json:"msg"`
	Level   string  `json:"level"`
	Time    bool    `json:"time"`
	Src     bool    `json:"src"`
	Ents    []entry `json:"ents"`
	Bad     string  `json:"bad"`
}

type event struct {
	Op    string   `json:"op"`
	C     string   `json:"c"`
	Via   string   `json:"via"`
	W     int      `json:"w"`
	Level string   `json:"level"` // "none", "var" or "fixed"
	Num   int      `json:"num"`
	Src   bool     `json:"src"`
	Rep   bool     `json:"rep"`
	L     int      `json:"l"`
	N     string   `json:"n"`
	Msg   string   `json:"msg"`
	As    []attr   `json:"as"`
	O     observed `json:"o"`
}

type program struct {
	Ev    []event `json:"ev"`
	Panic string  `json:"panic"`
}

var creators = map[string]func() infra.Creator{
	"flash": madkinsflash.Creator, "replattr": madkinsreplattr.Creator, "sloggy": madkinssloggy.Creator, "json": slogjson.Creator,
	"phsym": phsymzerolog.Creator, "phuslu": phusluslog.Creator, "logrus": samberlogrus.Creator, "zap": samberzap.Creator,
	"zerolog":   samberzerolog.Creator,
	"append":    func() infra.Creator { return veqryndedup.Creator(veqryndedup.Append) },
	"ignore":    func() infra.Creator { return veqryndedup.Creator(veqryndedup.Ignore) },
	"increment": func() infra.Creator { return veqryndedup.Creator(veqryndedup.Increment) },
	"overwrite": func() infra.Creator { return veqryndedup.Creator(veqryndedup.Overwrite) },
	"own-h":     func() infra.Creator { return infra.NewCreator("own-h", ownHandler, nil, "", nil) },
	"own-l":     func() infra.Creator { return infra.NewCreator("own-l", nil, ownLogger, "", nil) },
	"own-hl":    func() infra.Creator { return infra.NewCreator("own-hl", ownHandler, ownLogger, "", nil) },
}

func ownHandler(w io.Writer, options *slog.HandlerOptions) slog.Handler {
	return slog.NewJSONHandler(w, options).WithAttrs([]slog.Attr{slog.String("by", "handler")})
}

func ownLogger(w io.Writer, options *slog.HandlerOptions) *slog.Logger {
	return slog.New(slog.NewJSONHandler(w, options)).With("by", "logger")
}

func replace(groups []string, a slog.Attr) slog.Attr {
	if a.Key == "r" {
		a.Key = "R"
	} else if a.Key == slog.MessageKey && len(groups) == 0 {
		a.Value = slog.StringValue(a.Value.String() + "!")
	}
	return a
}

func args(as []attr) []any {
	var out []any
	for _, a := range as {
		out = append(out, slog.Int(a.K, a.V))
	}
	return out
}

func text(v any) string {
	switch v := v.(type) {
	case json.Number:
		return v.String()
	default:
		return fmt.Sprintf("%T", v)
	}
}

// read decodes an object without losing repeated fields.
func read(d *json.Decoder, at string, f func(p, k, v string, raw any)) error {
	for d.More() {
		key, err := d.Token()
		if err != nil {
			return err
		}
		k := key.(string)
		v, err := d.Token()
		if err != nil {
			return err
		}
		switch v {
		case json.Delim('{'):
			if err := read(d, strings.TrimPrefix(at+"."+k, "."), f); err != nil {
				return err
			}
		case json.Delim('['):
			var parts []string
			for d.More() {
				x, err := d.Token()
				if err != nil {
					return err
				}
				parts = append(parts, text(x))
			}
			if _, err := d.Token(); err != nil {
				return err
			}
			f(at, k, "["+strings.Join(parts, ",")+"]", nil)
		default:
			f(at, k, text(v), v)
		}
	}
	_, err := d.Token()
	return err
}

func (o *observed) parse(line []byte, file string, num int, from, to time.Time) {
	d := json.NewDecoder(bytes.NewReader(line))
	d.UseNumber()
	if t, err := d.Token(); err != nil || t != json.Delim('{') {
		o.Bad = "not an object"
		return
	}
	gotFile, gotLine := "", ""
	if err := read(d, "", func(p, k, v string, raw any) {
		s, _ := raw.(string)
		switch {
		case p == "" && (k == "msg" || k == "message"):
			o.Msg += s
		case p == "" && k == "level":
			o.Level += strings.Replace(strings.ToLower(s), "warning", "warn", 1)
		case p == "" && k == "by":
			o.By += s
		case p == "" && k == "time":
			t, err := time.Parse(time.RFC3339Nano, s)
			o.Time = err == nil && !t.Before(from.Truncate(time.Second)) && !t.After(to)
		case p == "" && k == "caller":
			at := strings.LastIndex(s, ":")
			gotFile, gotLine = path.Base(s[:max(at, 0)]), s[at+1:]
		case p == "source" && k == "file":
			gotFile = path.Base(s)
		case p == "source" && k == "line":
			gotLine = v
		case p == "source":
		default:
			o.Ents = append(o.Ents, entry{p, k, v})
		}
	}); err != nil {
		o.Bad = "not JSON"
	}
	if _, err := d.Token(); err != io.EOF {
		o.Bad = "more than an object"
	}
	o.Src = gotFile != "" || gotLine != ""
	if o.Src && (gotFile != path.Base(file) || gotLine != strconv.Itoa(num)) {
		o.Bad = "wrong source"
	}
}

func run(p *program) {
	var lv slog.LevelVar
	loggers, kept := []*slog.Logger{}, map[string]infra.Creator{}
	ws := [3]bytes.Buffer{}
	for i := range p.Ev {
		ev := &p.Ev[i]
		o := &ev.O
		o.Wrote, o.Ents = []int{0, 0, 0}, []entry{}
		switch ev.Op {
		case "make":
			opts := &slog.HandlerOptions{AddSource: ev.Src}
			switch ev.Level {
			case "var":
				opts.Level = &lv
			case "fixed":
				opts.Level = slog.Level(ev.Num)
			}
			if ev.Rep {
				opts.ReplaceAttr = replace
			}
			was := *opts
			c, found := kept[ev.C]
			if !found {
				c = creators[ev.C]()
				kept[ev.C] = c
			}
			o.Name, o.Can = c.Name(), c.CanMakeHandler()
			var l *slog.Logger
			if ev.Via == "logger" {
				l = c.NewLogger(&ws[ev.W-1], opts)
			} else if h := c.NewHandler(&ws[ev.W-1], opts); h != nil {
				l = slog.New(h)
			}
			o.Made = l != nil
			o.Changed = opts.AddSource != was.AddSource || opts.Level != was.Level || (opts.ReplaceAttr == nil) != (was.ReplaceAttr == nil)
			loggers = append(loggers, l)
		case "with":
			loggers = append(loggers, loggers[ev.L-1].With(args(ev.As)...))
		case "group":
			loggers = append(loggers, loggers[ev.L-1].WithGroup(ev.N))
		case "set":
			lv.Set(slog.Level(ev.Num))
		case "log":
			l := loggers[ev.L-1]
			o.On = l.Enabled(context.Background(), slog.Level(ev.Num))
			from := time.Now()
			l.Log(context.Background(), slog.Level(ev.Num), ev.Msg, args(ev.As)...)
			_, file, num, _ := runtime.Caller(0)
			for w := range ws {
				o.Wrote[w] = bytes.Count(ws[w].Bytes(), []byte("\n"))
				if ws[w].Len() > 0 {
					o.parse(ws[w].Bytes(), file, num-1, from, time.Now())
				}
				ws[w].Reset()
			}
		}
	}
}

func main() {
	kit.Each(func(p *program) any {
		p.Panic = kit.Guard(10*time.Second, func() { run(p) })
		return p
	})
}
