// Driver for the encoding of texts: logs records whose texts are arbitrary bytes.
package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"log/slog"
	"maps"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type text []int

func (t text) String() string {
	b := make([]byte, len(t))
	for i, n := range t {
		b[i] = byte(n)
	}
	return string(b)
}

func from(s string) text {
	t := make(text, len(s))
	for i := range len(s) {
		t[i] = int(s[i])
	}
	return t
}

type attr struct {
	K text   `json:"k"`
	T string `json:"t"`
	V text   `json:"v"`
	A []attr `json:"a"`
}

type step struct {
	Op string `json:"op"`
	N  text   `json:"n"`
	As []attr `json:"as"`
}

type observed struct {
	Out   text   `json:"out"`
	Err   string `json:"err"`
	Panic string `json:"panic"`
	TK    text   `json:"tk"`
	LK    text   `json:"lk"`
	MK    text   `json:"mk"`
	Time  text   `json:"time"`
	Level text   `json:"level"`
}

type program struct {
	H     string   `json:"h"`
	TK    text     `json:"tk"`
	LK    text     `json:"lk"`
	MK    text     `json:"mk"`
	TF    text     `json:"tf"`
	LN    text     `json:"ln"` // level name for INFO
	Steps []step   `json:"steps"`
	Msg   text     `json:"msg"`
	As    []attr   `json:"as"`
	O     observed `json:"o"`
}

type stringer string

func (s stringer) String() string { return string(s) }

type txtMarshaler string

func (s txtMarshaler) MarshalText() ([]byte, error) { return []byte(s), nil }

type jsnMarshaler string

func (s jsnMarshaler) MarshalJSON() ([]byte, error) { return []byte(s), nil }

type valuer struct{ v slog.Value }

func (v valuer) LogValue() slog.Value { return v.v }

func (a attr) attr() slog.Attr {
	k, v := a.K.String(), a.V.String()
	switch a.T {
	case "grp":
		return slog.Attr{Key: k, Value: slog.GroupValue(attrs(a.A)...)}
	case "err":
		return slog.Any(k, errors.New(v))
	case "stringer":
		return slog.Any(k, stringer(v))
	case "text":
		return slog.Any(k, txtMarshaler(v))
	case "json":
		return slog.Any(k, jsnMarshaler(v))
	case "valuer":
		return slog.Any(k, valuer{slog.StringValue(v)})
	case "slice":
		return slog.Any(k, []string{v})
	case "map":
		return slog.Any(k, map[string]string{v: v})
	case "int":
		return slog.Int(k, len(v))
	}
	return slog.String(k, v)
}

func attrs(as []attr) []slog.Attr {
	out := make([]slog.Attr, len(as))
	for i, a := range as {
		out[i] = a.attr()
	}
	return out
}

func or(t text, s string) text {
	if len(t) > 0 {
		return t
	}
	return from(s)
}

func main() {
	kit.Each(func(p *program) any {
		var buf bytes.Buffer
		var h slog.Handler
		o := &p.O
		tf := time.RFC3339Nano
		o.TK, o.LK, o.MK, o.Level = from("time"), from("level"), from("msg"), from("INFO")
		if p.H == "flash" {
			ex := &flash.Extras{TimeKey: p.TK.String(), LevelKey: p.LK.String(), MessageKey: p.MK.String(), TimeFormat: p.TF.String()}
			if len(p.LN) > 0 {
				ex.LevelNames = maps.Clone(map[slog.Level]string{slog.LevelInfo: p.LN.String()})
				o.Level = p.LN
			}
			o.TK, o.LK, o.MK = or(p.TK, "time"), or(p.LK, "level"), or(p.MK, "msg")
			if len(p.TF) > 0 {
				tf = p.TF.String()
			}
			h = flash.NewHandler(io.Writer(&buf), nil, ex)
		} else {
			h = sloggy.NewHandler(&buf, nil)
		}
		t := time.Date(2024, 2, 29, 23, 59, 58, 123456789, time.FixedZone("odd", 5400))
		o.Time = from(t.Format(tf))
		o.Panic = kit.Guard(5*time.Second, func() {
			for _, s := range p.Steps {
				if s.Op == "group" {
					h = h.WithGroup(s.N.String())
				} else {
					h = h.WithAttrs(attrs(s.As))
				}
			}
			r := slog.NewRecord(t, slog.LevelInfo, p.Msg.String(), 0)
			r.AddAttrs(attrs(p.As)...)
			if err := h.Handle(context.Background(), r); err != nil {
				o.Err = err.Error()
			}
		})
		o.Out = from(buf.String())
		return p
	})
}
