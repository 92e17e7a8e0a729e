// Driver for the functions of package replace.
package main

import (
	"errors"
	"fmt"
	"io"
	"log/slog"
	"slices"
	"strconv"
	"time"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"github.com/madkins23/go-slog/replace"
)

type text []int

func (t text) String() string {
	rs := make([]rune, len(t))
	for i, n := range t {
		rs[i] = rune(n)
	}
	return string(rs)
}

func points(s string) text {
	out := text{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

type val struct {
	T string `json:"t"`
	S text   `json:"s"`
}

type attr struct {
	K text   `json:"k"`
	T string `json:"t"`
	S text   `json:"s"`
}

type fn struct {
	F   string `json:"f"`
	Key text   `json:"key"`
	CI  bool   `json:"ci"`
	Chk string `json:"chk"`
	G   text   `json:"g"`
	Arg val    `json:"arg"`
	Fs  []fn   `json:"fs"`
}

type result struct {
	A     attr   `json:"a"`
	Gs    []text `json:"gs"`
	Panic string `json:"panic"`
}

type use struct {
	Gs []text `json:"gs"`
	A  attr   `json:"a"`
	O  result `json:"o"`
}

type program struct {
	Fn  fn    `json:"fn"`
	Use []use `json:"use"`
}

type stringer string

func (s stringer) String() string { return string(s) }

func value(v val) slog.Value {
	s := v.S.String()
	switch v.T {
	case "str":
		return slog.StringValue(s)
	case "int":
		n, err := strconv.Atoi(s)
		if err != nil {
			panic(err)
		}
		return slog.IntValue(n)
	case "bool":
		return slog.BoolValue(s == "true")
	case "err":
		return slog.AnyValue(errors.New(s))
	case "stringer":
		return slog.AnyValue(stringer(s))
	case "nil":
		return slog.AnyValue(nil)
	}
	panic("kind " + v.T)
}

func back(a slog.Attr) attr {
	out := attr{K: points(a.Key), S: points(a.Value.String())}
	switch a.Value.Kind() {
	case slog.KindString:
		out.T = "str"
	case slog.KindInt64:
		out.T = "int"
	case slog.KindBool:
		out.T = "bool"
	case slog.KindAny:
		switch a.Value.Any().(type) {
		case nil:
			out.T, out.S = "nil", text{}
		case stringer:
			out.T = "stringer"
		case error:
			out.T = "err"
		default:
			out.T = fmt.Sprintf("%T", a.Value.Any())
		}
	default:
		out.T = a.Value.Kind().String()
	}
	return out
}

func (f fn) make() infra.AttrFn {
	var chk replace.GroupCheckFn
	switch f.Chk {
	case "top":
		chk = replace.TopCheck
	case "cur":
		chk = replace.Current(f.G.String())
	}
	switch f.F {
	case "key":
		return replace.ChangeKey(f.Key.String(), f.Arg.S.String(), f.CI, chk)
	case "value":
		return replace.ChangeValue(f.Key.String(), replace.SetValueTo(value(f.Arg)), f.CI, chk)
	case "remove":
		return replace.RemoveKey(f.Key.String(), f.CI, chk)
	case "case":
		c := map[string]replace.ChangeCases{"lower": replace.CaseLower, "upper": replace.CaseUpper, "none": replace.CaseNone, "odd": 77}[f.Arg.T]
		return replace.ChangeCase(f.Key.String(), c, f.CI, chk)
	case "multi":
		fs := []infra.AttrFn{}
		for _, g := range f.Fs {
			fs = append(fs, g.make())
		}
		m := replace.Multiple(fs...)
		return m
	}
	panic("function " + f.F)
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	kit.Each(func(p *program) any {
		var f infra.AttrFn
		made := kit.Guard(time.Second, func() { f = p.Fn.make() })
		for i := range p.Use {
			u := &p.Use[i]
			u.O = result{A: attr{K: text{}, S: text{}}, Gs: u.Gs, Panic: made}
			if made != "" {
				continue
			}
			// The path has spare capacity, as in a handler that extends it.
			gs := make([]string, 0, len(u.Gs)+3)
			for _, g := range u.Gs {
				gs = append(gs, g.String())
			}
			full := gs[:cap(gs)]
			before := slices.Clone(full)
			u.O.Panic = kit.Guard(time.Second, func() {
				u.O.A = back(f(gs, slog.Attr{Key: u.A.K.String(), Value: value(val{u.A.T, u.A.S})}))
			})
			if !slices.Equal(before, full) {
				u.O.Gs = []text{points("modified")}
			}
		}
		return p
	})
}
