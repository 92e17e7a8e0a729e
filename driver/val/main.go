// Driver for the rendering of single attribute values.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math"
	"net"
	"net/url"
	"strconv"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type value struct {
	K string  `json:"k"`
	T string  `json:"t"`
	S string  `json:"s"`
	N []int   `json:"n"`
	A []value `json:"a"`
}

type entry struct {
	K string  `json:"k"`
	J string  `json:"j"`
	F []entry `json:"f"`
	L []entry `json:"l"`
}

type observed struct {
	OK    bool    `json:"ok"`
	Err   string  `json:"err"`
	Panic string  `json:"panic"`
	Rest  string  `json:"rest"`
	Tree  []entry `json:"tree"`
	Raw   string  `json:"raw"`
}

type program struct {
	H   string   `json:"h"`
	Via string   `json:"via"` // rec, with, replace, typed
	W   []string `json:"w"`
	V   value    `json:"v"`
	Pre []value  `json:"pre"` // logged before, with the same handler
	O   observed `json:"o"`
}

type valuer struct{ v slog.Value }

func (v valuer) LogValue() slog.Value { return v.v }

type ptrValuer struct{ v slog.Value }

func (v *ptrValuer) LogValue() slog.Value { return v.v }

type selfValuer struct{}

func (v selfValuer) LogValue() slog.Value { return slog.AnyValue(v) }

type panicValuer struct{}

func (v panicValuer) LogValue() slog.Value { panic("valuer") }

type stringer string

func (s stringer) String() string { return string(s) }

type txtMarshaler string

func (s txtMarshaler) MarshalText() ([]byte, error) { return []byte(s), nil }

type jsnMarshaler string

func (s jsnMarshaler) MarshalJSON() ([]byte, error) { return []byte(s), nil }

type badText struct{}

func (badText) MarshalText() ([]byte, error) { return nil, errors.New("no text") }

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("no JSON") }

// both is a Stringer and a Marshaler.
type both string

func (s both) String() string               { return string(s) }
func (s both) MarshalJSON() ([]byte, error) { return []byte(`"not this"`), nil }

type (
	namedInt    int
	namedString string
	enum        uint8
)

type record struct {
	A int         `json:"a"`
	B string      `json:"b,omitempty"`
	C []int       `json:"c"`
	D *record     `json:"d,omitempty"`
	E interface{} `json:"e"`
	f int
}

func num(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func unum(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func bits(s string) float64 {
	n, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic(err)
	}
	return math.Float64frombits(n)
}

// any makes the Go value a description stands for.
func (v value) any() any {
	switch v.T {
	case "bool":
		return v.S == "true"
	case "int":
		return num(v.S)
	case "uint":
		return unum(v.S)
	case "small":
		switch n := num(v.S); {
		case n >= -128 && n < 128:
			return int8(n)
		case n >= -32768 && n < 32768:
			return int16(n)
		default:
			return int32(n)
		}
	case "usmall":
		switch n := unum(v.S); {
		case n < 256:
			return uint8(n)
		case n < 65536:
			return uint16(n)
		default:
			return uint32(n)
		}
	case "uintptr":
		return uintptr(unum(v.S))
	case "named":
		return namedInt(num(v.S))
	case "enum":
		return enum(unum(v.S))
	case "ptrint":
		n := num(v.S)
		return &n
	case "dur":
		return time.Duration(num(v.S))
	case "float":
		return bits(v.S)
	case "float32":
		return float32(bits(v.S))
	case "time":
		n := v.N
		loc := time.UTC
		if n[7] != 0 {
			loc = time.FixedZone("", n[7]*60)
		}
		return time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6], loc)
	case "str":
		return v.S
	case "namedstr":
		return namedString(v.S)
	case "err":
		return errors.New(v.S)
	case "werr":
		return fmt.Errorf("%s%w", v.S, errors.New(""))
	case "stringer":
		return stringer(v.S)
	case "text":
		return txtMarshaler(v.S)
	case "json":
		return jsnMarshaler(v.S)
	case "both":
		return both(v.S)
	case "level":
		var l slog.Level
		if err := l.UnmarshalText([]byte(v.S)); err != nil {
			panic(err)
		}
		return l
	case "ip":
		return net.ParseIP(v.S)
	case "mac":
		m, err := net.ParseMAC(v.S)
		if err != nil {
			panic(err)
		}
		return m
	case "net":
		_, n, err := net.ParseCIDR(v.S)
		if err != nil {
			panic(err)
		}
		return n
	case "url":
		u, err := url.Parse(v.S)
		if err != nil {
			panic(err)
		}
		return u
	case "bytes":
		b := make([]byte, len(v.N))
		for i, n := range v.N {
			b[i] = byte(n)
		}
		return b
	case "nil":
		return nil
	case "nilptr":
		return (*record)(nil)
	case "nilslice":
		return []int(nil)
	case "nilmap":
		return map[string]int(nil)
	case "list":
		return v.list()
	case "dict":
		return v.dict()
	case "nan":
		return bits(v.S)
	case "nanlist":
		return []float64{1, math.NaN()}
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	case "complex":
		return complex(1, 2)
	case "boolkey":
		return map[bool]int{true: 1}
	case "badjson":
		return badJSON{}
	case "badtext":
		return badText{}
	case "badstruct":
		return struct {
			A int
			B any
		}{1, badJSON{}}
	case "selfvaluer":
		return selfValuer{}
	case "panicvaluer":
		return panicValuer{}
	case "longchain":
		w := slog.IntValue(1)
		for range 200 {
			w = slog.AnyValue(valuer{w})
		}
		return valuer{w}
	}
	panic("unknown kind " + v.T)
}

// list makes a []any, []int or []string.
func (v value) list() any {
	ints, strs := len(v.A) > 0, len(v.A) > 0
	for _, a := range v.A {
		ints = ints && a.T == "int"
		strs = strs && a.T == "str"
	}
	switch {
	case ints && v.S == "typed":
		out := []int64{}
		for _, a := range v.A {
			out = append(out, num(a.S))
		}
		return out
	case strs && v.S == "typed":
		out := []string{}
		for _, a := range v.A {
			out = append(out, a.S)
		}
		return out
	case ints && v.S == "array" && len(v.A) == 2:
		return [2]int64{num(v.A[0].S), num(v.A[1].S)}
	}
	out := []any{}
	for _, a := range v.A {
		out = append(out, a.any())
	}
	return out
}

// dict makes a map (members are given in order of their keys) or, if asked for, a struct.
func (v value) dict() any {
	if v.S == "struct" || v.S == "pstruct" {
		r := record{A: int(num(v.A[0].S)), f: 1}
		for _, a := range v.A[1:] {
			switch a.K {
			case "b":
				r.B = a.S
			case "c":
				if a.T == "list" {
					r.C = []int{}
					for _, x := range a.A {
						r.C = append(r.C, int(num(x.S)))
					}
				}
			case "d":
				d := a.dict().(record)
				r.D = &d
			case "e":
				r.E = a.any()
			}
		}
		if v.S == "pstruct" {
			return &r
		}
		return r
	}
	out := map[string]any{}
	for _, a := range v.A {
		out[a.K] = a.any()
	}
	return out
}

// typed makes the attribute with the function for its type, if there is one.
func (v value) typed() slog.Value {
	switch x := v.any().(type) {
	case bool:
		return slog.BoolValue(x)
	case int64:
		return slog.Int64Value(x)
	case uint64:
		return slog.Uint64Value(x)
	case float64:
		return slog.Float64Value(x)
	case time.Duration:
		return slog.DurationValue(x)
	case time.Time:
		return slog.TimeValue(x)
	case string:
		return slog.StringValue(x)
	default:
		return slog.AnyValue(x)
	}
}

// attr wraps the value, outermost wrapper first.
func attr(key string, w []string, v slog.Value) slog.Attr {
	if len(w) == 0 {
		return slog.Attr{Key: key, Value: v}
	}
	switch w[0] {
	case "lv":
		in := attr(key, w[1:], v)
		return slog.Attr{Key: in.Key, Value: slog.AnyValue(valuer{in.Value})}
	case "plv":
		in := attr(key, w[1:], v)
		return slog.Attr{Key: in.Key, Value: slog.AnyValue(&ptrValuer{in.Value})}
	case "grp":
		return slog.Attr{Key: key, Value: slog.GroupValue(attr("x", w[1:], v))}
	case "inl":
		return slog.Attr{Key: "", Value: slog.GroupValue(attr(key, w[1:], v))}
	}
	panic("wrapper " + w[0])
}

func decode(dec *json.Decoder, key string) (entry, error) {
	e := entry{K: key, F: []entry{}, L: []entry{}}
	tok, err := dec.Token()
	if err != nil {
		return e, err
	}
	switch t := tok.(type) {
	case json.Delim:
		e.J = t.String()
		for dec.More() {
			k := ""
			if t == '{' {
				kt, err := dec.Token()
				if err != nil {
					return e, err
				}
				k = kt.(string)
			}
			x, err := decode(dec, k)
			if err != nil {
				return e, err
			}
			if t == '{' {
				e.F = append(e.F, x)
			} else {
				e.L = append(e.L, x)
			}
		}
		_, err = dec.Token()
		return e, err
	case json.Number:
		e.J = "n:" + string(t)
	case string:
		e.J = "s:" + t
	case bool:
		e.J = fmt.Sprintf("b:%t", t)
	default:
		e.J = "z"
	}
	return e, nil
}

func floats(es []entry) {
	for i := range es {
		floats(es[i].F)
		if len(es[i].J) > 2 && es[i].J[:2] == "n:" {
			if f, err := strconv.ParseFloat(es[i].J[2:], 64); err == nil {
				es[i].J = fmt.Sprintf("f:%016x", math.Float64bits(f))
			}
		}
	}
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	kit.Each(func(p *program) any {
		var buf bytes.Buffer
		opts := &slog.HandlerOptions{}
		v := p.V.typed()
		if p.Via == "any" {
			v = slog.AnyValue(p.V.any())
		}
		a := attr("k", p.W, v)
		if p.Via == "replace" {
			given := a
			a = slog.String("k", "REPLACE ME")
			opts.ReplaceAttr = func(groups []string, b slog.Attr) slog.Attr {
				if b.Key == "k" && b.Value.Kind() == slog.KindString && b.Value.String() == "REPLACE ME" {
					return given
				}
				return b
			}
		}
		o := observed{Tree: []entry{}}
		o.Panic = kit.Guard(5*time.Second, func() {
			var h slog.Handler
			if p.H == "flash" {
				h = flash.NewHandler(&buf, opts, nil)
			} else {
				h = sloggy.NewHandler(&buf, opts)
			}
			for _, v := range p.Pre {
				r := slog.NewRecord(time.Time{}, slog.LevelInfo, "m", 0)
				r.AddAttrs(attr("k", p.W, v.typed()))
				_ = h.Handle(context.Background(), r)
			}
			buf.Reset()
			r := slog.NewRecord(time.Time{}, slog.LevelInfo, "m", 0)
			if p.Via == "with" {
				h = h.WithAttrs([]slog.Attr{slog.Int("before", 1), a})
			} else {
				r.AddAttrs(slog.Int("before", 1), a)
			}
			r.AddAttrs(slog.Int("after", 2))
			if err := h.Handle(context.Background(), r); err != nil {
				o.Err = "E: " + err.Error()
			}
		})
		o.Raw = buf.String()
		if json.Valid(buf.Bytes()) && bytes.Count(buf.Bytes(), []byte{'\n'}) == 1 {
			dec := json.NewDecoder(&buf)
			dec.UseNumber()
			e, err := decode(dec, "")
			o.OK = err == nil && e.J == "{"
			if o.OK {
				fs := e.F
				n := len(fs)
				if n < 4 || fs[0].K != "level" || fs[0].J != "s:INFO" || fs[1].K != "msg" || fs[1].J != "s:m" ||
					fs[2].K != "before" || fs[2].J != "n:1" || fs[n-1].K != "after" || fs[n-1].J != "n:2" {
					o.Rest = "see the record"
				} else {
					o.Tree = append(o.Tree, fs[3:n-1]...)
					if p.V.T == "float" || p.V.T == "float32" {
						floats(o.Tree)
					}
				}
			}
		}
		p.O = o
		return p
	})
}
