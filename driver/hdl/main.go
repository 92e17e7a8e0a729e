// Driver for the flash and sloggy handlers: runs programs of handler calls and
// records what reaches the writer and the ReplaceAttr function.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"maps"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/madkins23/go-slog/creator/madkinsflash"
	"github.com/madkins23/go-slog/creator/madkinsreplattr"
	"github.com/madkins23/go-slog/creator/madkinssloggy"
	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type attr struct {
	K string `json:"k"`
	T string `json:"t"`
	J string `json:"j"`
	G string `json:"g,omitempty"`
	A []attr `json:"a"`
}

type rule struct {
	K   string   `json:"k"`
	Any bool     `json:"any"`
	P   []string `json:"p"`
	Act string   `json:"act"`
	S   string   `json:"s"`
	A   []attr   `json:"a"`
}

type name struct {
	L int    `json:"l"`
	N string `json:"n"`
}

type config struct {
	H     string `json:"h"`
	Src   bool   `json:"src"`
	Level string `json:"level"` // "none", "var" or a number
	Rules []rule `json:"rules"`
	Rep   bool   `json:"rep"`
	Names []name `json:"names"`
	TK    string `json:"tk"`
	LK    string `json:"lk"`
	MK    string `json:"mk"`
	SK    string `json:"sk"`
	TF    string `json:"tf"`
	Nil   bool   `json:"nil"` // pass nil options and extras
	Share bool   `json:"share"`
	Norm  bool   `json:"norm"`
	Via   string `json:"via"` // made by "creator" or "replattr", a creator that corrects what it configures
}

type record struct {
	Time  string `json:"time"`
	Level int    `json:"level"`
	Msg   string `json:"msg"`
	PC    bool   `json:"pc"`
	As    []attr `json:"as"`
}

type call struct {
	P []string `json:"p"`
	K string   `json:"k"`
	J string   `json:"j"`
}

type observed struct {
	N      int         `json:"n"`      // records (lines) written
	W      int         `json:"w"`      // Write calls
	OK     bool        `json:"ok"`     // every line a valid object, output ends with one terminator
	Tree   []kit.Entry `json:"tree"`   // the (last) record
	Raw    string      `json:"raw"`    // everything written
	Err    string      `json:"err"`    // error returned
	Panic  string      `json:"panic"`  // panic seen by the caller
	Calls  []call      `json:"calls"`  // ReplaceAttr consultations
	En     bool        `json:"en"`     // Enabled's answer
	Mut    string      `json:"mut"`    // modification of the caller's options
	TimeAt string      `json:"timeat"` // the time in the configured format
}

type event struct {
	Op   string    `json:"op"` // root with group log level enabled
	L    int       `json:"l"`
	As   []attr    `json:"as"`
	N    string    `json:"n"`
	R    record    `json:"r"`
	API  string    `json:"api"`  // handler or logger
	Ctx  string    `json:"ctx"`  // "" or canceled
	Fail string    `json:"fail"` // "", err, short, panic
	V    int       `json:"v"`
	C    *config   `json:"c,omitempty"`
	O    *observed `json:"o"`
}

type program struct {
	ID  int             `json:"id"`
	Chk []string        `json:"chk"`
	C   config          `json:"c"`
	Ev  []event         `json:"ev"`
	X   json.RawMessage `json:"x,omitempty"`
}

// ----------------------------------------------------------------------------

type valuer struct{ v slog.Value }

func (v valuer) LogValue() slog.Value { return v.v }

// ptrValuer is a LogValuer with a pointer receiver.
type ptrValuer struct{ v slog.Value }

func (v *ptrValuer) LogValue() slog.Value { return v.v }

type stringer string

func (s stringer) String() string { return string(s) }

type panicStringer struct{}

func (panicStringer) String() string { panic("boom: stringer") }

type panicError struct{}

func (panicError) Error() string { panic("boom: error") }

type panicMarshal struct{}

func (panicMarshal) MarshalJSON() ([]byte, error) { panic("boom: marshal") }

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("boom: json") }

type badText struct{}

func (badText) MarshalText() ([]byte, error) { return nil, errors.New("boom: text") }

type badInside struct {
	A int
	C chan int
}
type badNested struct{ X badJSON }

func (a *attr) attr() slog.Attr { return slog.Attr{Key: a.K, Value: a.value()} }

func attrs(as []attr) []slog.Attr {
	r := make([]slog.Attr, 0, len(as))
	for i := range as {
		r = append(r, as[i].attr())
	}
	return r
}

func (a *attr) value() slog.Value {
	switch a.T {
	case "nil":
		return slog.AnyValue(nil)
	case "grp":
		// Not slog.GroupValue which removes empty groups.
		if a.G == "raw" {
			return slog.GroupValue(attrs(a.A)...)
		}
		return slog.GroupValue(attrs(a.A)...)
	case "lv":
		if a.G == "ptr" {
			return slog.AnyValue(&ptrValuer{a.A[0].value()})
		}
		return slog.AnyValue(valuer{a.A[0].value()})
	}
	switch a.G {
	case "panic":
		return slog.AnyValue(panicStringer{})
	case "panicerr":
		return slog.AnyValue(panicError{})
	case "panicmarshal":
		return slog.AnyValue(panicMarshal{})
	case "badjson":
		return slog.AnyValue(badJSON{})
	case "badtext":
		return slog.AnyValue(badText{})
	case "badchan":
		return slog.AnyValue(make(chan int))
	case "badfunc":
		return slog.AnyValue(func() {})
	case "badinside":
		return slog.AnyValue(badInside{A: 1})
	case "badnested":
		return slog.AnyValue([]badNested{{}})
	}
	if len(a.J) < 2 {
		return slog.AnyValue(nil)
	}
	text := a.J[2:]
	switch a.J[0] {
	case 'n':
		i, err := strconv.ParseInt(text, 10, 64)
		if err != nil {
			panic(err)
		}
		switch a.G {
		case "uint":
			return slog.Uint64Value(uint64(i))
		case "dur":
			return slog.DurationValue(time.Duration(i))
		case "int32":
			return slog.AnyValue(int32(i))
		case "any":
			type num struct{}
			return slog.AnyValue(json.Number(text)).Resolve()
		}
		return slog.Int64Value(i)
	case 'b':
		return slog.BoolValue(text == "true")
	case 'z':
		return slog.AnyValue(nil)
	}
	switch a.G {
	case "stringer":
		return slog.AnyValue(stringer(text))
	case "error":
		return slog.AnyValue(errors.New(text))
	}
	return slog.StringValue(text)
}

// canonical names a value as the specification does.
func (m *machine) canonical(v slog.Value) string {
	switch v.Kind() {
	case slog.KindBool:
		return fmt.Sprintf("b:%t", v.Bool())
	case slog.KindInt64:
		return fmt.Sprintf("n:%d", v.Int64())
	case slog.KindUint64:
		return fmt.Sprintf("n:%d", v.Uint64())
	case slog.KindDuration:
		return fmt.Sprintf("n:%d", v.Duration().Nanoseconds())
	case slog.KindString:
		return "s:" + v.String()
	case slog.KindTime:
		return "s:" + v.Time().Format(m.timeFormat())
	case slog.KindGroup:
		return "GROUP"
	case slog.KindLogValuer:
		return "LOGVALUER"
	}
	switch a := v.Any().(type) {
	case nil:
		return "z"
	case fmt.Stringer:
		return "s:" + a.String()
	case error:
		return "s:" + a.Error()
	default:
		b, err := json.Marshal(a)
		if err != nil {
			return "a:" + err.Error()
		}
		if es, err := kit.Parse(b); err == nil && m.isSource(es) {
			return "src"
		}
		return "a:" + string(b)
	}
}

// ----------------------------------------------------------------------------

type writer struct {
	fail  string
	calls [][]byte
}

func (w *writer) Write(p []byte) (int, error) {
	switch w.fail {
	case "err":
		return 0, errors.New("disk full")
	case "short":
		return len(p) / 2, io.ErrShortWrite
	case "panic":
		panic("boom: writer")
	}
	w.calls = append(w.calls, slices.Clone(p))
	return len(p), nil
}

type machine struct {
	c        config
	w        *writer
	hs       []slog.Handler
	cs       []config // configuration of each
	lv       *slog.LevelVar
	calls    []call
	src      [3]string // function, file, line
	opts     *slog.HandlerOptions
	extras   *flash.Extras
	optsWas  slog.HandlerOptions
	exWas    flash.Extras
	namesWas map[slog.Level]string
}

func (m *machine) timeFormat() string {
	if m.c.TF != "" && m.c.H == "flash" {
		return m.c.TF
	}
	return time.RFC3339Nano
}

func (m *machine) replace(groups []string, a slog.Attr) slog.Attr {
	empty := a.Key == "" && a.Value.Kind() == slog.KindAny && a.Value.Any() == nil
	if empty {
		return a
	}
	m.calls = append(m.calls, call{P: append([]string{}, groups...), K: a.Key, J: m.canonical(a.Value)})
	for i := range m.c.Rules {
		r := &m.c.Rules[i]
		if (r.K == "*" || r.K == a.Key) && (r.Any || slices.Equal(r.P, groups)) {
			switch r.Act {
			case "drop":
				return slog.Attr{}
			case "rename":
				a.Key = r.S
			case "path":
				a.Value = slog.StringValue(strings.Join(groups, "/"))
			case "set":
				a.Value = (&attr{J: r.S, T: "leaf"}).value()
			case "value":
				a.Value = r.A[0].value()
			case "attr":
				a = r.A[0].attr()
			}
			return a
		}
	}
	return a
}

func (m *machine) root() slog.Handler {
	if m.opts == nil || !m.c.Share {
		m.opts, m.extras = &slog.HandlerOptions{AddSource: m.c.Src}, nil
		switch m.c.Level {
		case "none", "":
		case "var":
			m.opts.Level = m.lv
		default:
			n, err := strconv.Atoi(m.c.Level)
			if err != nil {
				panic(err)
			}
			m.opts.Level = slog.Level(n)
		}
		if m.c.Rep {
			m.opts.ReplaceAttr = m.replace
		}
		if m.c.Nil {
			m.opts = nil
		} else {
			m.extras = &flash.Extras{TimeFormat: m.c.TF, LevelKey: m.c.LK, MessageKey: m.c.MK, SourceKey: m.c.SK, TimeKey: m.c.TK}
			if m.c.Names != nil && len(m.c.Names) > 0 {
				m.extras.LevelNames = map[slog.Level]string{}
				for _, n := range m.c.Names {
					m.extras.LevelNames[slog.Level(n.L)] = n.N
				}
			}
			m.optsWas = *m.opts
			m.exWas = *m.extras
			m.namesWas = maps.Clone(m.extras.LevelNames)
		}
	}
	if m.c.Via != "" {
		create := madkinssloggy.Creator()
		if m.c.Via == "replattr" {
			create = madkinsreplattr.Creator()
		} else if m.c.H == "flash" {
			create = madkinsflash.Creator()
		}
		return create.NewHandler(m.w, m.opts)
	}
	if m.c.H == "flash" {
		return flash.NewHandler(m.w, m.opts, m.extras)
	}
	return sloggy.NewHandler(m.w, m.opts)
}

// mutated describes changes of the structures that were passed to NewHandler.
func (m *machine) mutated() string {
	if m.opts == nil {
		return ""
	}
	if m.opts.AddSource != m.optsWas.AddSource || m.opts.Level != m.optsWas.Level ||
		(m.opts.ReplaceAttr == nil) != (m.optsWas.ReplaceAttr == nil) {
		return "options"
	}
	e, w := m.extras, m.exWas
	if e.TimeFormat != w.TimeFormat || e.LevelKey != w.LevelKey || e.MessageKey != w.MessageKey ||
		e.SourceKey != w.SourceKey || e.TimeKey != w.TimeKey {
		return "extras"
	}
	if (e.LevelNames == nil) != (m.namesWas == nil) || !maps.Equal(e.LevelNames, m.namesWas) {
		return "level names"
	}
	return ""
}

func (m *machine) isSource(es []kit.Entry) bool {
	if len(es) != 3 {
		return false
	}
	got := map[string]string{}
	for _, e := range es {
		got[e.K] = e.J
	}
	return got["function"] == "s:"+m.src[0] && got["file"] == "s:"+m.src[1] && got["line"] == "n:"+m.src[2]
}

// norm replaces source objects and error texts by the names the specification uses.
func (m *machine) norm(es []kit.Entry, top bool) {
	for i := range es {
		e := &es[i]
		if e.J == "{" && m.isSource(e.F) {
			e.J, e.F = "src", []kit.Entry{}
		}
		if m.c.Norm && strings.HasPrefix(e.J, "s:") &&
			(strings.Contains(e.J, "boom") || strings.Contains(e.J, "unsupported")) {
			e.J = "E"
		}
		m.norm(e.F, false)
	}
}

func (m *machine) locate(pc uintptr) {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	m.src = [3]string{f.Function, f.File, strconv.Itoa(f.Line)}
}

func (m *machine) log(ev *event) {
	o := &observed{Tree: []kit.Entry{}, Calls: []call{}}
	ev.O = o
	m.w.calls, m.w.fail, m.calls = nil, ev.Fail, nil
	h := m.hs[ev.L-1]
	ctx := context.Background()
	if ev.Ctx == "canceled" {
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	}
	lvl := slog.Level(ev.R.Level)
	var from, to time.Time
	o.Panic = kit.Guard(10*time.Second, func() {
		as := attrs(ev.R.As)
		o.En = h.Enabled(ctx, lvl)
		if ev.API == "logger" {
			l := slog.New(h)
			from = time.Now()
			var pcs [1]uintptr
			runtime.Callers(1, pcs[:])
			f, _ := runtime.CallersFrames(pcs[:]).Next()
			m.src = [3]string{f.Function, f.File, strconv.Itoa(f.Line + 3)}
			l.LogAttrs(ctx, lvl, ev.R.Msg, as...)
			to = time.Now()
			return
		}
		if !o.En {
			return
		}
		var t time.Time
		if ev.R.Time != "" {
			var err error
			if t, err = time.Parse(time.RFC3339Nano, ev.R.Time); err != nil {
				panic(err)
			}
		}
		var pcs [1]uintptr
		runtime.Callers(1, pcs[:])
		m.locate(pcs[0])
		if !ev.R.PC {
			pcs[0] = 0
		}
		if !t.IsZero() {
			o.TimeAt = t.Format(m.timeFormat())
		}
		rec := slog.NewRecord(t, lvl, ev.R.Msg, pcs[0])
		rec.AddAttrs(as...)
		if err := h.Handle(ctx, rec); err != nil {
			o.Err = err.Error()
		}
	})
	if m.calls != nil {
		o.Calls = m.calls
	}
	m.observe(o)
	if ev.API == "logger" {
		o.TimeAt = "NOW"
		key := "time"
		if m.c.TK != "" && m.c.H == "flash" {
			key = m.c.TK
		}
		fix := func(j string) string {
			if t, err := time.Parse(m.timeFormat(), strings.TrimPrefix(j, "s:")); err == nil &&
				!t.Before(from.Add(-time.Second)) && !t.After(to.Add(time.Second)) {
				return "s:NOW"
			}
			return j
		}
		for i := range o.Tree {
			if o.Tree[i].K == key || strings.HasPrefix(o.Tree[i].J, "s:20") {
				o.Tree[i].J = fix(o.Tree[i].J)
			}
		}
		for i := range o.Calls {
			if o.Calls[i].K == key {
				o.Calls[i].J = fix(o.Calls[i].J)
			}
		}
	}
	o.Mut = m.mutated()
}

func (m *machine) observe(o *observed) {
	var all []byte
	for _, c := range m.w.calls {
		all = append(all, c...)
	}
	o.W, o.Raw, o.OK = len(m.w.calls), string(all), true
	if len(all) == 0 {
		return
	}
	if all[len(all)-1] != '\n' {
		o.OK = false
	}
	for _, line := range strings.Split(strings.TrimSuffix(string(all), "\n"), "\n") {
		o.N++
		es, err := kit.Parse([]byte(strings.TrimSuffix(line, "\r")))
		if err != nil {
			o.OK = false
			continue
		}
		m.norm(es, true)
		o.Tree = es
	}
}

func run(p *program) any {
	m := &machine{c: p.C, w: &writer{}, lv: &slog.LevelVar{}}
	if p.C.Rules != nil {
		m.c.Rep = m.c.Rep || len(p.C.Rules) > 0
	}
	for i := range p.Ev {
		ev := &p.Ev[i]
		m.w.calls, m.calls, m.w.fail = nil, nil, ""
		if ev.L > 0 {
			m.c = m.cs[ev.L-1]
		}
		switch ev.Op {
		case "root":
			if ev.C != nil {
				m.c = *ev.C
				m.c.Rep = m.c.Rep || len(m.c.Rules) > 0
			}
			m.hs = append(m.hs, m.root())
			m.cs = append(m.cs, m.c)
			ev.O = &observed{Tree: []kit.Entry{}, Calls: []call{}, Mut: m.mutated()}
		case "with":
			h := m.hs[ev.L-1]
			o := &observed{Tree: []kit.Entry{}, Calls: []call{}}
			ev.O = o
			nh := h
			o.Panic = kit.Guard(10*time.Second, func() {
				as := attrs(ev.As)
				if ev.API == "logger" {
					args := make([]any, 0, len(as))
					for _, a := range as {
						args = append(args, a)
					}
					nh = slog.New(h).With(args...).Handler()
				} else {
					nh = h.WithAttrs(as)
				}
			})
			if m.calls != nil {
				o.Calls = m.calls
			}
			m.observe(o)
			o.Mut = m.mutated()
			m.hs = append(m.hs, nh)
			m.cs = append(m.cs, m.c)
		case "group":
			h := m.hs[ev.L-1]
			o := &observed{Tree: []kit.Entry{}, Calls: []call{}}
			ev.O = o
			nh := h
			o.Panic = kit.Guard(10*time.Second, func() {
				if ev.API == "logger" {
					nh = slog.New(h).WithGroup(ev.N).Handler()
				} else {
					nh = h.WithGroup(ev.N)
				}
			})
			m.observe(o)
			o.Mut = m.mutated()
			m.hs = append(m.hs, nh)
			m.cs = append(m.cs, m.c)
		case "level":
			m.lv.Set(slog.Level(ev.V))
			ev.O = &observed{Tree: []kit.Entry{}, Calls: []call{}}
		case "log":
			m.log(ev)
		}
	}
	return p
}

func main() { kit.Each(run) }
