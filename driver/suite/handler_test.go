package suite

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

// bent is a handler that follows the rules of log/slog save for a set of defects.
type bent struct {
	w      io.Writer
	mu     *sync.Mutex
	opts   slog.HandlerOptions
	bad    map[string]bool
	steps  []step     // groups opened and attributes given so far
	level  slog.Level // when created
	shared *[]step
}

type step struct {
	group string
	attrs []slog.Attr
}

type field struct {
	k string
	v any // JSON value or []field
}

func newBent(w io.Writer, opts *slog.HandlerOptions, bad []string) slog.Handler {
	h := &bent{w: w, mu: &sync.Mutex{}, bad: map[string]bool{}}
	if opts != nil {
		h.opts = *opts
	}
	for _, d := range bad {
		h.bad[d] = true
	}
	switch {
	case h.opts.Level != nil:
	case h.bad["DefaultDebug"]:
		h.opts.Level = slog.LevelDebug
	case h.bad["DefaultWarn"]:
		h.opts.Level = slog.LevelWarn
	case h.bad["DefaultSource"] && h.opts.AddSource:
		h.opts.Level = slog.LevelError
	default:
		h.opts.Level = slog.LevelInfo
	}
	h.level = h.opts.Level.Level()
	if h.bad["NoReplAttr"] {
		h.opts.ReplaceAttr = nil
	}
	h.shared = new([]step)
	return h
}

func (h *bent) Enabled(_ context.Context, l slog.Level) bool {
	min := h.opts.Level.Level()
	if h.bad["LevelVar"] {
		min = h.level
	}
	if h.bad["LevelMath"] && l%4 != 0 {
		return false
	}
	if h.bad["NotDisabled"] {
		return true
	}
	return l >= min
}

func (h *bent) with(s step) slog.Handler {
	c := *h
	c.steps = append(append([]step{}, h.steps...), s)
	if h.bad["DerivedWith"] && s.group == "" || h.bad["DerivedGroup"] && s.group != "" {
		h.steps = c.steps // the original changes as well
	}
	return &c
}

func (h *bent) WithAttrs(as []slog.Attr) slog.Handler {
	if len(as) == 0 {
		return h
	}
	if h.bad["WithLost"] {
		return h
	}
	return h.with(step{attrs: as})
}

func (h *bent) WithGroup(g string) slog.Handler {
	if g == "" || h.bad["GroupLost"] {
		return h
	}
	return h.with(step{group: g})
}

func (h *bent) Handle(ctx context.Context, r slog.Record) error {
	if h.bad["CanceledContext"] && ctx.Err() != nil {
		return ctx.Err()
	}
	basic := []field{}
	repl := h.opts.ReplaceAttr
	if h.bad["NoReplAttrBasic"] {
		repl = nil
	}
	put := func(k string, v any, a slog.Attr) {
		if repl != nil {
			b := repl(nil, a)
			b.Value = b.Value.Resolve()
			if b.Equal(slog.Attr{}) {
				if h.bad["EmptyAttributes"] {
					basic = append(basic, field{"", nil})
				}
				return
			}
			if b.Key != a.Key {
				k = b.Key
			}
			if a.Key == slog.LevelKey || a.Key == slog.TimeKey || a.Key == slog.SourceKey {
				if !b.Value.Equal(a.Value) {
					v = h.value(b.Value, false)
				}
			} else {
				v = b.Value.String()
			}
		}
		basic = append(basic, field{k, v})
	}
	if !r.Time.IsZero() || h.bad["ZeroTime"] {
		layout := time.RFC3339Nano
		if h.bad["TimestampFormat"] {
			layout = time.RFC1123
		}
		if !h.bad["NoTime"] {
			put(slog.TimeKey, r.Time.Format(layout), slog.Time(slog.TimeKey, r.Time))
		}
	}
	level := r.Level.String()
	if h.bad["LevelWrong"] && r.Level == slog.LevelWarn {
		level = "WARNING"
	}
	if h.bad["LevelCase"] {
		level = strings.ToLower(level)
	}
	if h.bad["LevelNumber"] {
		put(slog.LevelKey, int(r.Level), slog.Any(slog.LevelKey, r.Level))
	} else if !h.bad["NoLevel"] {
		put(slog.LevelKey, level, slog.Any(slog.LevelKey, r.Level))
	}
	if h.opts.AddSource && (r.PC != 0 || h.bad["ZeroPC"] || h.bad["ZeroPCCaller"]) {
		f, _ := runtime.CallersFrames([]uintptr{r.PC}).Next()
		src := []field{{"function", f.Function}, {"file", f.File}, {"line", f.Line}}
		a := slog.Any(slog.SourceKey, &slog.Source{Function: f.Function, File: f.File, Line: f.Line})
		caller := fmt.Sprintf("%s:%d", filepath.Base(f.File), f.Line)
		switch {
		case h.bad["SourceCaller"] || r.PC == 0 && h.bad["ZeroPCCaller"]:
			put("caller", caller, slog.String("caller", caller))
		case h.bad["SourceNone"]:
		case h.bad["SourceNil"]:
			put(slog.SourceKey, nil, a)
		case h.bad["SourceText"]:
			put(slog.SourceKey, caller, a)
		case h.bad["SourceShort"]:
			put(slog.SourceKey, src[1:], a)
		case h.bad["SourceTyped"]:
			src[2].v = fmt.Sprint(f.Line)
			put(slog.SourceKey, src, a)
		default:
			put(slog.SourceKey, src, a)
		}
	}
	mk := slog.MessageKey
	if h.bad["MessageKey"] {
		mk = "message"
	}
	if !h.bad["NoMessage"] {
		put(mk, r.Message, slog.String(mk, r.Message))
	}
	attrs := []slog.Attr{}
	r.Attrs(func(a slog.Attr) bool { attrs = append(attrs, a); return true })
	top := []field{}
	// What comes out of the steps and the attributes of the record.
	var build func(steps []step, groups []string, inGroup, inWith bool) []field
	build = func(steps []step, groups []string, inGroup, inWith bool) []field {
		if len(steps) == 0 {
			fs := h.fields(groups, attrs)
			if h.bad["GroupAttrMsgTop"] && inGroup && inWith {
				top = append(top, fs...)
				return nil
			}
			return fs
		}
		s := steps[0]
		if s.group == "" {
			fs := h.fields(groups, s.attrs)
			if h.bad["GroupWithTop"] && inGroup {
				top = append(top, fs...)
				fs = nil
			}
			return append(fs, build(steps[1:], groups, inGroup, true)...)
		}
		if h.bad["WithGroup"] && inGroup {
			// Later groups are not nested.
			sub := build(steps[1:], append(append([]string{}, groups...), s.group), true, false)
			top = append(top, h.group(s.group, sub, true)...)
			return nil
		}
		return h.group(s.group, build(steps[1:], append(append([]string{}, groups...), s.group), true, false), true)
	}
	fs := build(h.steps, nil, false, false)
	all := append(append(basic, fs...), top...)
	var b bytes.Buffer
	h.render(&b, all)
	b.WriteByte('\n')
	h.mu.Lock()
	defer h.mu.Unlock()
	_, err := h.w.Write(b.Bytes())
	return err
}

func (h *bent) group(name string, fs []field, with bool) []field {
	if len(fs) == 0 && !(with && h.bad["WithGroupEmpty"]) && !(!with && h.bad["GroupEmpty"]) {
		return nil
	}
	if name == "" && h.bad["InlineLost"] {
		return nil
	}
	if name == "" && !h.bad["GroupInline"] {
		return fs
	}
	return []field{{name, append([]field{}, fs...)}}
}

func (h *bent) fields(groups []string, as []slog.Attr) (fs []field) {
	for _, a := range as {
		hidden := a.Value.Kind() == slog.KindLogValuer
		if !h.bad["Resolver"] {
			a.Value = a.Value.Resolve()
		}
		if h.opts.ReplaceAttr != nil && a.Value.Kind() != slog.KindGroup {
			gs := groups
			if h.bad["ReplAttrGroup"] {
				gs = nil
			}
			a = h.opts.ReplaceAttr(gs, a)
			if !h.bad["Resolver"] {
				a.Value = a.Value.Resolve()
			}
		}
		if a.Equal(slog.Attr{}) {
			if h.bad["EmptyAttributes"] {
				fs = append(fs, field{"", nil})
			}
			continue
		}
		if a.Value.Kind() == slog.KindGroup {
			in := groups
			if a.Key != "" {
				in = append(append([]string{}, groups...), a.Key)
			}
			if h.bad["GroupFlat"] {
				fs = append(fs, h.fields(groups, a.Value.Group())...)
				continue
			}
			fs = append(fs, h.group(a.Key, h.fields(in, a.Value.Group()), false)...)
			continue
		}
		if a.Key == "" && h.bad["NoEmptyName"] {
			continue
		}
		if a.Value.Kind() == slog.KindAny && a.Value.Any() == nil && h.bad["NoNilValue"] {
			continue
		}
		if hidden && h.bad["Resolver"] {
			fs = append(fs, field{a.Key, []field{}})
			continue
		}
		fs = append(fs, field{a.Key, h.value(a.Value, len(groups) > 0)})
	}
	return
}

func (h *bent) value(v slog.Value, inGroup bool) any {
	switch v.Kind() {
	case slog.KindDuration:
		d := v.Duration()
		if h.bad["GroupDuration"] && inGroup {
			return d.Nanoseconds()
		}
		switch {
		case h.bad["DurationString"]:
			return d.String()
		case h.bad["DurationSeconds"] || h.bad["GroupDuration"]:
			return d.Seconds()
		case h.bad["DurationMillis"]:
			return d.Milliseconds()
		}
		return d.Nanoseconds()
	case slog.KindTime:
		switch {
		case h.bad["TimeMillis"]:
			return v.Time().Format("2006-01-02T15:04:05.999Z07:00")
		case h.bad["TimeSeconds"]:
			return v.Time().Format(time.RFC3339)
		}
		return v.Time().Format(time.RFC3339Nano)
	case slog.KindGroup:
		return h.fields(nil, v.Group())
	case slog.KindString:
		return v.String()
	case slog.KindInt64:
		if h.bad["IntText"] {
			return fmt.Sprint(v.Int64())
		}
		return v.Int64()
	case slog.KindFloat64:
		if h.bad["FloatShort"] {
			return json.Number(fmt.Sprintf("%.6g", v.Float64()))
		}
		return v.Float64()
	case slog.KindBool:
		if h.bad["BoolNumber"] {
			if v.Bool() {
				return 1
			}
			return 0
		}
	}
	x := v.Any()
	if err, ok := x.(error); ok {
		return err.Error()
	}
	if m, ok := x.(map[string]any); ok && h.bad["StringAny"] {
		return fmt.Sprint(m)
	}
	return x
}

func (h *bent) render(b *bytes.Buffer, fs []field) {
	b.WriteByte('{')
	first := true
	for i, f := range fs {
		over := false
		for _, g := range fs[i+1:] {
			over = over || g.k == f.k
		}
		if over && !h.bad["Duplicates"] {
			continue
		}
		if !first {
			b.WriteByte(',')
		}
		first = false
		k, _ := json.Marshal(f.k)
		b.Write(k)
		b.WriteByte(':')
		if sub, ok := f.v.([]field); ok {
			h.render(b, sub)
			continue
		}
		if s, ok := f.v.(string); ok && h.bad["Unescaped"] {
			f.v = strings.Map(func(r rune) rune {
				if r < ' ' {
					return -1
				}
				return r
			}, s)
		}
		v, err := json.Marshal(f.v)
		if err != nil {
			v, _ = json.Marshal("!" + err.Error())
		}
		b.Write(v)
	}
	b.WriteByte('}')
}
