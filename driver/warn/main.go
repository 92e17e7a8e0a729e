// Driver for warning managers: replays histories of calls.
package main

import (
	"bytes"
	"io"
	"log/slog"
	"os"
	"regexp"
	"strings"
	"time"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type warn struct {
	Name    string `json:"name"`
	Level   int    `json:"level"`
	Summary string `json:"summary"`
}

type instance struct {
	Fn   string `json:"fn"`
	Text string `json:"text"`
	Rec  string `json:"rec"`
}

type reported struct {
	warn
	Count int        `json:"count"`
	Data  []instance `json:"data"`
}

type op struct {
	Op    string     `json:"op"`
	M     int        `json:"m"`
	W     string     `json:"w"`
	Ws    []string   `json:"ws"`
	Fn    string     `json:"fn"`
	Text  string     `json:"text"`
	Rec   string     `json:"rec"`
	Api   string     `json:"api"`
	Deep  int        `json:"deep"`
	Res   bool       `json:"res"`
	Names []string   `json:"names"`
	List  []reported `json:"list"`
	Panic string     `json:"panic"`
}

type closing struct {
	warn
	Handlers []string `json:"handlers"`
}

type program struct {
	Cat  []warn `json:"cat"`
	Mgrs []struct {
		Name   string `json:"name"`
		Prefix string `json:"prefix"`
		Show   string `json:"show"`
	} `json:"mgrs"`
	Ops     []op      `json:"ops"`
	Closing []closing `json:"closing"`
}

func deep(n int, fn func()) {
	if n > 0 {
		deep(n-1, fn)
	} else {
		fn()
	}
}

//go:noinline
func TestAlpha(n int, fn func()) { deep(n, fn) }

//go:noinline
func TestBeta(n int, fn func()) { deep(n, fn) }

//go:noinline
func BenchmarkGamma(n int, fn func()) { deep(n, fn) }

func from(o *op, fn func()) {
	switch o.Fn {
	case "TestAlpha":
		TestAlpha(o.Deep, fn)
	case "TestBeta":
		TestBeta(o.Deep, fn)
	case "BenchmarkGamma":
		BenchmarkGamma(o.Deep, fn)
	default:
		fn()
	}
}

var (
	ptnWarn = regexp.MustCompile(`^    \[(.*?)\] (.*)$`)
	ptnHdlr = regexp.MustCompile(`^      (\S.*)$`)
	ptnLvl  = regexp.MustCompile(`^  (\S.*)$`)
)

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	f, err := os.CreateTemp("", "warn")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	stdout := os.Stdout
	kit.Each(func(p *program) any {
		ws := map[string]*warning.Warning{}
		for _, w := range p.Cat {
			if ws[w.Name] = warning.ByName(w.Name); ws[w.Name] == nil {
				ws[w.Name] = warning.NewWarning(warning.Level(w.Level), w.Name, w.Summary, "")
			}
		}
		many := func(names []string) []*warning.Warning {
			out := []*warning.Warning{}
			for _, n := range names {
				out = append(out, ws[n])
			}
			return out
		}
		var ms []*warning.Manager
		mine := map[string]bool{}
		for _, m := range p.Mgrs {
			ms = append(ms, warning.NewWarningManager(m.Name, m.Prefix, m.Show))
			mine[m.Name] = true
		}
		for i := range p.Ops {
			o := &p.Ops[i]
			o.Names, o.List = []string{}, []reported{}
			m, w := ms[o.M-1], ws[o.W]
			o.Panic = kit.Guard(5*time.Second, func() {
				switch o.Op {
				case "predefine":
					m.Predefine(many(o.Ws)...)
				case "warnonly":
					from(o, func() { m.WarnOnly(w) })
				case "unused":
					from(o, func() { m.AddUnused(w, o.Rec) })
				case "add":
					switch o.Api {
					case "AddWarningFn":
						m.AddWarningFn(w, o.Fn, o.Rec)
					case "AddWarningFnText":
						m.AddWarningFnText(w, o.Fn, o.Text, o.Rec)
					default:
						from(o, func() { m.AddWarning(w, o.Text, o.Rec) })
					}
				case "skip":
					from(o, func() { m.SkipTest(w) })
				case "skipif":
					from(o, func() { o.Res = m.SkipTestIf(many(o.Ws)...) })
				case "has":
					o.Res = m.HasWarning(w)
				case "haslist":
					for _, x := range m.HasWarnings(many(o.Ws)...) {
						o.Names = append(o.Names, x.Name)
					}
				case "get":
					for _, x := range m.GetWarnings() {
						r := reported{warn{x.Name, int(x.Level), x.Summary}, int(x.Count), []instance{}}
						for _, d := range x.Data {
							r.Data = append(r.Data, instance{d.Function, d.Text, d.Record})
						}
						o.List = append(o.List, r)
					}
				case "show":
					m.ShowWarnings(&bytes.Buffer{})
				default:
					panic("bad operation " + o.Op)
				}
			})
		}
		f.Truncate(0)
		f.Seek(0, io.SeekStart)
		os.Stdout = f
		panicked := kit.Guard(5*time.Second, func() { warning.ShowHandlersByWarning("") })
		os.Stdout = stdout
		f.Seek(0, io.SeekStart)
		text, _ := io.ReadAll(f)
		p.Closing = []closing{}
		if panicked != "" {
			p.Closing = append(p.Closing, closing{warn{Name: panicked}, []string{}})
		}
		level, current, used := 0, warn{}, false
		for _, line := range strings.Split(string(text), "\n") {
			if m := ptnHdlr.FindStringSubmatch(line); m != nil {
				if mine[m[1]] {
					if !used {
						p.Closing = append(p.Closing, closing{current, []string{}})
						used = true
					}
					c := &p.Closing[len(p.Closing)-1]
					c.Handlers = append(c.Handlers, m[1])
				}
			} else if m := ptnWarn.FindStringSubmatch(line); m != nil {
				current, used = warn{m[1], level, m[2]}, false
			} else if m := ptnLvl.FindStringSubmatch(line); m != nil {
				if l, err := warning.ParseLevel(m[1]); err == nil {
					level = int(l)
				}
			}
		}
		return p
	})
}
