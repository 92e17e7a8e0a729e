// Driver for parsed data: loads texts and dumps every view of the warnings.
package main

import (
	"flag"
	"io"
	"log/slog"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

// long stands for <LONG> in texts.
var long = strings.Repeat("x", 70000)

type inst struct {
	Tag   string `json:"tag"`
	Src   string `json:"src"`
	Extra string `json:"extra"`
	Line  string `json:"line"`
}

type group struct {
	Name    string `json:"name"`
	Summary string `json:"summary"`
	Insts   []inst `json:"insts"`
}

type level struct {
	Level int     `json:"level"`
	Ws    []group `json:"ws"`
}

type link struct {
	Name string `json:"name"`
	Url  string `json:"url"`
}

type view struct {
	Tag    string  `json:"tag"`
	Name   string  `json:"name"`
	Levels []level `json:"levels"`
	HasSum bool    `json:"hassum"`
	Links  []link  `json:"links"`
}

type count struct {
	H string `json:"h"`
	N int    `json:"n"`
}

type byWarning struct {
	Name   string   `json:"name"`
	Counts []count  `json:"counts"`
	Hs     []string `json:"hs"`
	Ts     []string `json:"ts"`
}

type name struct {
	Tag  string `json:"tag"`
	Name string `json:"name"`
}

// act is something done with a real manager.
type act struct {
	M    int    `json:"m"`
	W    string `json:"w"`
	Fn   string `json:"fn"`
	Text string `json:"text"`
	Rec  string `json:"rec"`
}

type program struct {
	Src     string   `json:"src"`
	Mode    string   `json:"mode"`    // parse, setup or managers
	Texts   []string `json:"texts"`   // text of each source
	Sources []string `json:"sources"` // name of each source
	Lookup  []name   `json:"lookup"`
	Warns   []struct {
		Name    string `json:"name"`
		Level   int    `json:"level"`
		Summary string `json:"summary"`
	} `json:"warns"`
	Mgrs []struct {
		Name string `json:"name"`
		Show string `json:"show"`
	} `json:"mgrs"`
	Acts     []act       `json:"acts"`
	Tail     string      `json:"tail"`
	Lines    any         `json:"lines"`
	NoSum    bool        `json:"nosum"`
	Query    bool        `json:"query"` // query between sources
	Handlers []view      `json:"handlers"`
	Tests    []view      `json:"tests"`
	Ws       []byWarning `json:"ws"`
	HNames   []name      `json:"hnames"`
	Err      string      `json:"err"`
	Panic    string      `json:"panic"`
}

func levels(ls *data.Levels, byTest bool) []level {
	out := []level{}
	for _, l := range ls.Levels() {
		lv := level{Level: int(l.Level), Ws: []group{}}
		for _, w := range l.Warnings() {
			g := group{Name: w.Name(), Summary: w.Summary(), Insts: []inst{}}
			for _, i := range w.Instances() {
				x := inst{i.Tag(), i.Source(), i.Extra(), strings.ReplaceAll(i.Line(), long, "<LONG>")}
				if byTest {
					x.Tag, x.Src = i.Name(), ""
				}
				g.Insts = append(g.Insts, x)
			}
			lv.Ws = append(lv.Ws, g)
		}
		out = append(out, lv)
	}
	return out
}

func dump(p *program, w *data.Warnings) {
	p.Handlers, p.Tests, p.Ws, p.HNames = []view{}, []view{}, []byWarning{}, []name{}
	for _, h := range w.HandlerTags() {
		v := view{Tag: string(h), Name: w.HandlerName(h), Levels: levels(w.ForHandler(h), false), HasSum: w.HasHandlerSummary(h), Links: []link{}}
		for n, u := range w.HandlerLinks(h) {
			v.Links = append(v.Links, link{n, u})
		}
		p.Handlers = append(p.Handlers, v)
		p.HNames = append(p.HNames, name{string(h), h.Name()})
	}
	for _, t := range w.TestTags() {
		p.Tests = append(p.Tests, view{Tag: string(t), Name: w.TestName(t), Levels: levels(w.ForTest(t), true), Links: []link{}})
	}
	for _, x := range p.Warns {
		d := w.FindWarning(x.Name)
		b := byWarning{Name: x.Name, Counts: []count{}, Hs: []string{}, Ts: []string{}}
		for h := range d.Count {
			b.Counts = append(b.Counts, count{string(h), int(w.HandlerWarningCount(h, warning.ByName(x.Name)))})
		}
		sort.Slice(b.Counts, func(i, j int) bool { return b.Counts[i].H < b.Counts[j].H })
		for _, h := range d.Handlers() {
			b.Hs = append(b.Hs, string(h))
		}
		for _, t := range d.Tests() {
			b.Ts = append(b.Ts, string(t))
		}
		p.Ws = append(p.Ws, b)
	}
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	dir, err := os.MkdirTemp("", "views")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	kit.Each(func(p *program) any {
		for _, x := range p.Warns {
			if warning.ByName(x.Name) == nil {
				warning.NewWarning(warning.Level(x.Level), x.Name, x.Summary, "")
			}
		}
		for i := range p.Texts {
			p.Texts[i] = strings.ReplaceAll(p.Texts[i], "<LONG>", long)
		}
		for i := range p.Acts {
			p.Acts[i].Rec = strings.ReplaceAll(p.Acts[i].Rec, "<LONG>", long)
		}
		lookup := map[string]data.HandlerTag{}
		for _, l := range p.Lookup {
			lookup[l.Name] = data.HandlerTag(l.Tag)
		}
		p.Panic = kit.Guard(10*time.Second, func() {
			w := data.NewWarnings()
			failed := func(err error) bool {
				if err != nil {
					p.Err = "E: " + err.Error()
				}
				return err != nil
			}
			switch p.Mode {
			case "setup":
				for i, f := range []string{"bench", "verify"} {
					path := filepath.Join(dir, f)
					os.WriteFile(path, []byte(p.Texts[i]), 0o600)
					flag.Set(f, path)
				}
				if failed(data.Setup(data.NewBenchmarks(), w)) {
					return
				}
			case "managers":
				text := &strings.Builder{}
				var ms []*warning.Manager
				for _, m := range p.Mgrs {
					mgr := warning.NewWarningManager(m.Name, "Test", m.Show)
					for _, x := range p.Warns {
						mgr.Predefine(warning.ByName(x.Name))
					}
					ms = append(ms, mgr)
				}
				for _, a := range p.Acts {
					ms[a.M-1].AddWarningFnText(warning.ByName(a.W), a.Fn, a.Text, a.Rec)
				}
				for _, m := range ms {
					m.ShowWarnings(text)
				}
				text.WriteString(p.Tail)
				p.Texts = []string{text.String()}
				if failed(w.ParseWarningData(strings.NewReader(p.Texts[0]), p.Sources[0], lookup)) {
					return
				}
			default:
				for i, text := range p.Texts {
					if failed(w.ParseWarningData(strings.NewReader(text), p.Sources[i], lookup)) {
						return
					}
					if p.Query {
						dump(p, w)
					}
				}
			}
			dump(p, w)
		})
		for i := range p.Texts {
			p.Texts[i] = strings.ReplaceAll(p.Texts[i], long, "<LONG>")
		}
		for i := range p.Acts {
			p.Acts[i].Rec = strings.ReplaceAll(p.Acts[i].Rec, long, "<LONG>")
		}
		if p.Handlers == nil {
			p.Handlers, p.Tests, p.Ws, p.HNames = []view{}, []view{}, []byWarning{}, []name{}
		}
		return p
	})
}
