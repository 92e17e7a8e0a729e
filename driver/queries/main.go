// Driver for concurrent queries: replays overlapping queries over freshly loaded data.
// Every program runs in processes of its own, as some data is global:
// one asks each query alone, the other overlaps them as scheduled.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/exhibit"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type event struct {
	K string `json:"k"` // begin or end
	T int    `json:"t"`
	Q int    `json:"q"`
}

type answer struct {
	Q      int      `json:"q"`
	Answer string   `json:"answer"` // digest
	Text   string   `json:"text"`   // beginning
	List   []string `json:"list"`
	Panic  string   `json:"panic"`
}

type program struct {
	Bench   string   `json:"bench"`
	Verify  string   `json:"verify"`
	Queries []string `json:"queries"`
	Want    any      `json:"want"`
	Sched   []event  `json:"sched"`
	Times   int      `json:"times"`  // goroutines per thread
	Rounds  int      `json:"rounds"` // each over freshly loaded data
	Alone   []string `json:"alone"`
	Answers []answer `json:"answers"`
	Panic   string   `json:"panic"`
}

type loaded struct {
	b *data.Benchmarks
	w *data.Warnings
	k *score.Keeper
}

func load(p *program) *loaded {
	l := &loaded{b: data.NewBenchmarks(), w: data.NewWarnings()}
	must(l.b.ParseBenchmarkData(strings.NewReader(p.Bench)))
	must(l.w.ParseWarningData(bytes.NewReader(l.b.WarningText()), "Bench", l.b.HandlerLookup()))
	must(l.w.ParseWarningData(strings.NewReader(p.Verify), "Verify", l.b.HandlerLookup()))
	// Preparing scores queries the data, so do it only when scores are wanted.
	if slices.ContainsFunc(p.Queries, func(q string) bool { return strings.HasPrefix(q, "score.") }) {
		l.k = score.NewKeeper("K", axis.NewWarnings(map[warning.Level]uint{4: 8, 3: 4, 2: 2, 1: 1}, "<b>w</b>"),
			axis.NewBenchmarks(map[bench.Weight]uint{bench.Nanoseconds: 3, bench.AllocBytes: 2, bench.Allocations: 1}, "<b>b</b>", nil), "doc", nil, nil)
		must(l.k.Setup(l.b, l.w))
	}
	return l
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func texts[T ~string](ts []T) []string {
	r := make([]string, len(ts))
	for i, t := range ts {
		r[i] = string(t)
	}
	return r
}

// number drops digits that depend on the order of summation.
func number[T ~float64](n T) string {
	return fmt.Sprintf("%.6f", float64(n)+3.3e-9)
}

type list []string

func levels(ls *data.Levels) any {
	if ls == nil {
		return "none"
	}
	var out []any
	for _, l := range ls.Levels() {
		out = append(out, l.Name(), l.Count(), l.String(), ls.LevelCount(l.Level))
		for _, w := range l.Warnings() {
			out = append(out, w.Name(), w.Summary())
			if warning.ByName(w.Name()) != nil {
				out = append(out, w.HasDescription(), w.Description())
			}
			for _, i := range w.Instances() {
				out = append(out, i.Name(), i.Tag(), i.Source(), i.Extra(), i.ExtraHTML(), i.Line(), i.Log(), i.HasLog(), i.HasSource())
			}
		}
	}
	return out
}

// ask answers a query given as kind|argument.
func ask(l *loaded, q string) any {
	kind, arg, _ := strings.Cut(q, "|")
	h, t := data.HandlerTag(arg), data.TestTag(arg)
	switch kind {
	case "bench.handlers":
		return list(texts(l.b.HandlerTags()))
	case "bench.tests":
		return list(texts(l.b.TestTags()))
	case "bench.lookup":
		return l.b.HandlerLookup()
	case "bench.handler":
		return []any{l.b.HasHandler(h), l.b.HandlerName(h), l.b.TestRecordsFor(h)}
	case "bench.test":
		return []any{l.b.HasTest(t), l.b.TestName(t), l.b.HandlerRecordsFor(t)}
	case "bench.text":
		return []any{l.b.HasWarningText(), string(l.b.WarningText())}
	case "handler.name":
		return h.Name()
	case "test.name":
		return t.Name()
	case "warn.handlers":
		return list(texts(l.w.HandlerTags()))
	case "warn.tests":
		return list(texts(l.w.TestTags()))
	case "warn.source":
		return list(texts(l.w.TestTagsForSource(arg)))
	case "warn.handler":
		return []any{l.w.HasHandler(h), l.w.HandlerName(h), levels(l.w.ForHandler(h)), l.w.HasHandlerLinks(h), l.w.HandlerLinks(h)}
	case "warn.summary":
		return []any{l.w.HasHandlerSummary(h), l.w.HandlerSummaryHTML(h)}
	case "warn.test":
		return []any{l.w.HasTest(t), l.w.TestName(t), levels(l.w.ForTest(t))}
	case "warn.warning":
		wd := l.w.FindWarning(arg)
		out := []any{wd.HasHandlers(), wd.HasTests(), wd.HasUsage(), wd.Handlers(), wd.Tests()}
		if w := warning.ByName(arg); w != nil {
			out = append(out, w.Description())
			for _, h := range wd.Handlers() {
				out = append(out, l.w.HandlerWarningCount(h, w))
			}
		}
		return out
	case "warning.levels":
		var out []any
		for _, lv := range warning.LevelOrder {
			for _, w := range warning.WarningsForLevel(lv) {
				out = append(out, w.Name, w.HasDescription(), w.Description())
			}
		}
		return out
	case "score.handlers":
		return list(texts(l.k.HandlerTags()))
	case "score.tests":
		return list(texts(l.k.TestTags()))
	case "score.handler":
		if len(l.b.TestRecordsFor(h)) == 0 {
			return "none"
		}
		wx := l.k.X().(*axis.Warnings)
		var out []any
		for _, a := range []score.Axis{l.k.X(), l.k.Y()} {
			out = append(out, number(a.ScoreFor(h)))
			for _, ty := range score.TypeValues() {
				out = append(out, number(a.ScoreForType(h, ty)))
			}
			for _, t := range l.b.TestTags() {
				out = append(out, number(a.ScoreForTest(h, t)))
			}
		}
		for _, lv := range warning.LevelOrder {
			out = append(out, number(wx.ScoreForLevel(h, lv)), wx.CountForLevel(h, lv))
		}
		return out
	case "score.test":
		return []any{l.k.Y().HasTest(t), l.k.X().HasTest(t)}
	case "score.docs":
		out := []any{l.k.Overview(), l.k.Summary(), l.k.ChartTitle(), l.k.ChartCaption()}
		for _, n := range []string{"X", "Y"} {
			a := l.k.Axes()[n]
			out = append(out, a.Name(), a.Summary(), a.Documentation())
			for _, e := range a.Exhibits() {
				out = append(out, e.HTML(e))
			}
		}
		return out
	}
	panic("unknown query " + q)
}

func do(l *loaded, q string, n int) (a answer) {
	a = answer{Q: n, List: []string{}}
	defer func() {
		if r := recover(); r != nil {
			a.Panic = fmt.Sprintf("panic: %v", r)
		}
	}()
	r := ask(l, q)
	text, err := json.Marshal(r)
	must(err)
	sum := sha256.Sum256(text)
	a.Answer = hex.EncodeToString(sum[:8])
	a.Text = string(text[:min(len(text), 200)])
	if x, ok := r.(list); ok {
		a.List = x
	}
	return a
}

func alone(p *program) {
	p.Alone = []string{}
	for i, q := range p.Queries {
		a := do(load(p), q, i)
		if a.Panic != "" {
			panic(q + " alone: " + a.Panic)
		}
		p.Alone = append(p.Alone, a.Answer)
	}
}

// together lets queries overlap as scheduled: ones that have begun run freely until the schedule waits for their end.
func together(p *program) {
	l := load(p)
	var lock sync.Mutex
	running := map[int]*sync.WaitGroup{}
	var gate *atomic.Int32
	open := func() {
		if gate != nil {
			for gate.Load() > 0 { // until all have started
				runtime.Gosched()
			}
			gate.Store(-1)
			gate = nil
		}
	}
	for _, e := range p.Sched {
		if e.K == "end" {
			open()
			running[e.T].Wait()
			continue
		}
		// Queries that begin without one ending in between start at the same time.
		if gate == nil {
			gate = new(atomic.Int32)
		}
		g, wg := gate, &sync.WaitGroup{}
		running[e.T] = wg
		for i := 0; i < p.Times; i++ {
			wg.Add(1)
			g.Add(1)
			go func() {
				defer wg.Done()
				for g.Add(-1); g.Load() >= 0; {
					runtime.Gosched()
				}
				a := do(l, p.Queries[e.Q-1], e.Q)
				lock.Lock()
				p.Answers = append(p.Answers, a)
				lock.Unlock()
			}()
		}
	}
	open()
	for _, wg := range running {
		wg.Wait()
	}
	sort.SliceStable(p.Answers, func(i, j int) bool { return p.Answers[i].Q < p.Answers[j].Q })
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if len(os.Args) > 1 {
		must(exhibit.Setup())
		must(axis.Setup())
		kit.Each(func(p *program) any {
			p.Answers, p.Alone = []answer{}, []string{}
			p.Panic = kit.Guard(60*time.Second, func() {
				if os.Args[1] == "alone" {
					alone(p)
				} else {
					for i := 0; i < p.Rounds; i++ {
						together(p)
					}
				}
			})
			return p
		})
		return
	}
	child := func(mode string, p []byte) *program {
		cmd := exec.Command(os.Args[0], mode)
		cmd.Stdin = bytes.NewReader(p)
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		if err != nil {
			fmt.Fprintln(os.Stderr, "panic: queries brought the process down:", err)
			os.Exit(2)
		}
		r := new(program)
		must(json.Unmarshal(out, r))
		return r
	}
	kit.Each(func(p *json.RawMessage) any {
		a, t := child("alone", *p), child("together", *p)
		t.Alone = a.Alone
		if a.Panic != "" {
			t.Panic = a.Panic
		}
		return t
	})
}
