// Driver for benchmark data: parses texts and asks everything about the result.
package main

import (
	"fmt"
	"io"
	"log/slog"
	"strconv"
	"strings"
	"time"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

var long = strings.Repeat("x", 70000)

type tag struct {
	Tag  string `json:"tag"`
	Name string `json:"name"`
}

type values struct {
	Runs   string `json:"runs"`
	Ns     string `json:"ns"`
	Allocs string `json:"allocs"`
	Bytes  string `json:"bytes"`
	Mb     string `json:"mb"`
	Gb     string `json:"gb"`
	Tb     string `json:"tb"`
}

type record struct {
	H string `json:"h"`
	T string `json:"t"`
	V values `json:"v"`
}

type pass struct {
	Text      string   `json:"-"`
	Raw       string   `json:"raw"`
	Lines     any      `json:"lines"`
	Handlers  []tag    `json:"handlers"`
	Tests     []tag    `json:"tests"`
	Plain     []tag    `json:"plain"`
	ByTest    []record `json:"bytest"`
	ByHandler []record `json:"byhandler"`
	Items     []record `json:"items"`
	Lookup    []tag    `json:"lookup"`
	Out       []string `json:"text"`
	Strange   string   `json:"strange"`
	Err       string   `json:"err"`
	Panic     string   `json:"panic"`
}

type program struct {
	Tags   []string `json:"tags"` // tags to name
	Passes []pass   `json:"passes"`
}

// num shows a float with twelve digits without trailing zeros.
func num(f float64) string {
	r, _ := strconv.ParseFloat(strconv.FormatFloat(f, 'e', 11, 64), 64)
	return strconv.FormatFloat(r, 'f', -1, 64)
}

func show(r data.TestRecord) values {
	return values{fmt.Sprint(r.Runs), num(r.NanosPerOp), fmt.Sprint(r.MemAllocsPerOp), fmt.Sprint(r.MemBytesPerOp), num(r.MbPerSec), num(r.GbPerSec), num(r.TbPerSec)}
}

func items(r data.TestRecord) values {
	f := func(i data.BenchItems) string { return num(r.ItemValue(i)) }
	v := values{f(data.Runs), f(data.Nanos), f(data.MemAllocs), f(data.MemBytes), f(data.MbPerSec), f(data.GbPerSec), f(data.TbPerSec)}
	if r.Runs > 1<<39 {
		v.Runs = fmt.Sprint(r.Runs) // more digits than compared
	}
	return v
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	kit.Each(func(p *program) any {
		b := data.NewBenchmarks()
		for i := range p.Passes {
			q := &p.Passes[i]
			q.Handlers, q.Tests, q.Plain, q.Lookup, q.Out = []tag{}, []tag{}, []tag{}, []tag{}, []string{}
			q.ByTest, q.ByHandler, q.Items = []record{}, []record{}, []record{}
			q.Panic = kit.Guard(10*time.Second, func() {
				if err := b.ParseBenchmarkData(strings.NewReader(strings.ReplaceAll(q.Raw, "<LONG>", long))); err != nil {
					q.Err = "E: " + err.Error()
				}
				for _, t := range p.Tags {
					q.Plain = append(q.Plain, tag{t, data.HandlerTag(t).Name()})
				}
				tests, handlers := b.TestTags(), b.HandlerTags()
				for _, h := range handlers {
					q.Handlers = append(q.Handlers, tag{string(h), b.HandlerName(h)})
					for t, r := range b.TestRecordsFor(h) {
						q.ByHandler = append(q.ByHandler, record{string(h), string(t), show(r)})
						q.Items = append(q.Items, record{string(h), string(t), items(r)})
						if r.IsEmpty() != (r.Runs == 0) {
							q.Strange = "emptiness"
						}
					}
					if !b.HasHandler(h) || b.HasHandler(h+"?") {
						q.Strange = "HasHandler " + string(h)
					}
				}
				for _, t := range tests {
					q.Tests = append(q.Tests, tag{string(t), b.TestName(t)})
					for h, r := range b.HandlerRecordsFor(t) {
						q.ByTest = append(q.ByTest, record{string(h), string(t), show(r)})
					}
					if !b.HasTest(t) || b.HasTest(t+"?") {
						q.Strange = "HasTest " + string(t)
					}
				}
				for n, t := range b.HandlerLookup() {
					q.Lookup = append(q.Lookup, tag{string(t), n})
				}
				if b.HasWarningText() != (len(b.WarningText()) > 0) {
					q.Strange = "HasWarningText"
				}
				q.Out = strings.Split(strings.ReplaceAll(string(b.WarningText()), long, "<LONG>"), "\n")
			})
		}
		return p
	})
}
