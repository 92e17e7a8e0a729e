// Driver for the benchmark suite: hands its checks the outputs of the specification.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/madkins23/go-slog/bench/tests"
	"github.com/madkins23/go-slog/creator/madkinsflash"
	"github.com/madkins23/go-slog/creator/madkinssloggy"
	"github.com/madkins23/go-slog/creator/slogjson"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/test"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type node struct {
	K string `json:"k"`
	V string `json:"v"`
	C []node `json:"c"`
}

type check struct {
	B       string   `json:"b"`
	W       []string `json:"w"`
	Out     []node   `json:"out"`
	Real    string   `json:"real"` // handler whose own output is checked
	Run     string   `json:"run"`  // what becomes of the lines written in a run of the suite
	Err     bool     `json:"err"`
	Text    string   `json:"text"`
	Warned  []string `json:"warned"`
	Failed  bool     `json:"failed"`
	Strange string   `json:"strange"`
	Wrote   string   `json:"wrote"`
}

var creators = map[string]func() infra.Creator{
	"json": slogjson.Creator, "sloggy": madkinssloggy.Creator, "flash": madkinsflash.Creator,
}

func get(s *tests.SlogBenchmarkSuite, name string) *tests.Benchmark {
	return reflect.ValueOf(s).MethodByName("Benchmark" + name).Call(nil)[0].Interface().(*tests.Benchmark)
}

func names(s *tests.SlogBenchmarkSuite) (ns []string) {
	t := reflect.TypeOf(s)
	for i := 0; i < t.NumMethod(); i++ {
		if strings.HasPrefix(t.Method(i).Name, "Benchmark") {
			ns = append(ns, strings.TrimPrefix(t.Method(i).Name, "Benchmark"))
		}
	}
	return
}

func output(creator infra.Creator, bm *tests.Benchmark) []byte {
	var buf bytes.Buffer
	h := creator.NewHandler(&buf, bm.Options)
	if bm.HandlerFn != nil {
		h = bm.HandlerFn(h)
	}
	bm.BenchmarkFn(slog.New(h))
	return buf.Bytes()
}

var good = map[string]string{} // key to JSON as the standard library writes it
var lines []string             // of the logging benchmark
var message string

func learn(es []kit.Entry) {
	for _, e := range es {
		if e.K != "time" {
			good[e.K] = raw(e)
		}
		learn(e.F)
	}
}

func raw(e kit.Entry) string {
	switch {
	case e.J == "{":
		parts := []string{}
		for _, f := range e.F {
			parts = append(parts, quote(f.K)+":"+raw(f))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case strings.HasPrefix(e.J, "s:"):
		return quote(e.J[2:])
	case e.J == "z":
		return "null"
	default:
		return e.J[2:]
	}
}

func quote(s string) string {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	_ = enc.Encode(s)
	return strings.TrimSpace(b.String())
}

func start() {
	s := tests.NewSlogBenchmarkSuite(slogjson.Creator())
	for _, n := range names(s) {
		for _, l := range bytes.Split(output(slogjson.Creator(), get(s, n)), []byte("\n")) {
			if es, err := kit.Parse(l); err == nil {
				if n != "BigGroup" {
					if n == "Simple" {
						for _, e := range es {
							if e.K == "msg" {
								message = raw(e)
							}
						}
					}
					learn(es)
				}
				if n == "Logging" {
					lines = append(lines, string(l))
				}
			}
		}
	}
}

func wrong(key string) string {
	g := good[key]
	switch {
	case key == "count" || key == "depth" || key == "limit":
		return "77"
	case key == "level":
		return `"WARN"`
	case g == "true":
		return "false"
	case g == "false":
		return "true"
	case strings.HasPrefix(g, `"`) && len(g) > 2:
		return g[:2] + "~" + g[2:]
	case strings.HasPrefix(g, "-"):
		return g[1:]
	case g != "" && g[0] >= '0' && g[0] <= '9':
		return g[:len(g)-1] + string('0'+(g[len(g)-1]-'0'+1)%10)
	}
	return `"wrong"`
}

func value(n node, msg string) string {
	g := good[n.K]
	if n.K == "msg" || n.K == "message" {
		g = msg
	}
	if g == "" {
		g = `"x"`
	}
	if n.K == "time" {
		g = `"2024-03-05T12:34:56.789Z"`
	}
	switch n.V {
	case "obj":
		parts := []string{}
		for _, c := range n.C {
			parts = append(parts, quote(c.K)+":"+value(c, msg))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case "good":
		return g
	case "wrong":
		return wrong(n.K)
	case "str":
		return quote(g)
	case "null":
		return "null"
	case "arr":
		return "[]"
	case "lower":
		return strings.ToLower(g)
	}
	if strings.HasPrefix(n.V, "qn") {
		return quote(n.V[2:])
	}
	return n.V[1:]
}

func render(c *check) string {
	var b strings.Builder
	msg := message
	if c.B == "Logging" {
		msg = `"Handle"`
	}
	for _, n := range c.Out {
		whole := ""
		if n.V != "obj" && n.V != "fill" && len(lines) > 0 {
			whole = lines[0]
			if c.B != "Logging" {
				whole = `{"level":"INFO","msg":` + message + `}`
			}
		}
		switch n.V {
		case "obj":
			b.WriteString(value(n, msg) + "\n")
		case "fill":
			b.WriteString(strings.Join(lines[3:], "\n") + "\n")
		case "empty":
		case "blank":
			b.WriteString("\n")
		case "cut":
			b.WriteString(whole[:len(whole)-1] + "\n")
		case "garbage":
			b.WriteString("!" + whole + "\n")
		case "null":
			b.WriteString("null\n")
		case "arr":
			b.WriteString("[" + whole + "]\n")
		case "text":
			b.WriteString(quote(whole) + "\n")
		case "twice":
			b.WriteString(whole + whole + "\n")
		}
	}
	return b.String()
}

// abstract says what a real record is in the terms of the specification.
func abstract(es []kit.Entry, msg string, big bool) []node {
	ns := []node{}
	for _, e := range es {
		n := node{K: e.K, V: "good", C: []node{}}
		g := good[e.K]
		if e.K == "msg" || e.K == "message" {
			g = msg
		}
		if e.J == "{" {
			n.V, n.C = "obj", abstract(e.F, msg, big || strings.HasPrefix(e.K, "group"))
		} else if big && strings.HasPrefix(e.J, "n:") {
			n.V = "n" + e.J[2:]
		} else if r := raw(e); r != g && e.K != "time" {
			n.V = "wrong"
			if e.K == "level" && r == strings.ToLower(g) {
				n.V = "lower"
			} else if r == quote(g) {
				n.V = "str"
			}
		}
		ns = append(ns, n)
	}
	return ns
}

type faulty struct {
	slog.Handler
	mode string
	mu   *sync.Mutex
	n    *int
}

func (f faulty) Handle(ctx context.Context, r slog.Record) error {
	f.mu.Lock()
	*f.n++
	n := *f.n
	f.mu.Unlock()
	if n%7 == 0 {
		switch f.mode {
		case "lost":
			return nil
		case "doubled":
			_ = f.Handler.Handle(ctx, r)
		}
	}
	return f.Handler.Handle(ctx, r)
}
func (f faulty) WithAttrs(as []slog.Attr) slog.Handler {
	f.Handler = f.Handler.WithAttrs(as)
	return f
}
func (f faulty) WithGroup(g string) slog.Handler {
	f.Handler = f.Handler.WithGroup(g)
	return f
}

// BenchmarkFaulty runs the whole suite with a handler that is at fault in one benchmark only.
func BenchmarkFaulty(b *testing.B, c *check) {
	at := -1
	var order []string
	fn := func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		h := slog.Handler(slog.NewJSONHandler(w, o))
		switch w.(type) {
		case *bytes.Buffer: // to check the output of the next benchmark
			at++
		case *test.CountWriter: // for a round of it
			if at >= 0 && at < len(order) && order[at] == c.B {
				h = faulty{h, c.Run, &sync.Mutex{}, new(int)}
			}
		}
		return h
	}
	s := tests.NewSlogBenchmarkSuite(infra.NewCreator("faulty", fn, nil, "", nil))
	order = names(s)
	tests.Run(b, s)
}

func run(c *check) {
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	defer func() { os.Stdout = out }()
	testing.Benchmark(func(b *testing.B) {
		defer func() { c.Failed = b.Failed() }()
		BenchmarkFaulty(b, c)
	})
}

func one(c *check) any {
	c.Warned, c.Strange = []string{}, ""
	if c.W == nil {
		c.W = []string{}
	}
	if c.Out == nil {
		c.Out = []node{}
	}
	if c.Run != "" {
		run(c)
		return c
	}
	creator := slogjson.Creator()
	if c.Real != "" {
		creator = creators[c.Real]()
	}
	s := tests.NewSlogBenchmarkSuite(creator)
	for _, w := range c.W {
		s.WarnOnly(warning.ByName(w))
	}
	bm := get(s, c.B)
	var text []byte
	if c.Real == "" {
		text = []byte(render(c))
	} else {
		text = output(creator, bm)
		msg := message
		if c.B == "Logging" {
			msg = `"Handle"`
		}
		c.Out = []node{}
		for _, l := range bytes.Split(bytes.TrimSuffix(text, []byte("\n")), []byte("\n")) {
			if es, err := kit.Parse(l); err != nil {
				if len(text) > 0 {
					c.Out = append(c.Out, node{V: "garbage", C: []node{}})
				}
			} else {
				c.Out = append(c.Out, node{V: "obj", C: abstract(es, msg, false)})
			}
		}
		if c.B == "Logging" && len(c.Out) == len(lines) {
			c.Out = append(c.Out[:1], append([]node{{V: "fill", C: []node{}}}, c.Out[len(c.Out)-2:]...)...)
		}
	}
	if len(text) < 2000 {
		c.Wrote = string(text)
	}
	if bm.VerifyFn == nil {
		c.Strange = "no check"
		return c
	}
	if p := kit.Guard(5*time.Second, func() {
		if err := bm.VerifyFn(text, nil, s.Manager); err != nil {
			c.Err, c.Text = true, err.Error()
		}
	}); p != "" {
		c.Strange = p
	}
	for _, w := range s.GetWarnings() {
		c.Warned = append(c.Warned, w.Name)
		for _, i := range w.Data {
			c.Text += " [" + w.Name + " " + i.Text + "]"
		}
	}
	return c
}

func main() {
	testing.Init()
	flag.Parse()
	_ = flag.Set("test.benchtime", "25x")
	_ = flag.Set("test.cpu", "2")
	start()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if len(good) < 20 || len(lines) < 10 || message == "" {
		fmt.Fprintln(os.Stderr, "could not learn what the benchmarks log", good)
		os.Exit(4)
	}
	kit.Each(one)
}
