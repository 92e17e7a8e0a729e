// Driver for scores: loads data, sets up an axis and asks for all of its scores.
package main

import (
	"fmt"
	"io"
	"log/slog"
	"math"
	"os"
	"strings"
	"time"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/exhibit"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type testScore struct {
	H   string `json:"h"`
	T   string `json:"t"`
	V   int    `json:"v"`
	Has bool   `json:"has"`
}

type levelScore struct {
	Level int `json:"level"`
	Count int `json:"count"`
	Score int `json:"score"`
}

type handlerScore struct {
	H        string       `json:"h"`
	Reported bool         `json:"reported"`
	Score    int          `json:"score"`
	ByTest   int          `json:"bytest"`
	ByData   int          `json:"bydata"`
	Original int          `json:"original"`
	Levels   []levelScore `json:"levels"`
}

type program struct {
	Mode    string         `json:"mode"` // bench or warn
	Text    string         `json:"raw"`
	Texts   []string       `json:"texts"`
	Lines   any            `json:"lines"`
	Facts   any            `json:"facts"`
	Ask     []string       `json:"ask"` // handlers to ask about in this order
	AskT    []string       `json:"askt"`
	Weights map[string]int `json:"weights"` // without entries that aren't configured
	Weight  any            `json:"weight"`
	Include []string       `json:"include"` // "*" if there is no list
	Exclude []string       `json:"exclude"`
	Tests   []testScore    `json:"tests"`
	Scores  []handlerScore `json:"scores"`
	Panic   string         `json:"panic"`
}

// fix returns a score in units of 1/10000.
func fix(v score.Value) int {
	if math.IsNaN(float64(v)) {
		return -1
	} else if math.IsInf(float64(v), 0) || math.Abs(float64(v)) > 1e5 {
		return -2
	} else if v > 100+1e-9 && v < 100.0001 {
		return 1000001 // more than 100, and not by a rounding error
	} else if v < -1e-9 {
		return -3
	}
	return int(math.Round(float64(v) * 10000))
}

func twice(f func() score.Value) int {
	a := fix(f())
	if b := fix(f()); b != a {
		panic(fmt.Sprintf("asked twice: %d %d", a, b))
	}
	return a
}

func tags(ts []string) []data.TestTag {
	r := make([]data.TestTag, len(ts))
	for i, t := range ts {
		r[i] = data.TestTag(t)
	}
	return r
}

func doBench(p *program) {
	b := data.NewBenchmarks()
	if err := b.ParseBenchmarkData(strings.NewReader(p.Text)); err != nil {
		panic(err)
	}
	weights := make(map[bench.Weight]uint)
	for n, w := range p.Weights {
		weights[map[string]bench.Weight{"ns": bench.Nanoseconds, "bytes": bench.AllocBytes, "allocs": bench.Allocations}[n]] = uint(w)
	}
	opts := &axis.BenchOptions{}
	if len(p.Include) != 1 || p.Include[0] != "*" {
		opts.IncludeTests = tags(p.Include)
	}
	if len(p.Exclude) > 0 {
		opts.ExcludeTests = tags(p.Exclude)
	} else if len(p.Include) == 1 && p.Include[0] == "*" {
		opts = nil
	}
	a := axis.NewBenchmarks(weights, "", opts)
	if err := a.Setup(b, data.NewWarnings()); err != nil {
		panic(err)
	}
	for _, n := range p.Ask {
		h := data.HandlerTag(n)
		for _, n := range p.AskT {
			t := data.TestTag(n)
			if _, found := b.TestRecordsFor(h)[t]; found {
				p.Tests = append(p.Tests, testScore{string(h), n, twice(func() score.Value { return a.ScoreForTest(h, t) }), a.HasTest(t)})
			} else if v := fix(a.ScoreForTest(h, t)); v != -1 {
				panic(fmt.Sprintf("score %d of %s for %s which it doesn't have", v, h, t))
			}
		}
		f := func(t score.Type) int { return twice(func() score.Value { return a.ScoreForType(h, t) }) }
		p.Scores = append(p.Scores, handlerScore{H: string(h), Score: f(score.Default), ByTest: f(score.ByTest), ByData: f(score.ByData), Original: f(score.Original), Levels: []levelScore{}})
		if s := twice(func() score.Value { return a.ScoreFor(h) }); s != f(score.Default) {
			panic("ScoreFor isn't the default score")
		}
	}
}

func doWarn(p *program) {
	w := data.NewWarnings()
	for _, t := range p.Texts {
		if err := w.ParseWarningData(strings.NewReader(t), "Verify", nil); err != nil {
			panic(err)
		}
	}
	weights := make(map[warning.Level]uint)
	for n, x := range p.Weights {
		weights[warning.Level(n[0]-'0')] = uint(x)
	}
	a := axis.NewWarnings(weights, "").(*axis.Warnings)
	if err := a.Setup(data.NewBenchmarks(), w); err != nil {
		panic(err)
	}
	for _, n := range p.Ask {
		h := data.HandlerTag(n)
		f := func(t score.Type) int { return twice(func() score.Value { return a.ScoreForType(h, t) }) }
		s := handlerScore{H: n, Reported: w.HasHandler(h), Score: f(score.Default), ByTest: -1, ByData: f(score.ByData), Original: f(score.Original), Levels: []levelScore{}}
		for _, l := range warning.LevelOrder {
			s.Levels = append(s.Levels, levelScore{int(l), int(a.CountForLevel(h, l)), twice(func() score.Value { return a.ScoreForLevel(h, l) })})
		}
		if v := twice(func() score.Value { return a.ScoreFor(h) }); v != s.Score {
			panic("ScoreFor isn't the default score")
		}
		p.Scores = append(p.Scores, s)
	}
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	for _, err := range []error{exhibit.Setup(), axis.Setup()} {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
	}
	kit.Each(func(p *program) any {
		p.Tests, p.Scores = []testScore{}, []handlerScore{}
		p.Panic = kit.Guard(10*time.Second, func() {
			if p.Mode == "bench" {
				doBench(p)
			} else {
				doWarn(p)
			}
		})
		return p
	})
}
