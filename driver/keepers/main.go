// Driver for keepers: replays a history of registrations and queries.
// The registry is global so every history runs in a process of its own.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type item struct {
	Group bool   `json:"group"`
	Name  string `json:"name"`
	Items []item `json:"items"`
}

type op struct {
	Op       string   `json:"op"`
	Tag      string   `json:"tag"`
	Kind     string   `json:"kind"` // of filter: include, exclude or none
	Items    []item   `json:"items"`
	Names    []string `json:"names"`
	Data     int      `json:"data"`
	Err      bool     `json:"err"`
	Id       int      `json:"id"`
	List     []string `json:"list"`
	Handlers []string `json:"handlers"`
	Tests    []string `json:"tests"`
	Kept     []bool   `json:"kept"`
}

type program struct {
	Order any  `json:"order"`
	Ops   []op `json:"ops"`
	Data  []struct {
		Raw      string `json:"raw"`
		Warn     string `json:"warn"`
		Handlers any    `json:"handlers"`
		Tests    any    `json:"tests"`
	} `json:"data"`
	Panic string `json:"panic"`
}

func items(is []item) []any {
	r := make([]any, len(is))
	for i, x := range is {
		if x.Group {
			r[i] = score.NewFilterGroup(items(x.Items)...)
		} else {
			r[i] = x.Name
		}
	}
	return r
}

func filter(o *op) score.Filter {
	switch o.Kind {
	case "include":
		return score.NewIncludeFilter(items(o.Items)...)
	case "exclude":
		return score.NewExcludeFilter(items(o.Items)...)
	}
	return nil
}

func texts[T ~string](ts []T) []string {
	r := make([]string, len(ts))
	for i, t := range ts {
		r[i] = string(t)
	}
	return r
}

func run(p *program) {
	load := func(i int) (*data.Benchmarks, *data.Warnings) {
		b, w := data.NewBenchmarks(), data.NewWarnings()
		if err := b.ParseBenchmarkData(strings.NewReader(p.Data[i-1].Raw)); err != nil {
			panic(err)
		}
		if err := w.ParseWarningData(strings.NewReader(p.Data[i-1].Warn), "Verify", b.HandlerLookup()); err != nil {
			panic(err)
		}
		return b, w
	}
	seen := map[*score.Keeper]int{} // operation that registered a keeper
	for i := range p.Ops {
		o := &p.Ops[i]
		o.List, o.Handlers, o.Tests, o.Kept = []string{}, []string{}, []string{}, []bool{}
		tag := score.KeeperTag(o.Tag)
		switch o.Op {
		case "add":
			k := score.NewKeeper(tag, axis.NewWarnings(nil, ""), axis.NewBenchmarks(nil, "", nil), template.HTML(strconv.Itoa(i+1)), nil, filter(o))
			seen[k] = i + 1
			o.Err = score.AddKeeper(k) != nil
			if k.Tag() != tag || k.Name() != o.Tag {
				panic("tag of keeper")
			}
		case "app":
			b, w := load(o.Data)
			if err := scoring.Setup(b, w); err != nil {
				o.Err = true
				continue
			}
			for _, t := range []score.KeeperTag{"Default", "Simple", "Size", "+Dedup", "+ReplAttr"} {
				if k := score.GetKeeper(t); k != nil && seen[k] == 0 {
					seen[k] = i + 1
				}
			}
		case "get":
			if k := score.GetKeeper(tag); k != nil {
				o.Id = seen[k]
				if k.Tag() != tag {
					o.Id = -1
				}
			}
		case "list":
			o.List = texts(score.Keepers())
		case "setup":
			if k := score.GetKeeper(tag); k != nil {
				o.Err = k.Setup(load(o.Data)) != nil
			}
		case "ask":
			if k := score.GetKeeper(tag); k != nil {
				o.Handlers, o.Tests = texts(k.HandlerTags()), texts(k.TestTags())
			}
		case "keep":
			f := filter(o)
			for _, n := range o.Names {
				o.Kept = append(o.Kept, f == nil || f.Keep(n))
			}
		}
	}
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if len(os.Args) > 1 {
		kit.Each(func(p *program) any {
			p.Panic = kit.Guard(10*time.Second, func() { run(p) })
			return p
		})
		return
	}
	kit.Each(func(p *json.RawMessage) any {
		cmd := exec.Command(os.Args[0], "one")
		cmd.Stdin = bytes.NewReader(*p)
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		if err != nil {
			fmt.Fprintln(os.Stderr, "panic: history failed:", err)
			os.Exit(2)
		}
		return json.RawMessage(out)
	})
}
