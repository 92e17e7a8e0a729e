// Driver for the tabular command: runs it on files and takes its output apart.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type tag struct {
	Tag  string `json:"tag"`
	Name string `json:"name"`
}

type table struct {
	Title string     `json:"title"`
	Head  []string   `json:"head"`
	Rows  [][]string `json:"rows"`
}

type warn struct {
	Count   string   `json:"count"`
	Name    string   `json:"name"`
	Summary string   `json:"summary"`
	Insts   []string `json:"insts"`
}

type level struct {
	Name string `json:"name"`
	Ws   []warn `json:"ws"`
}

type block struct {
	Name   string  `json:"name"`
	Levels []level `json:"levels"`
}

type program struct {
	BenchText  string   `json:"btext"`
	VerifyText string   `json:"vtext"`
	Stdin      bool     `json:"stdin"`
	Verify     bool     `json:"verify"`
	Args       []string `json:"args"`
	Group      string   `json:"group"`
	Point      string   `json:"point"`
	Bench      any      `json:"bench"`
	Lines      any      `json:"lines"`
	HTags      []string `json:"htags"`
	TTags      []string `json:"ttags"`
	Titles     any      `json:"titles"`
	Plain      []tag    `json:"plain"`
	Tests      []tag    `json:"tests"`
	Tables     []table  `json:"tables"`
	Warnings   []block  `json:"warnings"`
	Strange    string   `json:"strange"`
}

var (
	ptnWarn  = regexp.MustCompile(`^ {2,8}(\d+) \[([^]]*)] ?(.*)$`)
	ptnCells = regexp.MustCompile(`[║│|]`)
)

func cells(line string) []string {
	parts := ptnCells.Split(line, -1)
	if len(parts) < 2 {
		return nil
	}
	parts = parts[1 : len(parts)-1]
	for i := range parts {
		parts[i] = strings.TrimSpace(parts[i])
	}
	return parts
}

func indent(s string) int { return len(s) - len(strings.TrimLeft(s, " ")) }

func (p *program) read(out string) {
	var t *table
	var b *block
	var l *level
	var w *warn
	blank := false
	for _, line := range strings.Split(out, "\n") {
		wasBlank := blank
		blank = line == ""
		rest, isTable := strings.CutPrefix(line, "Benchmark ")
		name, isBlock := strings.CutPrefix(line, "Warnings for ")
		switch {
		case isTable && b == nil:
			p.Tables = append(p.Tables, table{Title: rest, Head: []string{}, Rows: [][]string{}})
			t = &p.Tables[len(p.Tables)-1]
		case isBlock && strings.HasSuffix(name, ":") && (w == nil || wasBlank):
			p.Warnings = append(p.Warnings, block{Name: strings.TrimSuffix(name, ":"), Levels: []level{}})
			b, l, w = &p.Warnings[len(p.Warnings)-1], nil, nil
		case b == nil && t != nil && cells(line) != nil:
			if c := cells(line); strings.ContainsAny(line, "═─━") {
			} else if len(t.Head) == 0 {
				t.Head = c
			} else {
				t.Rows = append(t.Rows, c)
			}
		case b == nil && strings.ContainsAny(line, "═─━") || line == "" && w == nil:
		case b != nil && indent(line) == 2 && ptnWarn.FindString(line) == "":
			b.Levels = append(b.Levels, level{Name: strings.TrimSpace(line), Ws: []warn{}})
			l, w = &b.Levels[len(b.Levels)-1], nil
		case l != nil && ptnWarn.FindString(line) != "":
			m := ptnWarn.FindStringSubmatch(line)
			l.Ws = append(l.Ws, warn{Count: m[1], Name: m[2], Summary: m[3], Insts: []string{}})
			w = &l.Ws[len(l.Ws)-1]
		case w != nil && indent(line) == 9:
			w.Insts = append(w.Insts, line[9:])
		case w != nil && len(w.Insts) > 0:
			if line == "" {
				continue
			}
			w.Insts[len(w.Insts)-1] += "\n" + strings.TrimPrefix(line, "           ")
		default:
			p.Strange = line
		}
	}
}

func main() {
	dir, err := os.MkdirTemp("", "tabular")
	must(err)
	kit.Each(func(p *program) any {
		p.Plain, p.Tests, p.Tables, p.Warnings = []tag{}, []tag{}, []table{}, []block{}
		for _, h := range p.HTags {
			p.Plain = append(p.Plain, tag{h, data.HandlerTag(h).Name()})
		}
		for _, t := range p.TTags {
			p.Tests = append(p.Tests, tag{t, data.TestTag("Bench." + t).Name()})
		}
		var in *strings.Reader
		args := p.Args
		if p.Stdin {
			in = strings.NewReader(p.BenchText)
		} else {
			in = strings.NewReader("")
			must(os.WriteFile(filepath.Join(dir, "b"), []byte(p.BenchText), 0o600))
			args = append(args, "-bench", filepath.Join(dir, "b"))
		}
		if p.Verify {
			must(os.WriteFile(filepath.Join(dir, "v"), []byte(p.VerifyText), 0o600))
			args = append(args, "-verify="+filepath.Join(dir, "v"))
		}
		cmd := exec.Command(os.Getenv("TABULAR"), args...)
		cmd.Stdin = in
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		if err = kit.Run(cmd); err != nil {
			p.Strange = fmt.Sprint(err, " ", errs.String()[:min(errs.Len(), 2000)])
		} else {
			p.read(out.String())
		}
		return p
	})
	must(os.RemoveAll(dir))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
