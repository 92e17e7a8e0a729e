// Driver for the field counter of internal/json.
package main

import (
	"sort"
	"time"

	"github.com/madkins23/go-slog/internal/json"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type dup struct {
	K []int `json:"k"`
	N uint  `json:"n"`
}

type observed struct {
	Err    string  `json:"err"`
	Panic  string  `json:"panic"`
	Fields [][]int `json:"fields"`
	Sorted bool    `json:"sorted"`
	N      uint    `json:"n"`
	Dups   []dup   `json:"dups"`
}

type program struct {
	Kind string   `json:"kind"`
	Text []int    `json:"text"`
	O    observed `json:"o"`
}

func points(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func main() {
	kit.Each(func(p *program) any {
		b := make([]byte, len(p.Text))
		for i, n := range p.Text {
			b[i] = byte(n)
		}
		o := observed{Fields: [][]int{}, Dups: []dup{}}
		o.Panic = kit.Guard(5*time.Second, func() {
			c := json.NewFieldCounter(b)
			err := c.Parse()
			if err != nil {
				o.Err = "E: " + err.Error()
			}
			fs := c.Fields()
			o.Sorted = sort.StringsAreSorted(fs)
			for _, f := range fs {
				o.Fields = append(o.Fields, points(f))
			}
			o.N = c.NumFields()
			for k, n := range c.Duplicates() {
				o.Dups = append(o.Dups, dup{points(k), n})
			}
			sort.Slice(o.Dups, func(i, j int) bool { return string(rune(len(o.Dups[i].K))) < string(rune(len(o.Dups[j].K))) })
			_ = c.String()
		})
		// Error texts quote the input.
		clean := []rune{}
		for _, r := range o.Err {
			if r < 32 || r > 126 || r == '"' || r == '\\' {
				r = '.'
			}
			clean = append(clean, r)
		}
		o.Err = string(clean)
		p.O = o
		return p
	})
}
