// Driver for the trace handler.
package main

import (
	"context"
	"fmt"
	"io"
	"log/slog"
	"os"
	"strings"
	"time"

	"github.com/madkins23/go-slog/handlers/trace"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type attr struct {
	K string `json:"k"`
	V string `json:"v"`
	I bool   `json:"i"` // log as an integer
}

type event struct {
	Op    string `json:"op"`
	H     int    `json:"h"`
	Level string `json:"level"`
	Num   int    `json:"num"`
	Msg   string `json:"msg"`
	N     string `json:"n"`
	As    []attr `json:"as"`
	API   string `json:"api"`
	Out   string `json:"out"`
	Ret   string `json:"ret"`
}

type program struct {
	Indent string  `json:"indent"`
	Ev     []event `json:"ev"`
}

func attrs(as []attr) []slog.Attr {
	out := []slog.Attr{}
	for _, a := range as {
		if a.I {
			var n int
			fmt.Sscan(a.V, &n)
			out = append(out, slog.Int(a.K, n))
		} else {
			out = append(out, slog.String(a.K, a.V))
		}
	}
	return out
}

func main() {
	stdout := os.Stdout
	f, err := os.CreateTemp("", "tracer")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	_ = stdout
	kit.Each(func(p *program) any {
		hs := []slog.Handler{trace.NewHandler(p.Indent)}
		pos, _ := f.Seek(0, io.SeekEnd)
		for i := range p.Ev {
			e := &p.Ev[i]
			h := hs[e.H-1]
			os.Stdout = f
			panicked := kit.Guard(5*time.Second, func() {
				switch e.Op {
				case "Enabled":
					e.Ret = fmt.Sprint(h.Enabled(context.Background(), slog.Level(e.Num)))
				case "Handle":
					r := slog.NewRecord(time.Now(), slog.Level(e.Num), e.Msg, 0)
					r.AddAttrs(attrs(e.As)...)
					if err := h.Handle(context.Background(), r); err != nil {
						e.Ret = err.Error()
					}
				case "log":
					slog.New(h).LogAttrs(context.Background(), slog.Level(e.Num), e.Msg, attrs(e.As)...)
				case "WithAttrs":
					if e.API == "logger" && len(e.As) > 0 {
						args := []any{}
						for _, a := range attrs(e.As) {
							args = append(args, a)
						}
						hs = append(hs, slog.New(h).With(args...).Handler())
					} else {
						hs = append(hs, h.WithAttrs(attrs(e.As)))
					}
				case "WithGroup":
					if e.API == "logger" && e.N != "" {
						hs = append(hs, slog.New(h).WithGroup(e.N).Handler())
					} else {
						hs = append(hs, h.WithGroup(e.N))
					}
				}
			})
			os.Stdout = stdout
			if panicked != "" {
				e.Ret = panicked
			}
			now, _ := f.Seek(0, io.SeekEnd)
			b := make([]byte, now-pos)
			if _, err := f.ReadAt(b, pos); err != nil && len(b) > 0 {
				panic(err)
			}
			f.Seek(0, io.SeekEnd)
			pos = now
			e.Out = strings.ToValidUTF8(string(b), "?")
			if panicked != "" {
				p.Ev = p.Ev[:i+1]
				break
			}
		}
		return p
	})
}
