// Driver for the verification suite: runs it on handlers with known defects.
package suite

import (
	"flag"
	"fmt"
	"io"
	"log/slog"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/stretchr/testify/suite"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"github.com/madkins23/go-slog/verify/tests"
)

type verdict struct {
	T string `json:"t"`
	P bool   `json:"p"`
}

type warned struct {
	W    string `json:"w"`
	T    string `json:"t"`
	Text string `json:"text"`
}

type program struct {
	Defects []string  `json:"defects"`
	Excused []string  `json:"excused"`
	Logger  bool      `json:"logger"` // the creator makes loggers only
	Off     bool      `json:"off"`    // -useWarnings=false
	Tests   []verdict `json:"tests"`
	Warns   []warned  `json:"warns"`
	Strange string    `json:"strange"`
}

type stats struct {
	*tests.SlogTestSuite
	got []verdict
}

func (s *stats) HandleStats(_ string, st *suite.SuiteInformation) {
	for n, t := range st.TestStats {
		s.got = append(s.got, verdict{strings.TrimPrefix(n, "Test"), t.Passed})
	}
}

var real, null = os.Stdout, func() *os.File { f, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0); return f }()

// TestMain is the driver; it needs a test binary, as the suite runs in one.
func TestMain(m *testing.M) {
	flag.Parse()
	os.Stdout = null // what package testing prints doesn't matter
	m.Run()
	os.Exit(0)
}

func TestDrive(t *testing.T) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	os.Stdout = real // for the results only
	kit.Each(func(p *program) any {
		p.Tests, p.Warns, p.Strange = []verdict{}, []warned{}, ""
		mk := func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return newBent(w, o, p.Defects) }
		c := infra.NewCreator("bent", mk, nil, "", nil)
		if p.Logger {
			c = infra.NewCreator("bent", nil, func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(mk(w, o)) }, "", nil)
		}
		_ = flag.Set("useWarnings", fmt.Sprint(!p.Off))
		s := &stats{SlogTestSuite: tests.NewSlogTestSuite(c)}
		for _, w := range p.Excused {
			s.WarnOnly(warning.ByName(w))
		}
		os.Stdout = null
		t.Run("bent", func(t *testing.T) { suite.Run(t, s) })
		sort.Slice(s.got, func(i, j int) bool { return s.got[i].T < s.got[j].T })
		p.Tests = append(p.Tests, s.got...)
		for _, w := range s.GetWarnings() {
			for _, i := range w.Data {
				p.Warns = append(p.Warns, warned{w.Name, strings.TrimPrefix(i.Function, "Test"), i.Text})
			}
		}
		return p
	})
}
