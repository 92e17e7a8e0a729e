// Driver for the web server. It is linked into the server itself: the parent
// reads cases and runs the server for each of them on its own files; the child
// sends requests to the server's router and takes the answers apart.
package server

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/gin-gonic/gin"
	"github.com/madkins23/gin-utils/pkg/shutdown"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type tag struct {
	Tag  string `json:"tag"`
	Name string `json:"name"`
}

type catalog struct {
	Level   string   `json:"level"`
	Summary string   `json:"summary"`
	Warns   []string `json:"warns"`
	Texts   []string `json:"texts"`
}

// cell is a score by column.
type cell struct {
	C string `json:"c"`
	V string `json:"v"`
}

type axisRow struct {
	H      string `json:"h"`
	Score  string `json:"score"`
	Types  []cell `json:"types"`
	Tests  []cell `json:"tests"`
	Levels []cell `json:"levels"`
	Counts []cell `json:"counts"`
}

type axisScores struct {
	Which string    `json:"which"`
	Name  string    `json:"name"`
	Kind  string    `json:"kind"`
	Tests []string  `json:"tests"`
	Rows  []axisRow `json:"rows"`
}

type keeperScores struct {
	Tag  string       `json:"tag"`
	Axes []axisScores `json:"axes"`
}

type response struct {
	Path string `json:"path"`
	Code int    `json:"code"`
	Type string `json:"type"`
	Page page   `json:"page"`
	SVG  svg    `json:"svg"`
	Text string `json:"text"`
}

type program struct {
	BenchText  string            `json:"btext"`
	VerifyText string            `json:"vtext"`
	Verify     bool              `json:"verify"`
	NoBench    bool              `json:"nobench"`
	Texts      map[string]string `json:"texts"`
	Args       []string          `json:"args"`
	Group      string            `json:"group"`
	Point      string            `json:"point"`
	Bench      any               `json:"bench"`
	Lines      any               `json:"lines"`
	Calls      any               `json:"calls"`
	Facts      any               `json:"facts"`
	HTags      []string          `json:"htags"`
	TTags      []string          `json:"ttags"`
	Fns        []string          `json:"fns"`
	Titles     any               `json:"titles"`
	Visits     any               `json:"visits"`
	Paths      []string          `json:"paths"`
	All        bool              `json:"all"`     // visit all pages there are
	Clients    int               `json:"clients"` // concurrent clients
	Cold       bool              `json:"cold"`    // concurrent clients first
	Plain      []tag             `json:"plain"`
	Tests      []tag             `json:"tests"`
	Checks     []tag             `json:"checks"`
	Catalog    []catalog         `json:"catalog"`
	Keepers    []keeperScores    `json:"keepers"`
	Res        []response        `json:"res"`
	Strange    string            `json:"strange"`
}

const childEnv = "ZZVERIF_SERVER_DIR"

func init() {
	if dir := os.Getenv(childEnv); dir != "" {
		shutdown.Hook = func(r *gin.Engine) error { return child(dir, r) }
		return
	}
	kit.Each(func(p *program) any {
		parent(p)
		return p
	})
	os.Exit(0)
}

func parent(p *program) {
	dir, err := os.MkdirTemp("", "server")
	must(err)
	defer func() { must(os.RemoveAll(dir)) }()
	must(os.Mkdir(filepath.Join(dir, "docs"), 0o755))
	put := func(name, text string) { must(os.WriteFile(filepath.Join(dir, name), []byte(text), 0o600)) }
	args := p.Args
	if !p.NoBench {
		put("b", p.BenchText)
		args = append(args, "-bench="+filepath.Join(dir, "b"))
	}
	if p.Verify {
		put("v", p.VerifyText)
		args = append(args, "-verify", filepath.Join(dir, "v"))
	}
	for n, t := range p.Texts {
		put("docs/"+n, t)
	}
	js, err := json.Marshal(p)
	must(err)
	put("case", string(js))
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), childEnv+"="+dir, "GIN_MODE=release")
	var errs bytes.Buffer
	cmd.Stderr = &errs
	err = kit.Run(cmd)
	text := errs.String()
	done, rerr := os.ReadFile(filepath.Join(dir, "done"))
	if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
		p.Strange = "data race: " + text[i:min(len(text), i+3000)]
	} else if err != nil || rerr != nil {
		p.Strange = fmt.Sprint("server: ", err, " ", text[max(0, len(text)-2000):])
	} else {
		must(json.Unmarshal(done, p))
	}
	if p.Strange != "" {
		p.Plain, p.Tests, p.Checks, p.Catalog, p.Keepers, p.Res = []tag{}, []tag{}, []tag{}, []catalog{}, []keeperScores{}, []response{}
	}
}

func child(dir string, r *gin.Engine) error {
	p := new(program)
	js, err := os.ReadFile(filepath.Join(dir, "case"))
	must(err)
	must(json.Unmarshal(js, p))
	p.Plain, p.Tests, p.Checks, p.Catalog, p.Keepers, p.Res = []tag{}, []tag{}, []tag{}, []catalog{}, []keeperScores{}, []response{}
	for _, h := range p.HTags {
		p.Plain = append(p.Plain, tag{h, squeeze(data.HandlerTag(h).Name())})
	}
	for _, t := range p.TTags {
		p.Tests = append(p.Tests, tag{t, squeeze(data.TestTag("Bench." + t).Name())})
	}
	for _, f := range p.Fns {
		p.Checks = append(p.Checks, tag{f, squeeze(data.TestTag("Verify." + f).Name())})
	}
	for _, l := range warning.LevelOrder {
		c := catalog{Level: l.String(), Summary: strings.TrimSpace(string(l.Summary())), Warns: []string{}, Texts: []string{}}
		for _, w := range l.Warnings() {
			c.Warns, c.Texts = append(c.Warns, w.Name), append(c.Texts, w.Summary)
		}
		p.Catalog = append(p.Catalog, c)
	}
	for _, k := range score.Keepers() {
		p.Keepers = append(p.Keepers, scoresOf(score.GetKeeper(k), p))
	}
	var mu sync.Mutex
	known := make(map[string]bool)
	seen := make(map[string]bool)
	get := func(path string, keep bool) {
		w := httptest.NewRecorder()
		r.ServeHTTP(w, httptest.NewRequest("GET", path, nil))
		key := path + "\x00" + w.Body.String()
		mu.Lock()
		old := known[key]
		known[key] = true
		mu.Unlock()
		if old && !keep {
			return
		}
		res := response{Path: path, Code: w.Code, Type: w.Header().Get("Content-Type"), Page: emptyPage(), SVG: emptySVG()}
		switch {
		case w.Code != 200 || strings.HasSuffix(path, ".js") || strings.HasSuffix(path, ".css"):
			res.Text = strconv.Itoa(w.Body.Len())
		case strings.Contains(res.Type, "svg") || strings.HasSuffix(path, ".svg"):
			res.SVG = readSVG(w.Body.Bytes())
		default:
			res.Page = readPage(w.Body.Bytes())
		}
		js, err := json.Marshal(res)
		must(err)
		key = string(js)
		mu.Lock()
		defer mu.Unlock()
		if seen[key] && !keep {
			return
		}
		seen[key] = true
		p.Res = append(p.Res, res)
	}
	paths := p.Paths
	if p.All {
		paths = append(paths, crawl(r)...)
	}
	alone := func() {
		for _, path := range paths {
			get(path, true)
		}
	}
	if !p.Cold {
		alone()
	}
	var wg sync.WaitGroup
	for c := 0; c < p.Clients; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range paths {
				get(paths[(i*(1+2*(c%3))+c*len(paths)/p.Clients)%len(paths)], false)
			}
		}()
	}
	wg.Wait()
	if p.Cold {
		alone()
	}
	js, err = json.Marshal(p)
	must(err)
	must(os.WriteFile(filepath.Join(dir, "done"), js, 0o600))
	return nil
}

// crawl follows all links and menus from the home page.
func crawl(r *gin.Engine) []string {
	todo := []string{"/go-slog/", "/go-slog/index.html"}
	known := map[string]bool{todo[0]: true, todo[1]: true}
	for i := 0; i < len(todo) && len(todo) < 300; i++ {
		if strings.HasSuffix(todo[i], ".svg") || strings.HasSuffix(todo[i], ".js") || strings.HasSuffix(todo[i], ".css") {
			continue
		}
		w := httptest.NewRecorder()
		r.ServeHTTP(w, httptest.NewRequest("GET", todo[i], nil))
		for _, l := range readLinks(todo[i], w.Body.Bytes()) {
			if !known[l] {
				known[l] = true
				todo = append(todo, l)
			}
		}
	}
	return todo
}

func num(v score.Value) string { return strconv.FormatFloat(float64(v), 'f', -1, 64) }

func scoresOf(k *score.Keeper, p *program) keeperScores {
	ks := keeperScores{Tag: string(k.Tag()), Axes: []axisScores{}}
	for _, which := range []string{"X", "Y"} {
		a := k.Axes()[which]
		as := axisScores{Which: which, Name: a.Name(), Tests: []string{}, Rows: []axisRow{}}
		b, isBench := a.(*axis.Benchmarks)
		w, isWarn := a.(*axis.Warnings)
		if isBench {
			as.Kind = "bench"
			for _, t := range k.TestTags() {
				if b.HasTest(t) {
					as.Tests = append(as.Tests, string(t))
				}
			}
		} else if isWarn {
			as.Kind = "warn"
		}
		for _, h := range k.HandlerTags() {
			r := axisRow{H: string(h), Score: num(a.ScoreFor(h)), Types: []cell{}, Tests: []cell{}, Levels: []cell{}, Counts: []cell{}}
			for _, t := range []score.Type{score.Default, score.ByTest, score.ByData, score.Original} {
				if isBench {
					r.Types = append(r.Types, cell{t.ColHeader(), num(b.ScoreForType(h, t))})
				} else if isWarn {
					r.Types = append(r.Types, cell{t.ColHeader(), num(w.ScoreForType(h, t))})
				}
			}
			for _, t := range as.Tests {
				r.Tests = append(r.Tests, cell{t, num(b.ScoreForTest(h, data.TestTag(t)))})
			}
			if isWarn {
				for _, l := range warning.LevelOrder {
					r.Levels = append(r.Levels, cell{l.String(), num(w.ScoreForLevel(h, l))})
					r.Counts = append(r.Counts, cell{l.String(), num(w.CountForLevel(h, l))})
				}
			}
			as.Rows = append(as.Rows, r)
		}
		ks.Axes = append(ks.Axes, as)
	}
	return ks
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
