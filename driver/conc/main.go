// Driver for concurrent logging: forces schedules of logging calls through
// user code the handlers run (LogValue, String, Write) and records what happens.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"log/slog"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type rec struct {
	Kind   string `json:"kind"` // ok boom fail
	Path   int    `json:"path"` // which derivation shape
	Pad    int    `json:"pad"`
	From   int    `json:"from"`  // which function logs it
	Level  int    `json:"level"` // of the record
	Expect string `json:"expect"`
}

type control struct {
	A string `json:"a"` // start step wend
	R int    `json:"r"`
}

type event struct {
	A    string `json:"a"` // start wbegin wend ret failed
	R    int    `json:"r"`
	W    int    `json:"w"`
	Data string `json:"data"`
	Same bool   `json:"same"`
	Res  string `json:"res"`
}

type prog struct {
	ID     int       `json:"id"`
	H      string    `json:"h"`
	Rep    bool      `json:"rep"`
	Src    bool      `json:"src"` // AddSource
	Mode   string    `json:"mode"` // sched or stress
	Pieces int       `json:"pieces"`
	Via    string    `json:"via"` // lv or stringer
	Recs   []rec     `json:"recs"`
	Sched  []control `json:"sched"`
	Procs  int       `json:"procs"`
	Ev     []event   `json:"ev"`
}

type run struct {
	p        *prog
	mu       sync.Mutex
	ev       []event
	gates    []chan struct{}
	sig      []chan string
	where    []string // yield, write, done, "" per record
	wgate    chan struct{}
	writes   int
	active   int
	free     atomic.Bool // no more gating
	isolated bool
	only     bytes.Buffer
}

func (r *run) note(e event) { r.mu.Lock(); r.ev = append(r.ev, e); r.mu.Unlock() }

func (r *run) signal(id int, s string) {
	r.mu.Lock()
	r.where[id] = s
	r.mu.Unlock()
	select {
	case r.sig[id] <- s:
	default:
	}
}

// Write is the shared writer. Which record it got is told by its data.
func (r *run) Write(b []byte) (int, error) {
	if r.isolated {
		return r.only.Write(b)
	}
	was := string(b)
	id := -1
	for i := range r.p.Recs {
		if strings.Contains(was, fmt.Sprintf("\"rec-%d.", i+1)) {
			id = i
			break
		}
	}
	r.mu.Lock()
	r.writes++
	w := r.writes
	r.active++
	r.ev = append(r.ev, event{A: "wbegin", R: id + 1, W: w, Data: was})
	r.mu.Unlock()
	if r.p.Mode == "sched" {
		if id >= 0 {
			r.signal(id, "write")
		}
		if !r.free.Load() {
			select {
			case <-r.wgate:
			case <-time.After(5 * time.Second):
			}
		}
	} else if w%7 == 0 {
		time.Sleep(20 * time.Microsecond)
	}
	same := string(b) == was
	r.mu.Lock()
	r.active--
	e := event{A: "wend", R: id + 1, W: w, Same: same}
	if !same {
		e.Data = string(b)
	}
	r.ev = append(r.ev, e)
	r.mu.Unlock()
	if id >= 0 && r.p.Recs[id].Kind == "fail" {
		return 0, errors.New("disk full")
	}
	return len(b), nil
}

// piece is user code that runs in the middle of composing a record.
type piece struct {
	r     *run
	id, n int
}

func (p piece) text() string {
	if !p.r.isolated {
		if p.r.p.Mode == "sched" {
			p.r.yield(p.id)
		}
		if p.r.p.Recs[p.id].Kind == "boom" && p.n == p.r.p.Pieces-1 {
			panic("boom")
		}
	}
	return fmt.Sprintf("v%d.%d", p.id+1, p.n)
}

func (r *run) yield(id int) {
	if r.free.Load() {
		return
	}
	r.signal(id, "yield")
	select {
	case <-r.gates[id]:
	case <-time.After(5 * time.Second):
	}
}

type valuerPiece struct{ piece }

func (p valuerPiece) LogValue() slog.Value {
	return slog.GroupValue(slog.String("v", p.text()), slog.Int("n", p.n))
}

type stringerPiece struct{ piece }

func (p stringerPiece) String() string { return p.text() }

func (r *run) handler(procs int) slog.Handler {
	opts := &slog.HandlerOptions{AddSource: r.p.Src, Level: slog.Level(-100)}
	if r.p.Rep {
		opts.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
			if a.Key == "path" {
				return slog.String("path", strings.Join(groups, "/")+fmt.Sprint(a.Value))
			}
			return a
		}
	}
	if r.p.H == "flash" {
		return flash.NewHandler(r, opts, nil)
	}
	return sloggy.NewHandler(r, opts)
}

var when = time.Date(2024, 5, 6, 7, 8, 9, 123456789, time.UTC)

func derive(h slog.Handler, shape, id int) slog.Handler {
	if shape >= 1 {
		h = h.WithGroup("g").WithAttrs([]slog.Attr{slog.String("with", fmt.Sprintf("w%d", id+1))})
	}
	if shape >= 2 {
		h = h.WithGroup("h").WithGroup("i")
	}
	return h
}

func here() uintptr {
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	return pcs[0]
}

func fromHere() uintptr { return here() }

func fromSomewhereWithALongerName() uintptr {

	return here()
}

type place struct{}

func (*place) method() uintptr { return here() }

var places = []uintptr{0, fromHere(), fromSomewhereWithALongerName(), (&place{}).method()}

func (r *run) log(h slog.Handler, id int) error {
	rc := &r.p.Recs[id]
	record := slog.NewRecord(when.Add(time.Duration(id)*time.Second), slog.Level(rc.Level), fmt.Sprintf("rec-%d.", id+1)+strings.Repeat("x", rc.Pad), places[rc.From])
	as := []slog.Attr{slog.Int("path", id)}
	for n := 0; n < r.p.Pieces; n++ {
		pc := piece{r, id, n}
		if r.p.Via == "lv" {
			as = append(as, slog.Any(fmt.Sprintf("k%d", n), valuerPiece{pc}))
		} else {
			as = append(as, slog.Any(fmt.Sprintf("k%d", n), stringerPiece{pc}))
		}
	}
	record.AddAttrs(as...)
	return h.Handle(context.Background(), record)
}

// expect composes every record alone, on a root of its own.
func (r *run) expect() {
	for i := range r.p.Recs {
		iso := &run{p: r.p, isolated: true}
		h := derive(iso.handler(0), r.p.Recs[i].Path, i)
		_ = iso.log(h, i)
		r.p.Recs[i].Expect = iso.only.String()
	}
}

func (r *run) do(h slog.Handler, id int) {
	res := "ok"
	defer func() {
		if x := recover(); x != nil {
			res = "panic"
		}
		r.note(event{A: "ret", R: id + 1, Res: res})
		r.signal(id, "done")
	}()
	if err := r.log(h, id); err != nil {
		res = "error"
	}
}

var stalls int

func (r *run) sched() {
	root := r.handler(0)
	hs := make([]slog.Handler, len(r.p.Recs))
	for i := range hs {
		hs[i] = derive(root, r.p.Recs[i].Path, i)
	}
	var wg sync.WaitGroup
	started := make([]bool, len(hs))
	wait := func(id int) {
		grace := 300 * time.Millisecond
		r.mu.Lock()
		if r.active > 0 || stalls > 20 {
			grace = 1500 * time.Microsecond // expected to wait for the mutex
		}
		held := r.active > 0
		r.mu.Unlock()
		select {
		case <-r.sig[id]:
		case <-time.After(grace):
			if !held {
				stalls++
			}
		}
	}
	begin := func(id int) {
		started[id] = true
		r.note(event{A: "start", R: id + 1})
		wg.Add(1)
		go func() { defer wg.Done(); r.do(hs[id], id) }()
		wait(id)
	}
	for _, c := range r.p.Sched {
		id := c.R - 1
		switch c.A {
		case "start":
			if !started[id] {
				begin(id)
			}
		case "step":
			r.mu.Lock()
			at := r.where[id]
			if at == "yield" {
				r.where[id] = ""
			}
			r.mu.Unlock()
			if at == "yield" {
				select {
				case <-r.sig[id]:
				default:
				}
				r.gates[id] <- struct{}{}
				wait(id)
			}
		case "wend":
			r.mu.Lock()
			n := r.active
			r.mu.Unlock()
			if n > 0 {
				select {
				case r.wgate <- struct{}{}:
					time.Sleep(300 * time.Microsecond)
				case <-time.After(50 * time.Millisecond):
				}
			}
		}
	}
	for id := range hs {
		if !started[id] {
			begin(id)
		}
	}
	r.free.Store(true)
	close(r.wgate)
	for i := range r.gates {
		close(r.gates[i])
	}
	r.join(&wg)
}

// patience gets shorter once calls have hung.
var patience = 20 * time.Second

func (r *run) join(wg *sync.WaitGroup) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(patience):
		patience = max(patience/10, 50*time.Millisecond)
		r.note(event{A: "failed", Data: "a logging call never returned"})
	}
}

func (r *run) stress() {
	root := r.handler(0)
	shared := []slog.Handler{root, nil, nil}
	shared[1] = root.WithGroup("g")
	var wg sync.WaitGroup
	n := r.p.Procs
	gate := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for id := g; id < len(r.p.Recs); id += n {
				// Deriving takes place concurrently as well.
				h := derive(root, r.p.Recs[id].Path, id)
				r.note(event{A: "start", R: id + 1})
				r.do(h, id)
			}
		}()
	}
	close(gate)
	r.join(&wg)
}

func main() {
	kit.Each(func(p *prog) any {
		r := &run{p: p, wgate: make(chan struct{}), where: make([]string, len(p.Recs))}
		for range p.Recs {
			r.gates = append(r.gates, make(chan struct{}, 1))
			r.sig = append(r.sig, make(chan string, 4))
		}
		r.expect()
		if p.Mode == "stress" {
			r.stress()
		} else {
			r.sched()
		}
		r.mu.Lock()
		p.Ev = append([]event{}, r.ev...)
		r.mu.Unlock()
		if p.Sched == nil {
			p.Sched = []control{}
		}
		return p
	})
	_ = os.Stdout
}
