// Driver for the gin writer.
package main

import (
	"context"
	"log/slog"
	"strconv"
	"time"

	"github.com/madkins23/go-slog/gin"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

type config struct {
	Level  int    `json:"level"`
	How    string `json:"how"` // const, var or nil
	Parse  bool   `json:"parse"`
	Embed  bool   `json:"embed"`
	TLevel int    `json:"tlevel"`
	THow   string `json:"thow"`
	Msg    string `json:"msg"`
	Group  string `json:"group"`
}

type field struct {
	K string `json:"k"`
	J string `json:"j"`
}

type record struct {
	Level int     `json:"level"`
	Msg   string  `json:"msg"`
	Group string  `json:"group"`
	Fs    []field `json:"fs"`
}

type use struct {
	Level  int      `json:"level"`  // the configured level at this moment
	TLevel int      `json:"tlevel"` // the configured traffic level
	Line   string   `json:"line"`
	N      int      `json:"n"`
	Bytes  int      `json:"bytes"`
	Err    string   `json:"err"`
	Panic  string   `json:"panic"`
	Recs   []record `json:"recs"`
}

type program struct {
	Cfg config `json:"cfg"`
	Use []use  `json:"use"`
}

// catcher is the handler behind the default logger.
type catcher struct{ recs *[]record }

func (c catcher) Enabled(context.Context, slog.Level) bool { return true }
func (c catcher) WithAttrs(attrs []slog.Attr) slog.Handler { return c }
func (c catcher) WithGroup(name string) slog.Handler       { return c }

func leaf(a slog.Attr) field {
	switch a.Value.Kind() {
	case slog.KindInt64:
		return field{a.Key, "n:" + strconv.FormatInt(a.Value.Int64(), 10)}
	case slog.KindString:
		return field{a.Key, "s:" + a.Value.String()}
	}
	return field{a.Key, a.Value.Kind().String() + ":" + a.Value.String()}
}

func (c catcher) Handle(_ context.Context, r slog.Record) error {
	rec := record{Level: int(r.Level), Msg: r.Message, Fs: []field{}}
	r.Attrs(func(a slog.Attr) bool {
		if a.Value.Kind() == slog.KindGroup {
			rec.Group += a.Key
			for _, b := range a.Value.Group() {
				rec.Fs = append(rec.Fs, leaf(b))
			}
		} else {
			rec.Fs = append(rec.Fs, leaf(a))
		}
		return true
	})
	*c.recs = append(*c.recs, rec)
	return nil
}

func main() {
	kit.Each(func(p *program) any {
		c := p.Cfg
		var lv, tv slog.LevelVar
		o := &gin.Options{Traffic: gin.Traffic{Parse: c.Parse, Embed: c.Embed, Message: c.Msg, Group: c.Group}}
		switch c.How {
		case "const":
			o.Level = slog.Level(c.Level)
		case "var":
			o.Level = &lv
		}
		switch c.THow {
		case "const":
			o.Traffic.Level = slog.Level(c.TLevel)
		case "var":
			o.Traffic.Level = &tv
		}
		w := gin.NewWriter(o)
		for i := range p.Use {
			u := &p.Use[i]
			lv.Set(slog.Level(u.Level))
			tv.Set(slog.Level(u.TLevel))
			recs := []record{}
			slog.SetDefault(slog.New(catcher{&recs}))
			b := []byte(u.Line)
			u.Bytes = len(b)
			u.Panic = kit.Guard(5*time.Second, func() {
				n, err := w.Write(b)
				u.N = n
				if err != nil {
					u.Err = "E: " + err.Error()
				}
			})
			u.Recs = recs
		}
		return p
	})
}
