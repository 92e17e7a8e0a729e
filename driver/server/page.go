package server

import (
	"bytes"
	"net/url"
	"path"
	"regexp"
	"slices"
	"strings"

	"golang.org/x/net/html"
)

type link struct {
	To   string `json:"to"`
	Name string `json:"name"`
	On   bool   `json:"on"`
}

type instance struct {
	Name  string   `json:"name"`
	Extra []string `json:"extra"`
	Links []link   `json:"links"`
	Has   bool     `json:"has"` // can be made to show its record
	Log   string   `json:"log"`
}

type warn struct {
	Name    string     `json:"name"`
	Summary string     `json:"summary"`
	Insts   []instance `json:"insts"`
}

type level struct {
	Name string `json:"name"`
	Ws   []warn `json:"ws"`
}

type table struct {
	ID    string     `json:"id"`
	Head  []string   `json:"head"`
	Rows  [][]string `json:"rows"`
	Links []string   `json:"links"` // of the first cells
}

type usage struct {
	Name     string   `json:"name"`
	Summary  string   `json:"summary"`
	Level    string   `json:"level"`
	On       bool     `json:"on"`
	Handlers []string `json:"handlers"`
	Tests    []string `json:"tests"`
}

type page struct {
	Title    string   `json:"title"`
	Heads    []string `json:"heads"`
	Menus    [][]link `json:"menus"`
	Lists    [][]link `json:"lists"`
	Images   []link   `json:"images"`
	Summary  bool     `json:"summary"`
	Refs     []link   `json:"refs"`
	Tables   []table  `json:"tables"`
	Warnings []level  `json:"warnings"`
	Usage    []usage  `json:"usage"`
	Text     string   `json:"text"`
	About    string   `json:"about"`
}

func emptyPage() page {
	return page{Heads: []string{}, Menus: [][]link{}, Lists: [][]link{}, Images: []link{}, Refs: []link{}, Tables: []table{}, Warnings: []level{}, Usage: []usage{}}
}

func attr(n *html.Node, key string) string {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val
		}
	}
	return ""
}

func has(n *html.Node, key string) bool {
	return slices.ContainsFunc(n.Attr, func(a html.Attribute) bool { return a.Key == key })
}

type match func(*html.Node) bool

func is(tags string, class ...string) match {
	return func(n *html.Node) bool {
		return n.Type == html.ElementNode && slices.Contains(strings.Fields(tags), n.Data) &&
			(len(class) == 0 || slices.ContainsFunc(strings.Fields(attr(n, "class")), func(c string) bool { return slices.Contains(class, c) }))
	}
}

// find returns the outermost matching descendants.
func find(n *html.Node, m match) []*html.Node {
	var r []*html.Node
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if m(c) {
			r = append(r, c)
		} else {
			r = append(r, find(c, m)...)
		}
	}
	return r
}

func text(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	var b strings.Builder
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		b.WriteString(text(c))
	}
	return b.String()
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }
func short(n *html.Node) string {
	return squeeze(text(n))
}

// lines returns the lines a browser would show.
func lines(n *html.Node) []string {
	var b strings.Builder
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		block := is("p div br li tr")(n)
		if block {
			b.WriteString("\x00")
		}
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
		if block {
			b.WriteString("\x00")
		}
	}
	walk(n)
	r := []string{}
	for _, l := range strings.Split(b.String(), "\x00") {
		if l = squeeze(l); l != "" {
			r = append(r, l)
		}
	}
	return r
}

func rows(t *html.Node) []*html.Node { return find(t, is("tr")) }
func cells(r *html.Node) []*html.Node {
	var cs []*html.Node
	for c := r.FirstChild; c != nil; c = c.NextSibling {
		if is("td th")(c) {
			cs = append(cs, c)
		}
	}
	return cs
}

// label is the text of a heading of a column.
func label(n *html.Node) string {
	if l := find(n, is("label")); len(l) > 0 {
		return short(l[0])
	}
	return short(n)
}

func readTable(t *html.Node) table {
	tb := table{ID: attr(t, "id"), Head: []string{}, Rows: [][]string{}, Links: []string{}}
	for i, r := range rows(t) {
		cs := cells(r)
		if i == 0 {
			for _, c := range cs {
				tb.Head = append(tb.Head, label(c))
			}
			continue
		}
		row := []string{}
		for j, c := range cs {
			row = append(row, short(c))
			if a := find(c, is("a")); j == 0 && len(a) == 1 {
				tb.Links = append(tb.Links, attr(a[0], "href"))
			}
		}
		tb.Rows = append(tb.Rows, row)
	}
	return tb
}

var ptnToggle = regexp.MustCompile(`toggleTableRow\('(.*)'\)`)

func byID(root *html.Node, id string) *html.Node {
	if f := find(root, func(n *html.Node) bool { return n.Type == html.ElementNode && attr(n, "id") == id }); len(f) > 0 {
		return f[0]
	}
	return nil
}

func readWarnings(root, t *html.Node) []level {
	ls := []level{}
	for _, r := range rows(t) {
		cs := cells(r)
		switch {
		case len(find(r, is("td", "level"))) > 0:
			ls = append(ls, level{Name: short(r), Ws: []warn{}})
		case len(find(r, is("td", "warning"))) > 0 && len(ls) > 0:
			l := &ls[len(ls)-1]
			w := warn{Name: short(find(r, is("td", "warning"))[0]), Insts: []instance{}}
			if e := find(r, is("td", "extra")); len(e) > 0 {
				w.Summary = short(e[0])
			}
			l.Ws = append(l.Ws, w)
		case len(find(r, is("table", "instance"))) > 0 && len(ls) > 0 && len(ls[len(ls)-1].Ws) > 0:
			ws := ls[len(ls)-1].Ws
			w := &ws[len(ws)-1]
			for _, ir := range rows(find(r, is("table", "instance"))[0]) {
				ics := cells(ir)
				if n := find(ir, is("td", "name")); len(n) > 0 {
					in := instance{Name: short(n[0]), Extra: []string{}, Links: []link{}}
					if e := find(ir, is("td", "extra")); len(e) > 0 {
						in.Extra = lines(e[0])
						for _, a := range find(e[0], is("a")) {
							in.Links = append(in.Links, link{To: attr(a, "href"), Name: short(a)})
						}
					}
					for _, b := range find(ir, is("button")) {
						if m := ptnToggle.FindStringSubmatch(attr(b, "onclick")); m != nil {
							in.Has = true
							if row := byID(root, m[1]); row != nil {
								in.Log = text(row)
							}
						}
					}
					w.Insts = append(w.Insts, in)
				} else if len(ics) > 0 && !strings.Contains(strings.ReplaceAll(attr(ir, "style"), " ", ""), "display:none") && len(w.Insts) > 0 {
					w.Insts[len(w.Insts)-1].Has = true
					w.Insts[len(w.Insts)-1].Log = text(ir)
				}
			}
		default:
			_ = cs
		}
	}
	return ls
}

func readUsage(t *html.Node) []usage {
	us := []usage{}
	lvl := ""
	for _, r := range rows(t) {
		if n := find(r, is("td", "level")); len(n) > 0 {
			lvl = short(n[0])
		} else if n := find(r, is("td", "warning")); len(n) > 0 {
			u := usage{Name: short(n[0]), Level: lvl, Handlers: []string{}, Tests: []string{}}
			if e := find(r, is("td", "extra")); len(e) > 0 {
				u.Summary = short(e[0])
			}
			u.On = len(find(r, is("button"))) > 0
			us = append(us, u)
		} else if n := find(r, is("div", "list")); len(n) == 2 && len(us) > 0 {
			us[len(us)-1].Handlers, us[len(us)-1].Tests = lines(n[0]), lines(n[1])
		}
	}
	return us
}

func readPage(body []byte) page {
	p := emptyPage()
	root, err := html.Parse(bytes.NewReader(body))
	must(err)
	for _, h := range find(root, is("table", "header")) {
		for _, t := range find(h, is("h2")) {
			p.Title += short(t)
		}
		for _, s := range find(h, is("select")) {
			m := []link{}
			for _, o := range find(s, is("option")) {
				if !has(o, "disabled") {
					m = append(m, link{To: attr(o, "value"), Name: short(o), On: has(o, "selected")})
				}
			}
			p.Menus = append(p.Menus, m)
		}
	}
	for _, h := range find(root, is("div", "content")) {
		for _, t := range find(h, is("h2 h3")) {
			p.Heads = append(p.Heads, short(t))
		}
		for _, f := range find(h, is("fieldset")) {
			l := []link{}
			for _, r := range find(f, is("tr")) {
				if a := find(r, is("a")); len(a) == 1 {
					l = append(l, link{To: attr(a[0], "href"), Name: short(a[0])})
				} else if s := short(r); s != "" {
					l = append(l, link{Name: s})
				}
			}
			p.Lists = append(p.Lists, l)
		}
		for _, i := range find(h, is("img")) {
			p.Images = append(p.Images, link{To: attr(i, "src"), Name: attr(i, "alt")})
		}
		for _, r := range find(h, is("tr", "summary")) {
			for i, c := range cells(r) {
				if i == 0 {
					p.Summary = short(c) != ""
				} else {
					for _, a := range find(c, is("a")) {
						p.Refs = append(p.Refs, link{To: attr(a, "href"), Name: short(a)})
					}
				}
			}
		}
		for _, t := range find(h, is("table", "data", "debug", "handler-v-warning")) {
			p.Tables = append(p.Tables, readTable(t))
		}
		for _, t := range find(h, is("table", "warning")) {
			if len(find(t, is("table", "warning-data"))) > 0 || strings.Contains(p.Title, "Warnings") && len(p.Images) == 0 && len(find(root, is("table", "handler-v-warning"))) > 0 {
				p.Usage = readUsage(t)
			} else {
				p.Warnings = readWarnings(root, t)
			}
		}
	}
	for _, t := range find(root, is("div", "text")) {
		p.Text += text(t)
	}
	p.Text = strings.TrimSpace(p.Text)
	for _, t := range find(root, is("div", "text-summary")) {
		p.About += short(t)
	}
	return p
}

// readLinks returns the pages a page leads to.
func readLinks(from string, body []byte) []string {
	root, err := html.Parse(bytes.NewReader(body))
	must(err)
	var r []string
	add := func(ref string) {
		u, err := url.Parse(ref)
		if err != nil {
			r = append(r, ref)
			return
		}
		base, err := url.Parse(from)
		must(err)
		if u.Host == "" && u.Scheme == "" && u.Path != "" {
			r = append(r, base.ResolveReference(&url.URL{Path: u.Path}).EscapedPath())
		}
	}
	for _, n := range find(root, is("a")) {
		if !slices.Contains(strings.Fields(attr(n.Parent, "class")), "reference") && attr(n, "target") == "" {
			add(attr(n, "href"))
		}
	}
	for _, n := range find(root, is("img script")) {
		if s := attr(n, "src"); s != "" {
			add(s)
		}
	}
	for _, n := range find(root, is("link")) {
		add(attr(n, "href"))
	}
	for i, s := range find(root, is("select")) {
		for _, o := range find(s, is("option")) {
			if v := attr(o, "value"); v != "" && !has(o, "disabled") {
				to := map[string]string{"hdlrChoice": "/go-slog/handler/%.html", "testChoice": "/go-slog/test/%.html",
					"scoreChoice": "/go-slog/scores/%/summary.html", "otherChoice": "/go-slog/%"}[strings.Split(attr(s, "onchange"), "(")[0]]
				u := url.URL{Path: path.Clean(strings.Replace(to, "%", v, 1))}
				r = append(r, u.EscapedPath())
				_ = i
			}
		}
	}
	return r
}
