package server

import (
	"bytes"
	"math"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/net/html"
)

type point struct {
	Label string `json:"label"`
	X     int    `json:"x"`
	Y     int    `json:"y"`
}

// svg is what a chart shows. Bars are from top to bottom with their length in
// pixels and the scale in pixels for the largest number on the axis; points are in 1/100.
type svg struct {
	Title  string   `json:"title"`
	Labels []string `json:"labels"`
	Bars   []int    `json:"bars"`
	Width  int      `json:"width"`
	Min    string   `json:"min"`
	Max    string   `json:"max"`
	Points []point  `json:"points"`
	Names  []string `json:"names"` // of the axes
	Size   int      `json:"size"`
}

func emptySVG() svg {
	return svg{Labels: []string{}, Bars: []int{}, Points: []point{}, Names: []string{}}
}

var (
	ptnPoint  = regexp.MustCompile(`[ML] (-?\d+) (-?\d+)`)
	ptnNumber = regexp.MustCompile(`^[\d.,]+[kMGT]?$`)
)

func path2(n *html.Node) [][2]int {
	var r [][2]int
	for _, m := range ptnPoint.FindAllStringSubmatch(attr(n, "d"), -1) {
		x, _ := strconv.Atoi(m[1])
		y, _ := strconv.Atoi(m[2])
		r = append(r, [2]int{x, y})
	}
	return r
}

func atoi(s string) int {
	f, _ := strconv.ParseFloat(s, 64)
	return int(math.Round(f))
}

func readSVG(body []byte) svg {
	s := emptySVG()
	s.Size = len(body)
	root, err := html.Parse(bytes.NewReader(body))
	must(err)
	els := find(root, is("path text circle"))
	var circles [][2]int
	for _, e := range els {
		if e.Data == "circle" {
			circles = append(circles, [2]int{atoi(attr(e, "cx")), atoi(attr(e, "cy"))})
		}
	}
	if scatter := strings.Contains(string(body), "rotate("); scatter {
		s.scatter(els, circles)
	} else {
		s.bars(els)
	}
	return s
}

func (s *svg) bars(els []*html.Node) {
	type label struct {
		y int
		t string
	}
	var bars [][4]int
	var axis int // x of the axis
	for _, e := range els {
		p := path2(e)
		style := attr(e, "style")
		if e.Data == "path" && strings.Contains(style, "fill:rgba(84,112,198") && len(p) == 5 {
			bars = append(bars, [4]int{p[0][1], p[2][0] - p[0][0], p[2][1], p[0][0]})
			axis = p[0][0]
		}
	}
	lowest := 0
	for _, b := range bars {
		lowest = max(lowest, b[2])
	}
	right := 0
	var labels []label
	for _, e := range els {
		if e.Data == "text" {
			x, y, t := atoi(attr(e, "x")), atoi(attr(e, "y")), text(e)
			switch {
			case y < 40:
				s.Title += t
			case x < axis-4 && y <= lowest+8:
				labels = append(labels, label{y, t})
			case ptnNumber.MatchString(t):
				if s.Min == "" {
					s.Min = t
				}
				s.Max = t
			}
		} else if p := path2(e); e.Data == "path" && len(p) == 2 && p[0][0] == p[1][0] {
			right = max(right, p[0][0])
		}
	}
	s.Width = right - axis
	for i := 1; i < len(labels); i++ {
		for j := i; j > 0 && labels[j].y < labels[j-1].y; j-- {
			labels[j], labels[j-1] = labels[j-1], labels[j]
		}
	}
	for i := 1; i < len(bars); i++ {
		for j := i; j > 0 && bars[j][0] < bars[j-1][0]; j-- {
			bars[j], bars[j-1] = bars[j-1], bars[j]
		}
	}
	for _, l := range labels {
		s.Labels = append(s.Labels, l.t)
	}
	for _, b := range bars {
		s.Bars = append(s.Bars, b[1])
	}
}

func (s *svg) scatter(els []*html.Node, circles [][2]int) {
	// Ticks give the scale of both axes: a short line followed by a number.
	type tick struct{ px, v float64 }
	var xs, ys []tick
	lines := make(map[[2]int][2]int) // end to start
	var starts [][4]int
	boxes := make(map[[2]int]string)
	for i, e := range els {
		p := path2(e)
		if e.Data == "text" {
			if v, err := strconv.ParseFloat(text(e), 64); err == nil && i > 0 {
				// There is a second vertical axis out of sight.
				if q := path2(els[i-1]); len(q) == 2 && q[0][1] >= 0 && q[0][1] < 10000 {
					if q[0][0] == q[1][0] {
						xs = append(xs, tick{float64(q[0][0]), v})
					} else {
						ys = append(ys, tick{float64(q[0][1]), v})
					}
				}
			} else if q := path2(els[max(0, i-1)]); i > 0 && els[i-1].Data == "path" && len(q) > 4 {
				boxes[q[0]] = text(e)
			} else {
				s.Names = append(s.Names, text(e))
			}
		} else if e.Data == "path" && len(p) == 2 {
			lines[p[1]] = p[0]
			starts = append(starts, [4]int{p[0][0], p[0][1], p[1][0], p[1][1]})
		}
	}
	if len(xs) < 2 || len(ys) < 2 {
		s.Title = "no ticks"
		return
	}
	at := func(ts []tick, px int) int {
		a, b := ts[0], ts[len(ts)-1]
		return int(math.Round(100 * (a.v + (float64(px)-a.px)*(b.v-a.v)/(b.px-a.px))))
	}
	used := make(map[int]bool)
	for _, c := range circles {
		pt := point{X: at(xs, c[0]), Y: at(ys, c[1])}
		for i, l := range starts {
			if t, found := boxes[[2]int{l[2], l[3]}]; found && !used[i] && l[0] == c[0] && l[1] == c[1] {
				used[i] = true
				pt.Label = t
				break
			}
		}
		s.Points = append(s.Points, pt)
	}
}
