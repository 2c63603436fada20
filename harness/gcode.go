package main

// A small G-code interpreter: what a printer would do with the program, and how the comments structure it.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

type Move struct {
	Line   int
	Layer  int    // layer announced by the last LAYER comment, -1 before the first
	Type   string // last TYPE comment since the layer started ("" if none)
	Sub    string // last *-FILL comment
	G      int    // 0 or 1
	From   [3]float64
	To     [3]float64
	Known  [3]bool // whether the coordinate was known before the move
	HasX   bool
	HasY   bool
	HasZ   bool
	HasF   bool
	F      float64 // feedrate in effect, mm/min
	HasE   bool
	E, DE  float64
	InEnd  bool
	Header bool // before G92 E0
}

func (m *Move) XY() float64 { return math.Hypot(m.To[0]-m.From[0], m.To[1]-m.From[1]) }
func (m *Move) ToPt() Pt    { return Pt{m.To[0], m.To[1]} }
func (m *Move) FromPt() Pt  { return Pt{m.From[0], m.From[1]} }

// Extrudes reports a printing move (forward extrusion while moving in the plane).
func (m *Move) Extrudes() bool { return m.HasE && m.DE > 0 && m.XY() > 0 }

type Stroke struct { // a printed path: a travel to Pts[0], then extrusion along Pts
	Layer  int
	Type   string
	Sub    string
	Pts    []Pt // micrometers
	Z      float64
	Moves  []int // indices of the extruding moves
	Travel []int // indices of the moves since the previous stroke
}

func (s *Stroke) Closed() bool {
	return len(s.Pts) > 2 && dist(s.Pts[0], s.Pts[len(s.Pts)-1]) < 1
}

type GProg struct {
	Lines   []string
	Moves   []Move
	Strokes []Stroke
	Layers  []int // numbers of the LAYER comments in order
	LayerLn []int // their line indices
	End     int   // line index of END_GCODE (-1)
	Reset   int   // line index of the G92 E0
	Bad     []string
}

// parseG reads the program. Positions are micrometers.
func parseG(code string) *GProg {
	p := &GProg{End: -1, Reset: -1}
	p.Lines = strings.Split(code, "\n")
	if n := len(p.Lines); n > 0 && p.Lines[n-1] == "" {
		p.Lines = p.Lines[:n-1]
	}
	layer, typ, sub := -1, "", ""
	var pos [3]float64
	var known [3]bool
	e, f := 0.0, 0.0
	var cur *Stroke
	var travel []int
	flush := func() {
		if cur != nil {
			p.Strokes = append(p.Strokes, *cur)
			cur = nil
		}
	}
	for ln, l := range p.Lines {
		if strings.HasPrefix(l, ";") {
			c := l[1:]
			switch {
			case strings.HasPrefix(c, "LAYER:"):
				flush()
				n, err := strconv.Atoi(c[6:])
				if err != nil {
					p.Bad = append(p.Bad, fmt.Sprintf("line %d: %q", ln+1, l))
				}
				layer, typ, sub = n, "", ""
				p.Layers = append(p.Layers, n)
				p.LayerLn = append(p.LayerLn, ln)
			case strings.HasPrefix(c, "TYPE:"):
				flush()
				typ, sub = c[5:], ""
			case strings.HasSuffix(c, "-FILL"):
				flush()
				sub = c
			case c == "END_GCODE":
				flush()
				p.End = ln
			}
			continue
		}
		if strings.HasPrefix(l, "G92 E0") {
			if p.Reset < 0 {
				p.Reset = ln
			}
			e = 0
			continue
		}
		if !(strings.HasPrefix(l, "G0 ") || strings.HasPrefix(l, "G1 ") || l == "G0" || l == "G1") {
			continue
		}
		if k := strings.Index(l, ";"); k >= 0 {
			l = l[:k]
		}
		m := Move{Line: ln, Layer: layer, Type: typ, Sub: sub, From: pos, To: pos, Known: known, F: f, E: e, InEnd: p.End >= 0, Header: p.Reset < 0}
		w := strings.Fields(l)
		if w[0] == "G1" {
			m.G = 1
		}
		for _, a := range w[1:] {
			v, err := strconv.ParseFloat(a[1:], 64)
			if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
				p.Bad = append(p.Bad, fmt.Sprintf("line %d: %q", ln+1, l))
				continue
			}
			switch a[0] {
			case 'X':
				m.HasX, m.To[0] = true, math.Round(v*1000)
				known[0] = true
			case 'Y':
				m.HasY, m.To[1] = true, math.Round(v*1000)
				known[1] = true
			case 'Z':
				m.HasZ, m.To[2] = true, math.Round(v*1000)
				known[2] = true
			case 'F':
				m.HasF, m.F = true, v
			case 'E':
				m.HasE, m.E = true, v
			default:
				p.Bad = append(p.Bad, fmt.Sprintf("line %d: %q", ln+1, l))
			}
		}
		m.DE = m.E - e
		if !m.HasE {
			m.DE = 0
		}
		pos, f, e = m.To, m.F, m.E
		p.Moves = append(p.Moves, m)
		k := len(p.Moves) - 1
		mm := &p.Moves[k]
		if mm.HasE && mm.DE >= 0 && mm.XY() > 0 {
			if cur == nil {
				cur = &Stroke{Layer: layer, Type: typ, Sub: sub, Pts: []Pt{mm.FromPt()}, Z: mm.To[2], Travel: travel}
				travel = nil
			}
			cur.Pts = append(cur.Pts, mm.ToPt())
			cur.Moves = append(cur.Moves, k)
		} else if mm.HasE && mm.DE >= 0 && mm.DE < 0.005 && mm.XY() == 0 {
			// a movement too short to show in two decimals
			travel = append(travel, k)
			if cur != nil {
				cur.Moves = append(cur.Moves, k)
				travel = travel[:len(travel)-1]
			}
		} else {
			flush()
			travel = append(travel, k)
		}
	}
	flush()
	return p
}

// layerStrokes returns the strokes of a layer, optionally only of the given type (and sub type).
func (p *GProg) layerStrokes(layer int, typ string, sub string) []*Stroke {
	var r []*Stroke
	for i := range p.Strokes {
		s := &p.Strokes[i]
		if s.Layer == layer && (typ == "" || s.Type == typ) && (sub == "" || s.Sub == sub) {
			r = append(r, s)
		}
	}
	return r
}
