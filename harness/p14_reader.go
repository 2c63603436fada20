package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
)

// C14: the reader.

func init() {
	register(&Prop{
		ID:    "C14",
		Rule:  "random triangle lists in many magnitudes, written as binary STL (all header contents, attributes and normals) and as ASCII STL (all number formats, white space styles, line ends, names, several solids), and damaged versions of them (cut at every kind of place, extended, wrong counts, unusable coordinates, broken tokens, missing files, directories); every coordinate is compared with the exact value of the file; a case is non-trivial when a model was read or a damaged file was refused",
		Quick: 80000, Deep: 2000000,
		Require: map[string]int{"coordinates": 200000, "binary": 4000, "ascii": 4000, "solids_2+": 500, "large_solids": 10, "same_in_both": 1000, "refused_cut_binary": 400, "refused_cut_ascii": 400, "refused_unusable": 400, "refused_token": 400, "refused_count": 200, "refused_missing": 50, "refused_directory": 50, "refused_empty": 50, "refused_no_triangle": 50, "refused_garbage": 200},
		Assume:  []string{"ASCII keywords are in lower case and a solid starts with \"solid \" as in the format's description; other spellings may be refused"},
		Run:     runC14,
	})
}

// stlNum is a number of an ASCII file and its exact value.
type stlNum struct {
	text string
	v    float64
}

func coordinate(r *rand.Rand, mag float64) float64 {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return float64(r.Intn(2001)-1000) / 2000 // ends with half micrometers
	case 3:
		return float64(r.Intn(400) - 200)
	}
	return (r.Float64()*2 - 1) * mag
}

func numText(r *rand.Rand, v float64) stlNum {
	var s string
	switch r.Intn(9) {
	case 0:
		s = strconv.FormatFloat(v, 'g', -1, 32)
	case 1:
		s = fmt.Sprintf("%.6e", v)
	case 2:
		s = fmt.Sprintf("%.9E", v)
	case 3:
		s = fmt.Sprintf("%.6f", v)
	case 4:
		s = fmt.Sprintf("%+.4f", v)
	case 5:
		s = fmt.Sprintf("%.15g", v)
	case 6:
		s = fmt.Sprintf("%.0f", v)
	case 7:
		s = fmt.Sprintf("%08.3f", v)
	default:
		s = strings.Replace(fmt.Sprintf("%.3f", v), "0.", ".", 1)
		if _, err := strconv.ParseFloat(s, 64); err != nil {
			s = fmt.Sprintf("%.3f", v)
		}
	}
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return stlNum{s, x}
}

type asciiStyle struct {
	nl, indent, sep string
	oneLine         bool // all tokens of a facet in one line
	perToken        bool // every token in its own line
	blank           bool
}

func randStyle(r *rand.Rand) asciiStyle {
	st := asciiStyle{nl: []string{"\n", "\n", "\r\n"}[r.Intn(3)], indent: []string{"", "  ", "\t", "      "}[r.Intn(4)], sep: []string{" ", " ", "  ", "\t"}[r.Intn(4)]}
	switch r.Intn(6) {
	case 0:
		st.oneLine = true
	case 1:
		st.perToken = true
	}
	st.blank = r.Intn(5) == 0
	return st
}

// asciiSolid writes one solid and returns where its endsolid keyword ends.
func asciiSolid(r *rand.Rand, b *bytes.Buffer, name string, st asciiStyle, tris [][3][3]stlNum, breakAt int, how int, unusualStart bool) int {
	if unusualStart && b.Len() > 0 {
		b.WriteString([]string{"solid" + st.nl, "solid\t" + name + st.nl}[r.Intn(2)])
	} else {
		b.WriteString("solid " + name + st.nl)
	}
	for i, t := range tris {
		lines := [][]string{{"facet", "normal"}, {"outer", "loop"}, nil, nil, nil, {"endloop"}, {"endfacet"}}
		for k := 0; k < 3; k++ {
			lines[0] = append(lines[0], []string{"0", "1", "0.5", "-1e-3", "0.000000", "-2", "7.5", "-1"}[r.Intn(8)])
			lines[2+k] = []string{"vertex", t[k][0].text, t[k][1].text, t[k][2].text}
		}
		if i == breakAt {
			switch how {
			case 0: // a missing vertex
				k := 2 + r.Intn(3)
				lines = append(lines[:k], lines[k+1:]...)
			case 1: // one too many
				lines = append(lines[:3], append([][]string{{"vertex", "0", "0", "0"}}, lines[3:]...)...)
			case 2: // a broken number
				lines[2+r.Intn(3)][1+r.Intn(3)] = []string{"1.2.3", "abc", "1,5", "--1", "1e", "0x", "1e400", "12mm", "#"}[r.Intn(9)]
			case 3: // a missing number
				k := 2 + r.Intn(3)
				lines[k] = lines[k][:3]
			case 4: // one number too many
				k := 2 + r.Intn(3)
				lines[k] = append(lines[k], "7")
			case 5: // a misspelled keyword
				k := r.Intn(7)
				lines[k][0] = lines[k][0][:len(lines[k][0])-1] + "q"
			case 6: // a missing keyword
				k := r.Intn(7)
				lines[k] = lines[k][1:]
			}
		}
		for _, l := range lines {
			if st.perToken {
				for _, w := range l {
					b.WriteString(st.indent + w + st.nl)
				}
				continue
			}
			if st.oneLine {
				b.WriteString(strings.Join(l, st.sep) + st.sep)
				continue
			}
			b.WriteString(st.indent + strings.Join(l, st.sep) + st.nl)
			if st.blank && r.Intn(4) == 0 {
				b.WriteString([]string{"", " ", "\t"}[r.Intn(3)] + st.nl)
			}
		}
		if st.oneLine && (i%50 == 49 || r.Intn(3) > 0) {
			b.WriteString(st.nl)
		}
	}
	if st.oneLine && r.Intn(2) == 0 {
		b.WriteString(st.nl)
	}
	b.WriteString("endsolid")
	end := b.Len()
	if r.Intn(3) > 0 {
		b.WriteString(" " + name)
	}
	return end
}

func runC14(c *Ctx, i int) {
	r := c.Rand
	n := 1 + r.Intn(12)
	if r.Intn(10) == 0 {
		n = 1 + r.Intn(300)
	}
	mag := pick(r, 1e-6, 0.01, 1, 100, 100, 250, 1e4, 9.99e5)
	names := []string{"", "model", "a b c", "facet normal", "endsolid", "solid", "ünïcode", "exported by x 1.0", "vertex 1 2 3", strings.Repeat("long name ", 1+r.Intn(60)), strings.Repeat("n", r.Intn(300))}

	// binary
	bin := func(tris [][3][3]float64) []byte {
		b := make([]byte, 84+50*len(tris))
		h := b[:80]
		switch r.Intn(5) {
		case 0:
			copy(h, "solid model")
		case 1:
			r.Read(h)
		case 2:
			copy(h, "solid \nfacet normal 0 0 0\nendsolid")
		case 3:
			for k := range h {
				h[k] = ' '
			}
			copy(h, "COLOR=")
		}
		binary.LittleEndian.PutUint32(b[80:], uint32(len(tris)))
		for k, t := range tris {
			o := b[84+50*k:]
			for j := 0; j < 3; j++ {
				binary.LittleEndian.PutUint32(o[4*j:], math.Float32bits(float32(pick(r, 0, 1, -1, 0.7, -2, 5, -0.001, 1e30, math.Inf(-1), math.NaN()))))
			}
			for j := 0; j < 9; j++ {
				binary.LittleEndian.PutUint32(o[12+4*j:], math.Float32bits(float32(t[j/3][j%3])))
			}
			binary.LittleEndian.PutUint16(o[48:], uint16(pickInt(r, 0, 0, 65535, r.Intn(65536))))
		}
		return b
	}
	rndTris := func(n int) [][3][3]float64 {
		out := make([][3][3]float64, n)
		for k := range out {
			for j := 0; j < 9; j++ {
				out[k][j/3][j%3] = float64(float32(coordinate(r, mag)))
			}
			if k > 0 && r.Intn(6) == 0 { // the same again
				out[k] = out[k-1-r.Intn(min(k, 2))]
			}
			if r.Intn(12) == 0 { // degenerate
				out[k][r.Intn(3)] = out[k][r.Intn(3)]
			}
		}
		return out
	}
	texts := func(t [][3][3]float64) [][3][3]stlNum {
		out := make([][3][3]stlNum, len(t))
		for k := range out {
			for j := 0; j < 9; j++ {
				out[k][j/3][j%3] = numText(r, t[k][j/3][j%3])
			}
		}
		return out
	}
	values := func(t [][3][3]stlNum) [][3][3]float64 {
		out := make([][3][3]float64, len(t))
		for k := range out {
			for j := 0; j < 9; j++ {
				out[k][j/3][j%3] = t[k][j/3][j%3].v
			}
		}
		return out
	}
	o := defaults()
	rd := goslice.NewGoSlice(o).Reader
	read := func(name string, b []byte) (data.Model, error) {
		f := c.File(name, b)
		m, err := rd.Read(f)
		if after, e := os.ReadFile(f); e != nil || !bytes.Equal(after, b) {
			c.Fail("file-changed", "reading changed the file")
		}
		os.Remove(f)
		return m, err
	}
	// check compares a read model with the exact coordinates of the file.
	check := func(kind string, m data.Model, err error, want [][3][3]float64) bool {
		if err != nil || m == nil {
			c.Fail("refused-valid", "%s: a valid file with %d triangles is refused: %v", kind, len(want), err)
			return false
		}
		if m.FaceCount() != len(want) {
			c.Fail("face-count", "%s: %d faces instead of %d", kind, m.FaceCount(), len(want))
			return false
		}
		lo, hi := [3]int64{math.MaxInt64, math.MaxInt64, math.MaxInt64}, [3]int64{math.MinInt64, math.MinInt64, math.MinInt64}
		for k := range want {
			p := m.Face(k).Points()
			for v := 0; v < 3; v++ {
				got := [3]int64{int64(p[v].X()), int64(p[v].Y()), int64(p[v].Z())}
				for a := 0; a < 3; a++ {
					w := want[k][v][a] * 1000
					// half a micrometer, and the precision of the numbers in a STL file
					tol := 0.5 + 1e-6 + math.Abs(w)/(1<<22)
					d := math.Abs(float64(got[a]) - w)
					c.Max("difference_um", d-math.Abs(w)/(1<<22))
					if d > tol {
						c.Fail("coordinate", "%s: face %d vertex %d axis %d is %d µm, the file has %v mm", kind, k, v, a, got[a], want[k][v][a])
						return false
					}
					if got[a] < lo[a] {
						lo[a] = got[a]
					}
					if got[a] > hi[a] {
						hi[a] = got[a]
					}
				}
			}
		}
		mn, mx := m.Min(), m.Max()
		if (IV3{lo[0], lo[1], lo[2]}) != iv3(mn) || (IV3{hi[0], hi[1], hi[2]}) != iv3(mx) {
			c.Fail("bounds", "%s: bounds %v %v instead of %v %v", kind, mn, mx, lo, hi)
			return false
		}
		c.Count("coordinates", 9*len(want))
		c.Nontrivial(true)
		return true
	}
	refused := func(kind string, m data.Model, err error, about string) {
		if err == nil {
			nf := -1
			if m != nil {
				nf = m.FaceCount()
			}
			c.Fail("accepted-"+kind, "%s: the file is accepted (%d faces): %s", kind, nf, about)
			return
		}
		c.Count("refused_"+kind, 1)
		c.Nontrivial(true)
	}
	c.Name("case-%d", i)
	c.Key(i)
	unusual := false // further solids start in an unusual way
	asc := func(st asciiStyle, solids [][][3][3]stlNum, breakSolid, breakTri, how int) ([]byte, int) {
		var b bytes.Buffer
		end := 0
		for k, s := range solids {
			at := -1
			if k == breakSolid {
				at = breakTri
			}
			end = asciiSolid(r, &b, names[r.Intn(len(names))], st, s, at, how, unusual)
			if k+1 < len(solids) {
				b.WriteString(st.nl)
				if r.Intn(3) == 0 {
					b.WriteString(st.nl)
				}
			} else if r.Intn(4) > 0 {
				b.WriteString(st.nl)
				if r.Intn(4) == 0 {
					b.WriteString(st.nl + st.indent)
				}
			}
		}
		return b.Bytes(), end
	}
	describe := func(b []byte) string {
		if len(b) > 300 {
			return fmt.Sprintf("%d bytes: %q ...", len(b), b[:300])
		}
		return fmt.Sprintf("%q", b)
	}
	switch k := i % 20; {
	case k < 4: // binary
		t := rndTris(n)
		m, err := read("m.stl", bin(t))
		if check("binary", m, err, t) {
			c.Count("binary", 1)
			c.Sample("binary, %d triangles", n)
		}
	case k < 8: // ascii
		t := texts(rndTris(n))
		b, _ := asc(randStyle(r), [][][3][3]stlNum{t}, -1, 0, 0)
		m, err := read("m.stl", b)
		if check("ascii", m, err, values(t)) {
			c.Count("ascii", 1)
			c.Sample("ascii, %s", describe(b))
		} else {
			c.Fail("file", "%s", describe(b))
		}
	case k < 9: // several solids
		var solids [][][3][3]stlNum
		var all [][3][3]float64
		big := -1 // one solid may be much larger than usual buffers
		if r.Intn(25) == 0 {
			big = r.Intn(3)
		}
		for q := 2 + r.Intn(3); q > 0; q-- {
			t := texts(rndTris(r.Intn(5)))
			if q == big+1 {
				t = texts(rndTris(700 + r.Intn(1500)))
				c.Count("large_solids", 1)
			}
			solids = append(solids, t)
			all = append(all, values(t)...)
		}
		st := randStyle(r)
		unusual = r.Intn(3) == 0
		b, _ := asc(st, solids, -1, 0, 0)
		m, err := read("m.stl", b)
		if unusual && err != nil {
			// it may be refused, but not read partially
			c.Count("refused_solids", 1)
			c.Nontrivial(true)
		} else if len(all) == 0 {
			refused("no_triangle", m, err, describe(b))
		} else if check("solids", m, err, all) {
			c.Count("solids_2+", 1)
		} else {
			c.Fail("file", "%s", describe(b))
		}
	case k < 11: // the same model in both formats
		t := rndTris(n)
		x := make([][3][3]stlNum, len(t))
		for k := range x {
			for j := 0; j < 9; j++ {
				v := t[k][j/3][j%3]
				x[k][j/3][j%3] = stlNum{strconv.FormatFloat(v, "gef"[r.Intn(3)], -1, 32), v}
			}
		}
		m1, e1 := read("m.stl", bin(t))
		b, _ := asc(randStyle(r), [][][3][3]stlNum{x}, -1, 0, 0)
		m2, e2 := read("m.STL", b)
		if check("binary", m1, e1, t) && check("ascii", m2, e2, t) {
			for f := 0; f < len(t); f++ {
				for v := 0; v < 3; v++ {
					if iv3(m1.Face(f).Points()[v]) != iv3(m2.Face(f).Points()[v]) {
						c.Fail("formats-differ", "face %d vertex %d: %v in the binary file, %v in the ASCII file", f, v, m1.Face(f).Points()[v], m2.Face(f).Points()[v])
						return
					}
				}
			}
			c.Count("same_in_both", 1)
		}
	case k < 13: // cut binary
		b := bin(rndTris(n))
		cut := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			cut = len(b) - 1 - r.Intn(50)
		case 1:
			cut = 84 + 50*r.Intn(n)
		case 2:
			cut = 1 + r.Intn(84)
		}
		if cut == 0 {
			m, err := read("m.stl", nil)
			refused("empty", m, err, "")
			return
		}
		m, err := read("m.stl", b[:cut])
		refused("cut_binary", m, err, fmt.Sprintf("%d of %d bytes", cut, len(b)))
	case k < 15: // cut ascii
		b, end := asc(randStyle(r), [][][3][3]stlNum{texts(rndTris(n))}, -1, 0, 0)
		cut := 1 + r.Intn(end-1)
		if r.Intn(3) == 0 {
			cut = end - 1 - r.Intn(20)
		}
		// the name may contain the keyword that ends the solid
		m, err := read("m.stl", b[:cut])
		refused("cut_ascii", m, err, fmt.Sprintf("cut at %d of %d: %s", cut, len(b), describe(b[:cut])))
	case k < 16: // wrong count, additional bytes
		b := bin(rndTris(n))
		if r.Intn(2) == 0 {
			d := pickInt(r, 1, -1, 2, 1000, 1<<24)
			if n+d <= 0 {
				d = 1
			}
			binary.LittleEndian.PutUint32(b[80:], uint32(n+d))
		} else {
			b = append(b, make([]byte, pickInt(r, 1, 2, 49, 50, 51, 1000))...)
		}
		m, err := read("m.stl", b)
		refused("count", m, err, "")
	case k < 17: // unusable coordinates
		t := rndTris(n)
		f, v, a := r.Intn(n), r.Intn(3), r.Intn(3)
		bad := pick(r, math.NaN(), math.Inf(1), math.Inf(-1), 1e30, -3e38, 1e7)
		if r.Intn(2) == 0 {
			t[f][v][a] = bad
			m, err := read("m.stl", bin(t))
			refused("unusable", m, err, fmt.Sprint(bad))
		} else {
			x := texts(t)
			x[f][v][a].text = []string{"nan", "NaN", "inf", "-Inf", "+infinity", "1e30", "-3e38", "1e39", "1e7"}[r.Intn(9)]
			b, _ := asc(randStyle(r), [][][3][3]stlNum{x}, -1, 0, 0)
			m, err := read("m.stl", b)
			refused("unusable", m, err, x[f][v][a].text)
		}
	case k < 18: // broken tokens
		how := r.Intn(7)
		t := texts(rndTris(n))
		solids := [][][3][3]stlNum{t}
		at := 0
		if r.Intn(3) == 0 {
			solids = [][][3][3]stlNum{texts(rndTris(1 + r.Intn(3))), t}
			at = 1
		}
		b, _ := asc(randStyle(r), solids, at, r.Intn(n), how)
		m, err := read("m.stl", b)
		refused("token", m, err, fmt.Sprintf("kind %d: %s", how, describe(b)))
	case k < 19: // no files
		switch r.Intn(4) {
		case 0:
			m, err := rd.Read(filepath.Join(c.Dir(), "does-not-exist.stl"))
			refused("missing", m, err, "")
		case 1:
			m, err := rd.Read(c.Dir())
			refused("directory", m, err, "")
		case 2:
			m, err := read("m.stl", nil)
			refused("empty", m, err, "")
		case 3:
			if r.Intn(2) == 0 {
				m, err := read("m.stl", bin(nil))
				refused("no_triangle", m, err, "binary")
			} else {
				b, _ := asc(randStyle(r), [][][3][3]stlNum{nil}, -1, 0, 0)
				m, err := read("m.stl", b)
				refused("no_triangle", m, err, "ascii")
			}
		}
	default: // garbage
		var b []byte
		switch r.Intn(3) {
		case 0:
			b = make([]byte, 1+r.Intn(500))
			r.Read(b)
		case 1:
			words := []string{"solid ", "facet ", "normal ", "outer ", "loop ", "vertex ", "1 ", "endloop ", "endfacet ", "\n", "v 1 2 3\n", "f 1 2 3\n", "<xml>", "PK\x03\x04"}
			for q := r.Intn(200); q >= 0; q-- {
				b = append(b, words[r.Intn(len(words))]...)
			}
		default:
			b = append([]byte("solid x\n"), bin(rndTris(n))[84:]...)
		}
		m, err := read("m.stl", b)
		refused("garbage", m, err, describe(b))
	}
}
