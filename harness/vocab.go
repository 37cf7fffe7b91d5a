package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// VType is one element type of the vocabulary of the specification
type VType struct {
	A   [][]string `json:"a"`
	K   [][]string `json:"k"`
	L   [][]string `json:"l"`
	Txt bool       `json:"txt"`
}

var vocab map[string]*VType

func loadVocab(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if err = json.Unmarshal(b, &vocab); err != nil {
		panic(err)
	}
}

// ---- random values --------------------------------------------------------------

var words = []string{"a", "b", "Hello", "world", "x y", " lead", "trail ", "&", "<b>", "\"q\"", "'", "]]>", "中文", "é", "😀", " ", "　", "1", "0", "-", "\\", "%", "&amp;", "]]", "--"}

func genText(r *rand.Rand) string {
	switch r.Intn(30) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("long text ", 30+r.Intn(200))
	case 2:
		return " "
	case 3:
		return strconv.Itoa(r.Intn(100000))
	}
	var sb strings.Builder
	for i := 1 + r.Intn(4); i > 0; i-- {
		sb.WriteString(words[r.Intn(len(words))])
	}
	return sb.String()
}

// genAddText is a text with control characters
func genAddText(r *rand.Rand) string {
	var sb strings.Builder
	for i := r.Intn(7); i > 0; i-- {
		switch r.Intn(8) {
		case 0, 1:
			sb.WriteString("\n")
		case 2, 3:
			sb.WriteString("\t")
		case 4:
			sb.WriteString(" ")
		case 5:
			if r.Intn(4) == 0 {
				sb.WriteString("\r")
			}
		default:
			sb.WriteString(genText(r))
		}
	}
	return sb.String()
}

func genInt(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return "0"
	case 1:
		return strconv.Itoa(-1 - r.Intn(5000))
	case 2:
		return "2147483647"
	case 3:
		return strconv.Itoa(r.Intn(100000000))
	default:
		return strconv.Itoa(r.Intn(3000))
	}
}

var attrWords = []string{"auto", "center", "left", "both", "single", "none", "rect", "4472C4", "clear", "page", "dxa", "eastAsia", "Times New Roman", "宋体", "true", "false", "off", "x & y", "a<b", "q\"q", "1", "0", "ellipse", "roundRect", "baseline"}

func genAttr(r *rand.Rand) string {
	if r.Intn(6) == 0 {
		s := genText(r)
		if len(s) < 100 {
			return s
		}
	}
	return attrWords[r.Intn(len(attrWords))]
}

// GenOpt steers the generation of element trees
type GenOpt struct {
	p       int // percent of attributes and optional children
	width   int
	links   []string // relationship ids for hyperlinks
	images  []string // relationship ids for pictures
	budget  int
	foreign bool
	wide    string // a list of this type gets wideN children
	wideN   int
	draw    bool // more drawings
}

func normInt(s string) string {
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil || i == 0 {
		return ""
	}
	return strconv.FormatInt(i, 10)
}

// genNode makes a random element of a type
func genNode(r *rand.Rand, t string, g *GenOpt, depth int) *Node {
	n := newNode(t)
	v := vocab[t]
	if v == nil {
		panic("no type " + t)
	}
	g.budget--
	for _, a := range v.A {
		if r.Intn(100) >= g.p {
			continue
		}
		var s string
		switch a[2] {
		case "i":
			s = normInt(genInt(r))
		case "b", "b1":
			if r.Intn(2) == 0 {
				s = "1"
			}
		default:
			s = genAttr(r)
		}
		if s != "" {
			n.A[a[1]] = s
		}
	}
	opt := func() bool { return r.Intn(100) < g.p && (depth < 14 && g.budget > 0) }
	if t == "AGraphicData" {
		// one content, as a rule
		if r.Intn(10) != 0 && depth < 14 && g.budget > 0 {
			k := v.K[r.Intn(len(v.K))]
			n.O[k[1]] = genNode(r, k[2], g, depth+1)
		}
	} else if t == "Drawing" {
		k := v.K[r.Intn(2)]
		if r.Intn(20) != 0 {
			n.O[k[1]] = genNode(r, k[2], g, depth+1)
		}
	} else {
		for _, k := range v.K {
			switch k[3] {
			case "v":
				n.O[k[1]] = genNode(r, k[2], g, depth+1)
			case "o", "oa":
				if opt() || (g.budget > 0 && (k[1] == "Graphic" || k[1] == "GraphicData" || k[1] == "BlipFill") && r.Intn(8) != 0) {
					n.O[k[1]] = genNode(r, k[2], g, depth+1)
				}
			case "f", "fo":
				if opt() {
					n.O[k[1]] = newNode("Flag")
				}
			case "s":
				if t == "Run" && r.Intn(4) != 0 {
					break
				}
				if opt() {
					if s := strings.TrimSpace(genText(r)); s != "" {
						n.A[k[1]] = s
					}
				}
			case "n":
				if opt() {
					if s := normInt(genInt(r)); s != "" {
						n.A[k[1]] = s
					}
				}
			}
		}
	}
	if v.Txt {
		if s := genText(r); s != "" {
			n.A["Text"] = s
		}
	}
	if len(v.L) > 0 && t == g.wide && g.wideN > 0 {
		k := g.wideN
		g.wideN = 0
		one := r.Intn(len(v.L))
		if r.Intn(3) == 0 {
			one = -1
		}
		c := &GenOpt{p: []int{3, 10}[r.Intn(2)], width: 2, links: g.links, images: g.images, foreign: g.foreign}
		for ; k > 0; k-- {
			l := v.L[(len(v.L)+one)%len(v.L)]
			if one < 0 || r.Intn(20) == 0 {
				l = v.L[r.Intn(len(v.L))]
			}
			c.budget = 3 + r.Intn(4)
			n.L = append(n.L, genNode(r, l[1], c, depth+1))
		}
	}
	if len(v.L) > 0 && depth < 14 {
		for i := r.Intn(g.width + 1); i > 0 && g.budget > 0; i-- {
			l := v.L[r.Intn(len(v.L))]
			if l[1] == "RunProperties" && r.Intn(4) != 0 {
				l = []string{"w:r", "Run"}
			}
			if l[1] == "Drawing" && !g.draw && (r.Intn(3) != 0 || depth > 6) {
				l = []string{"w:t", "Text"}
			}
			if k := len(n.L); l[1] == "Run" && k > 0 && n.L[k-1].T == "Run" && r.Intn(3) == 0 { // almost like the one before
				if p := n.L[k-1].O["RunProperties"]; p != nil {
					c := genNode(r, "Run", g, depth+1)
					c.O["RunProperties"] = almost(r, p)
					n.L = append(n.L, c)
					continue
				}
			}
			n.L = append(n.L, genNode(r, l[1], g, depth+1))
		}
	}
	switch t {
	case "Hyperlink":
		delete(n.A, "ID")
		if len(g.links) > 0 && r.Intn(5) != 0 {
			n.A["ID"] = g.links[r.Intn(len(g.links))]
		} else if r.Intn(3) == 0 {
			n.A["ID"] = "rId990" + strconv.Itoa(r.Intn(3))
		}
		if n.A["ID"] == "" && n.A["Anchor"] != "" {
			n.A["ID"] = n.A["Anchor"]
		}
	case "ABlip":
		delete(n.A, "Embed")
		if len(g.images) > 0 && r.Intn(6) != 0 {
			n.A["Embed"] = g.images[r.Intn(len(g.images))]
		} else if !g.foreign && r.Intn(3) == 0 {
			n.A["Embed"] = "rId980" + strconv.Itoa(r.Intn(3))
		}
	}
	return n
}

// boundary is a length of interest
func boundary(r *rand.Rand) int {
	return []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257}[r.Intn(21)]
}

var wideTypes = []string{"Body", "Body", "Paragraph", "Paragraph", "Paragraph", "Tabs", "Run", "Run", "WTextBoxContent", "WordprocessingCanvas", "WordprocessingGroup",
	"WPGGroupShape", "Table", "WTableGrid", "WTableRow", "WTableCell"}

// wideItem is an item of the body with a long list of a type in it
func wideItem(r *rand.Rand, t string, n int, g *GenOpt) *Node {
	// the shortest way from an item to the type
	type way struct {
		t    string
		prev *way
		kid  []string // of vocab K, nil for a child of the list
	}
	seen := map[string]bool{}
	var q []*way
	for _, i := range []string{"Paragraph", "Table"} {
		q = append(q, &way{t: i})
		seen[i] = true
	}
	var at *way
	for len(q) > 0 && at == nil {
		x := q[0]
		q = q[1:]
		if x.t == t {
			at = x
			break
		}
		v := vocab[x.t]
		for _, k := range v.K {
			if (k[3] == "o" || k[3] == "oa" || k[3] == "v") && !seen[k[2]] {
				seen[k[2]] = true
				q = append(q, &way{k[2], x, k})
			}
		}
		for _, l := range v.L {
			if !seen[l[1]] {
				seen[l[1]] = true
				q = append(q, &way{l[1], x, nil})
			}
		}
	}
	c := *g
	c.p, c.width, c.budget, c.wide, c.wideN = 10, 1, 20, t, n
	x := genNode(r, t, &c, 5)
	c.wideN = 0
	for ; at.prev != nil; at = at.prev {
		c.budget = 6
		p := genNode(r, at.prev.t, &c, 6)
		if at.kid != nil {
			p.O[at.kid[1]] = x
		} else {
			p.L = append(p.L, x)
		}
		x = p
	}
	return x
}

// ---- struct from a node ----------------------------------------------------------

var types = map[string]reflect.Type{}

// almost is a copy of a tree with at most one value changed
func almost(r *rand.Rand, n *Node) *Node {
	type leaf struct {
		n *Node
		k string
	}
	var ls []leaf
	var cp func(n *Node) *Node
	cp = func(n *Node) *Node {
		m := newNode(n.T)
		ks := make([]string, 0, len(n.O))
		for k := range n.O {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			m.O[k] = cp(n.O[k])
		}
		for _, k := range sortedKeys(n.A) {
			m.A[k] = n.A[k]
			ls = append(ls, leaf{m, k})
		}
		for _, c := range n.L {
			m.L = append(m.L, cp(c))
		}
		return m
	}
	m := cp(n)
	if len(ls) > 0 && r.Intn(4) != 0 {
		l := ls[r.Intn(len(ls))]
		kind := ""
		if v := vocab[l.n.T]; v != nil {
			for _, a := range v.A {
				if a[1] == l.k {
					kind = a[2]
				}
			}
		}
		if r.Intn(3) == 0 || strings.HasPrefix(kind, "b") {
			delete(l.n.A, l.k)
		} else if v := l.n.A[l.k]; v == normInt(v) && v != "" {
			l.n.A[l.k] = v + "1"
		} else {
			l.n.A[l.k] = v + "x"
		}
		if v := l.n.A[l.k]; len(v) > 9 && v == normInt(v) {
			l.n.A[l.k] = "1"
		}
	}
	return m
}

func init() {
	var add func(t reflect.Type)
	add = func(t reflect.Type) {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice:
			add(t.Elem())
		case reflect.Struct:
			if t.Name() == "" || t.Name() == "Docx" || t.PkgPath() != reflect.TypeOf(docx.Text{}).PkgPath() {
				return
			}
			if _, ok := types[t.Name()]; ok {
				return
			}
			types[t.Name()] = t
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).PkgPath == "" {
					add(t.Field(i).Type)
				}
			}
		}
	}
	for _, x := range []interface{}{docx.Paragraph{}, docx.Table{}, docx.SectPr{}, docx.Hyperlink{}, docx.Run{}, docx.RunProperties{},
		docx.Text{}, docx.Drawing{}, docx.Tab{}, docx.BarterRabbet{}, docx.WordprocessingShape{}, docx.Picture{},
		docx.WordprocessingGroup{}, docx.WordprocessingCanvas{}, docx.WPGGroupShape{}} {
		add(reflect.TypeOf(x))
	}
}

func fill(v reflect.Value, n *Node, r *rand.Rand) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		fv := v.Field(i)
		switch f.Name {
		case "XMLName":
			continue
		case "XMLA":
			if r != nil && r.Intn(2) == 0 {
				fv.SetString(nsA)
			}
			continue
		case "XMLPIC":
			if r != nil && r.Intn(2) == 0 {
				fv.SetString(nsPIC)
			}
			continue
		}
		switch fv.Kind() {
		case reflect.String:
			fv.SetString(n.A[f.Name])
		case reflect.Int, reflect.Int64, reflect.Int32:
			if s := n.A[f.Name]; s != "" {
				x, err := strconv.ParseInt(s, 10, 64)
				if err != nil {
					panic(err)
				}
				fv.SetInt(x)
			}
		case reflect.Bool:
			fv.SetBool(n.A[f.Name] != "")
		case reflect.Ptr:
			if c := n.O[f.Name]; c != nil {
				p := reflect.New(fv.Type().Elem())
				fill(p.Elem(), c, r)
				fv.Set(p)
			}
		case reflect.Struct:
			if c := n.O[f.Name]; c != nil {
				fill(fv, c, r)
			}
		case reflect.Slice:
			for _, c := range n.L {
				e := build(c, r)
				if k := fv.Type().Elem().Kind(); k == reflect.Struct {
					e = e.Elem()
				}
				fv.Set(reflect.Append(fv, e))
			}
		}
	}
}

// build makes a pointer to the struct of a node
func build(n *Node, r *rand.Rand) reflect.Value {
	t, ok := types[n.T]
	if !ok {
		panic("no struct type " + n.T)
	}
	p := reflect.New(t)
	fill(p.Elem(), n, r)
	return p
}

// ---- XML from a node ---------------------------------------------------------------

// XGen writes nodes as XML trees the way other producers might
type XGen struct {
	r       *rand.Rand
	foreign bool
}

func (x *XGen) attr(kind, v string) (string, bool) {
	r := x.r
	if !x.foreign {
		if v == "" && kind != "i" && kind != "b" && kind != "b1" {
			return "", false
		}
		if v == "" {
			v = "0"
		}
		return v, true
	}
	switch kind {
	case "i":
		if v == "" {
			if r.Intn(3) == 0 {
				return []string{"0", "00", "-0", "0.0"}[r.Intn(4)], true
			}
			return "", false
		}
		switch r.Intn(12) {
		case 0:
			if v[0] != '-' {
				return "00" + v, true
			}
		case 1:
			if v[0] != '-' {
				return "+" + v, true
			}
		case 2:
			return v + ".0", true
		case 3:
			return v + ".7", true
		}
		return v, true
	case "b":
		if v == "" {
			if r.Intn(2) == 0 {
				return []string{"0", "false", "off"}[r.Intn(3)], true
			}
			return "", false
		}
		return []string{"1", "true", "on"}[r.Intn(3)], true
	case "b1":
		if v == "" {
			return []string{"0", "false", "off"}[r.Intn(3)], true
		}
		if r.Intn(3) == 0 {
			return "", false
		}
		return []string{"1", "true", "on"}[r.Intn(3)], true
	}
	if v == "" {
		return "", false
	}
	return v, true
}

func (x *XGen) junkElem() *XNode {
	r := x.r
	known := []*XNode{{T: "w:r", C: []*XNode{{T: "w:t", C: []*XNode{{T: "#", X: "hidden"}}}}}, {T: "w:p"}, {T: "w:b"}, {T: "w:jc", A: map[string]string{"w:val": "right"}},
		{T: "w:tbl"}, {T: "a:ext", A: map[string]string{"cx": "7", "cy": "8"}}, {T: "w:rPr", C: []*XNode{{T: "w:b"}}}, {T: "w:drawing"}}
	n := &XNode{T: []string{"x1:thing", "w14:glow", "w:proofErr", "w:bookmarkStart", "w:bookmarkEnd", "w:lang", "x1:deep", "w:sdt", "w:ins", "w:permStart"}[r.Intn(10)], A: map[string]string{}}
	if r.Intn(2) == 0 {
		n.A["w:author"] = "me"
	}
	if r.Intn(2) == 0 {
		n.C = append(n.C, known[r.Intn(len(known))])
	} else if r.Intn(3) == 0 {
		n.C = append(n.C, &XNode{T: "#", X: "junk text"})
	}
	if r.Intn(4) == 0 {
		n = &XNode{T: "x1:wrap", C: []*XNode{n}}
	}
	return n
}

func (x *XGen) elem(tag string, n *Node) *XNode {
	r := x.r
	e := &XNode{T: tag, A: map[string]string{}}
	v := vocab[n.T]
	for _, a := range v.A {
		if n.T == "Hyperlink" && a[1] == "ID" && n.A["ID"] == n.A["Anchor"] && n.A["Anchor"] != "" {
			continue
		}
		if s, ok := x.attr(a[2], n.A[a[1]]); ok {
			e.A[a[0]] = s
		}
	}
	if x.foreign && r.Intn(8) == 0 {
		e.A[[]string{"x1:foo", "w:rsidR", "x1:bar", "w14:paraId"}[r.Intn(4)]] = "00AB12"
	}
	var ks []*XNode
	for _, k := range v.K {
		switch k[3] {
		case "s":
			if s := n.A[k[1]]; s != "" {
				ks = append(ks, &XNode{T: k[0], C: []*XNode{{T: "#", X: s}}})
			}
		case "n":
			if s := n.A[k[1]]; s != "" || r.Intn(3) == 0 {
				t, _ := x.attr("i", s)
				t = strings.TrimSuffix(strings.TrimSuffix(t, ".0"), ".7") // decimals are for attributes
				if t != "" {
					ks = append(ks, &XNode{T: k[0], C: []*XNode{{T: "#", X: t}}})
				}
			}
		default:
			c := n.O[k[1]]
			if c == nil {
				if k[3] == "fo" && x.foreign && r.Intn(6) == 0 {
					ks = append(ks, &XNode{T: k[0], A: map[string]string{"w:val": []string{"0", "false", "off"}[r.Intn(3)]}})
				}
				break
			}
			if k[3] == "v" && x.foreign && len(c.A) == 0 && len(c.O) == 0 && len(c.L) == 0 && r.Intn(2) == 0 {
				break // the same as not there
			}
			if c.T == "Flag" {
				f := &XNode{T: k[0], A: map[string]string{}}
				if k[3] == "fo" && x.foreign && r.Intn(2) == 0 {
					f.A["w:val"] = []string{"1", "true", "on"}[r.Intn(3)]
				}
				ks = append(ks, f)
				break
			}
			ks = append(ks, x.elem(k[0], c))
		}
	}
	var ls []*XNode
	for _, c := range n.L {
		tag := ""
		for _, l := range v.L {
			if l[1] == c.T {
				tag = l[0]
			}
		}
		ce := x.elem(tag, c)
		if x.foreign && n.T == "Run" && c.T == "Drawing" && r.Intn(2) == 0 {
			ce = x.alternate(ce)
		}
		ls = append(ls, ce)
	}
	if v.Txt && n.A["Text"] != "" {
		e.C = append(e.C, &XNode{T: "#", X: n.A["Text"]})
	}
	if x.foreign && n.T == "Hyperlink" && len(ks) == 1 && r.Intn(3) == 0 {
		// text spread over several runs
		run := ks[0]
		if len(run.C) >= 2 {
			k := 1 + r.Intn(len(run.C)-1)
			r2 := &XNode{T: run.T, C: run.C[k:]}
			run.C = run.C[:k:k]
			ks = append(ks, r2)
		}
		e.C = append(e.C, ks...)
	} else {
		if x.foreign && len(ks) > 1 && r.Intn(3) == 0 {
			r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		}
		e.C = append(e.C, ks...)
	}
	e.C = append(e.C, ls...)
	if x.foreign && !v.Txt {
		for r.Intn(7) == 0 {
			j := x.junkElem()
			i := r.Intn(len(e.C) + 1)
			e.C = append(e.C[:i:i], append([]*XNode{j}, e.C[i:]...)...)
		}
	}
	return e
}

// alternate wraps a drawing in mc:AlternateContent
func (x *XGen) alternate(d *XNode) *XNode {
	r := x.r
	choice := &XNode{T: "mc:Choice", A: map[string]string{"Requires": []string{"wps", "wpc", "wpg"}[r.Intn(3)]}, C: []*XNode{d}}
	fb := &XNode{T: "mc:Fallback", C: []*XNode{{T: "w:pict", C: []*XNode{{T: "x1:shape"}}}}}
	if r.Intn(4) == 0 {
		fb.C = []*XNode{{T: "w:t", C: []*XNode{{T: "#", X: "fallback"}}}}
	}
	ac := &XNode{T: "mc:AlternateContent"}
	if r.Intn(4) == 0 {
		ac.C = append(ac.C, &XNode{T: "mc:Choice", A: map[string]string{"Requires": "wp14"}, C: []*XNode{{T: "x1:new"}}})
	}
	ac.C = append(ac.C, choice)
	if r.Intn(3) != 0 {
		ac.C = append(ac.C, fb)
	}
	return ac
}

// docXML makes the document of a body
func (x *XGen) docXML(items []*Node) *XNode {
	body := &XNode{T: "w:body"}
	for _, it := range items {
		if x.foreign && x.r.Intn(8) == 0 {
			body.C = append(body.C, x.junkElem())
		}
		tag := map[string]string{"Paragraph": "w:p", "Table": "w:tbl", "SectPr": "w:sectPr"}[it.T]
		body.C = append(body.C, x.elem(tag, it))
	}
	root := &XNode{T: "w:document", A: map[string]string{}}
	if x.foreign && x.r.Intn(3) == 0 {
		root.C = append(root.C, &XNode{T: "w:background", A: map[string]string{"w:color": "FFFFFF"}})
	}
	root.C = append(root.C, body)
	if x.foreign && x.r.Intn(3) == 0 {
		root.A["mc:Ignorable"] = "w14"
	}
	return root
}

var _ = fmt.Sprint
