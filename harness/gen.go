package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// Prof is a mix of starts and operations
type Prof struct {
	start map[string]int
	ops   map[string]int
	burst int // percent: repeat an operation many times
	end   []string
}

func mix(base map[string]int, more map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range base {
		m[k] = v
	}
	for k, v := range more {
		m[k] = v
	}
	return m
}

var baseOps = map[string]int{"par": 6, "cellpar": 3, "text": 8, "tab": 2, "brk": 2, "link": 4, "pic": 4, "shape": 2, "table": 2, "twips": 2,
	"page": 1, "set": 6, "poke": 1, "scribble": 1, "keep": 1, "drop": 1, "merge": 2, "string": 2, "refer": 1, "referid": 1, "range": 1,
	"media": 1, "incid": 1, "split": 1, "append": 2, "save": 1, "reload": 2, "insert": 1, "theme": 1, "tmpl": 1}
var baseStart = map[string]int{"new": 4, "themed": 4, "foreign": 4, "load": 2, "tmpl": 1}

var profs = map[string]*Prof{
	"C01": {start: mix(baseStart, map[string]int{"load": 10}), ops: mix(baseOps, map[string]int{"insert": 10, "reload": 5, "set": 8}), end: []string{"reload"}},
	"C02": {start: map[string]int{"foreign": 1}, ops: map[string]int{"string": 2, "save": 1, "reload": 2, "foreign": 1, "text": 1}},
	"C03": {start: mix(baseStart, map[string]int{"themed": 8, "foreign": 8}), ops: mix(baseOps, map[string]int{"save": 6, "pic": 8, "split": 3, "append": 4, "link": 6}), end: []string{"save"}},
	"C04": {start: baseStart, ops: mix(baseOps, map[string]int{"link": 12, "refer": 5, "referid": 5, "range": 3, "split": 3, "append": 4, "reload": 4, "pic": 6}), burst: 4},
	"C05": {start: mix(baseStart, map[string]int{"foreign": 8}), ops: mix(baseOps, map[string]int{"pic": 14, "media": 5, "split": 3, "append": 5, "reload": 5}), burst: 3},
	"C06": {start: map[string]int{"foreign": 6, "tmpl": 4, "themed": 3}, ops: mix(baseOps, map[string]int{"save": 4, "reload": 4, "split": 4, "append": 3, "pic": 6, "tmpl": 2}), end: []string{"save"}},
	"C07": {start: mix(baseStart, map[string]int{"foreign": 8}), ops: mix(baseOps, map[string]int{"split": 12, "pic": 6, "link": 6, "text": 12, "par": 10, "insert": 0}), end: []string{"split", "reload"}},
	"C08": {start: mix(baseStart, map[string]int{"foreign": 8}), ops: mix(baseOps, map[string]int{"append": 16, "pic": 6, "link": 6, "shape": 4}), end: []string{"append"}},
	"C09": {start: mix(baseStart, map[string]int{"foreign": 8}), ops: mix(baseOps, map[string]int{"scribble": 10, "poke": 8, "split": 4, "append": 6, "save": 3, "reload": 4, "twin": 3, "loadtwin": 3, "set": 8, "merge": 3})},
	"C10": {start: mix(baseStart, map[string]int{"foreign": 6, "load": 6}), ops: mix(baseOps, map[string]int{"merge": 25, "text": 20, "set": 12, "twinset": 10, "insert": 4}), end: []string{"merge"}},
	"C11": {start: mix(baseStart, map[string]int{"foreign": 8, "load": 8}), ops: mix(baseOps, map[string]int{"keep": 8, "drop": 12, "pic": 6, "shape": 8, "insert": 8}), end: []string{"drop"}},
	"C12": {start: mix(baseStart, map[string]int{"foreign": 6}), ops: mix(baseOps, map[string]int{"text": 16, "tab": 4, "string": 16, "link": 6, "pic": 4, "split": 2}), end: []string{"string"}},
	"C14": {start: map[string]int{"wild": 1}, ops: mix(baseOps, map[string]int{"wild": 3, "string": 6, "append": 5, "split": 5, "merge": 5, "drop": 5, "keep": 2, "set": 8, "reload": 4, "save": 4, "new": 1})},
	"C15": {start: baseStart, ops: mix(baseOps, map[string]int{"incid": 8})},
	"C16": {start: baseStart, ops: mix(baseOps, map[string]int{"table": 10, "twips": 10, "cellpar": 10, "set": 10, "text": 10, "poke": 4})},
	"C17": {start: mix(baseStart, map[string]int{"foreign": 8, "load": 6}), ops: mix(baseOps, map[string]int{"set": 60, "text": 10, "table": 3, "append": 3, "split": 2, "insert": 3})},
	"C18": {start: mix(baseStart, map[string]int{"foreign": 10}), ops: mix(baseOps, map[string]int{"pic": 12, "shape": 10, "link": 8, "incid": 6, "append": 6, "split": 3, "reload": 4}), burst: 4},
	"C19": {start: mix(baseStart, map[string]int{"foreign": 6, "load": 6}), ops: mix(baseOps, map[string]int{"pic": 20, "badpic": 6, "shape": 16, "size": 20, "poke": 3})},
	"C20": {start: mix(baseStart, map[string]int{"foreign": 8, "load": 4}), ops: mix(baseOps, map[string]int{"page": 8, "par": 12, "brk": 8, "tab": 8, "cellpar": 8, "media": 4, "load": 2, "loadtwin": 2})},
	"ALL": {start: baseStart, ops: baseOps, burst: 1},
}

func pickW(r *rand.Rand, m map[string]int) string {
	t := 0
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		t += m[k]
	}
	x := r.Intn(t)
	for _, k := range ks {
		if x -= m[k]; x < 0 {
			return k
		}
	}
	return ks[0]
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

var linkPool = []string{"https://example.com", "http://a.b/c?d=e&f=g", "mailto:x@y", "#frag", "", "media/image1.png", "https://例え.jp/", "file:///c:\\x", "rId1", "https://example.com/2", "<>&\"'", " spaced ", "styles.xml"}

func (w *World) genLink() string {
	r := w.r
	if r.Intn(3) == 0 {
		return fmt.Sprintf("https://host/%d", r.Intn(50))
	}
	return linkPool[r.Intn(len(linkPool))]
}

func genName(r *rand.Rand) string {
	return []string{"Shape", "shape x", "", "矩形", "Rect & Co", "AutoShape", "shape", "SHAPE", "Shape 1", "Shape ", "图片x"}[r.Intn(11)]
}

func genALine(r *rand.Rand) *docx.ALine {
	if r.Intn(3) == 0 {
		return nil
	}
	g := &GenOpt{p: 50, width: 2, budget: 20}
	return build(genNode(r, "ALine", g, 3), r).Interface().(*docx.ALine)
}

// genColors makes the colors of borders, or takes ones used before
func (w *World) genColors() *docx.APITableBorderColors {
	r := w.r
	if n := len(w.colors); n > 0 && r.Intn(2) == 0 {
		return w.colors[r.Intn(n)]
	}
	c := func() string {
		return []string{"", "#ff0000", "auto", "00FF00", "#000000"}[r.Intn(5)]
	}
	if r.Intn(3) == 0 {
		return nil
	}
	x := &docx.APITableBorderColors{Top: c(), Left: c(), Bottom: c(), Right: c(), InsideH: c(), InsideV: c()}
	w.colors = append(w.colors, x)
	return x
}

func gen64(r *rand.Rand) int64 {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return -int64(r.Intn(1000)) - 1
	case 2:
		return 1 << 40
	default:
		return int64(r.Intn(100000))
	}
}

func gen64s(r *rand.Rand, n int) []int64 {
	s := make([]int64, n)
	for i := range s {
		if i > 0 && r.Intn(2) == 0 {
			s[i] = s[i-1]
		} else {
			s[i] = gen64(r)
		}
	}
	return s
}

var setterArgs = map[string][]string{
	"Run.Color": {"s"}, "Run.Size": {"s"}, "Run.SizeCs": {"s"}, "Run.Shade": {"s", "s", "s"}, "Run.Spacing": {"i"}, "Run.Bold": {}, "Run.Italic": {},
	"Run.Underline": {"s"}, "Run.Highlight": {"s"}, "Run.Strike": {"b"}, "Run.Font": {"s", "s", "s", "s"}, "Run.AddTab": {},
	"Par.Justification": {"s"}, "Par.Style": {"s"}, "Par.NumPr": {"s", "s"}, "Par.NumFont": {"s", "s", "s", "s"}, "Par.NumSize": {"s"},
	"Table.Justification": {"s"}, "Row.Justification": {"s"}, "Cell.Shade": {"s", "s", "s"}, "Inline.Size": {"n", "n"}, "Anchor.Size": {"n", "n"}}
var setterTypes = map[string]string{"Run": "Run", "Par": "Paragraph", "Table": "Table", "Row": "WTableRow", "Cell": "WTableCell", "Inline": "WPInline", "Anchor": "WPAnchor"}

func genArgs(r *rand.Rand, op string) []string {
	x := []string{}
	for _, k := range setterArgs[op] {
		switch k {
		case "s":
			if r.Intn(5) == 0 {
				x = append(x, "")
			} else {
				x = append(x, genAttr(r))
			}
		case "i":
			x = append(x, fmt.Sprint(r.Intn(2000)-200))
		case "n":
			x = append(x, fmt.Sprint(gen64(r)))
		case "b":
			x = append(x, fmt.Sprint(r.Intn(2) == 0))
		}
	}
	return x
}

var setterNames = func() []string {
	var s []string
	for k := range setterArgs {
		s = append(s, k)
	}
	sortStrings(s)
	return s
}()

var splitRes = func() (rs []*regexp.Regexp) {
	for _, s := range []string{"e|中|x", "^$", "x*", "^a", "", "^[^e]*$", "\\]\\(", "(?m)^H", "\n", "\t$", "(?i)h", "^ | $"} {
		rs = append(rs, regexp.MustCompile(s))
	}
	return
}()

const (
	maxDocs  = 6
	maxItems = 40
)

// size limits keep the traces small
func (w *World) big(d string) bool {
	s := 0
	if w.wild[d] {
		w.walkDoc(d, func(_ []interface{}, _ reflect.Value) { s++ })
		return s > 1500
	}
	f := 1
	if w.bulk {
		f = 8
	}
	if l := w.last[d]; l != nil {
		for _, it := range l.items {
			s += len(it)
		}
		if len(l.items) > maxItems*f {
			return true
		}
	}
	return s > 60000*f
}

// noFile: elements inserted as structs are not bound to a document
func (w *World) canRef(d string) bool { return !w.raw[d] }

// step performs one random operation; false if it was not possible
func (w *World) step(op string) bool {
	r := w.r
	if len(w.names) == 0 {
		return false
	}
	d := w.names[r.Intn(len(w.names))]
	par := func() *target { return w.pick(d, "Paragraph") }
	grow := !w.big(d)
	switch op {
	case "new":
		if len(w.docs) >= maxDocs {
			return false
		}
		w.New()
	case "par":
		if !grow {
			return false
		}
		w.AddParagraph(d)
	case "cellpar":
		t := w.pick(d, "WTableCell")
		if t == nil || !grow {
			return false
		}
		w.CellAddParagraph(d, t)
	case "text":
		t := par()
		if t == nil || !grow {
			return false
		}
		w.AddText(d, t, genAddText(r))
	case "tab":
		t := par()
		if t == nil || !grow {
			return false
		}
		w.AddTab(d, t)
	case "brk":
		t := par()
		if t == nil || !grow {
			return false
		}
		w.AddPageBreaks(d, t)
	case "link":
		t := par()
		if t == nil || !grow || !w.canRef(d) {
			return false
		}
		w.AddLink(d, t, strings.TrimSpace(genText(r)), w.genLink())
	case "pic", "badpic":
		t := par()
		if t == nil || !grow || !w.canRef(d) {
			return false
		}
		im := genImg(r)
		if op == "badpic" || r.Intn(15) == 0 {
			im = badImg(r)
		}
		w.AddPic(d, t, []string{"Inline", "Anchor"}[r.Intn(2)], im)
	case "shape":
		t := par()
		if t == nil || !grow || !w.canRef(d) {
			return false
		}
		w.AddShape(d, t, []string{"Inline", "Anchor"}[r.Intn(2)], gen64(r), gen64(r), genName(r), genAttr(r), genAttr(r), genALine(r))
	case "table":
		if !grow {
			return false
		}
		w.AddTable(d, r.Intn(4), r.Intn(4), gen64(r), w.genColors())
	case "twips":
		if !grow {
			return false
		}
		w.AddTableTwips(d, gen64s(r, r.Intn(4)), gen64s(r, r.Intn(4)), gen64(r), w.genColors())
	case "page":
		if !grow {
			return false
		}
		w.AddPage(d, []string{"A3", "A4"}[r.Intn(2)])
	case "set", "size":
		for i := 0; i < 6; i++ {
			s := setterNames[r.Intn(len(setterNames))]
			if i == 0 && r.Intn(3) == 0 {
				s = []string{"Table.Justification", "Row.Justification", "Cell.Shade"}[r.Intn(3)]
			}
			if op == "size" || r.Intn(6) == 0 {
				s = []string{"Inline.Size", "Anchor.Size"}[r.Intn(2)]
			}
			t := w.pick(d, setterTypes[s[:strings.IndexByte(s, '.')]])
			if t == nil || (s == "Run.AddTab" && !grow) {
				continue
			}
			x := genArgs(r, s)
			if strings.HasSuffix(s, ".Size") && s != "Run.Size" && r.Intn(2) == 0 { // as it is, more or less
				if e := t.v.FieldByName("Extent"); e.Kind() == reflect.Ptr && !e.IsNil() {
					x = []string{fmt.Sprint(e.Elem().FieldByName("CX").Int()), fmt.Sprint(e.Elem().FieldByName("CY").Int())}
					if k := r.Intn(4); k < 2 {
						x[k] = fmt.Sprint(gen64(r))
					}
				}
			}
			w.Set(d, t, s, x)
			if s != "Run.AddTab" {
				switch r.Intn(6) {
				case 0:
					w.Set(d, t, s, x)
				case 1, 2: // again, with less or other values
					for k := 1 + r.Intn(2); k > 0; k-- {
						y := genArgs(r, s)
						for i := range y {
							if s[:3] != "Inl" && s[:3] != "Anc" && s != "Run.Spacing" && s != "Run.Strike" && r.Intn(3) == 0 {
								y[i] = []string{"", x[i]}[r.Intn(2)]
							}
						}
						w.Set(d, t, s, y)
					}
				}
			}
			return true
		}
		return false
	case "twinset": // runs with almost the same properties
		t := par()
		for i := 0; t != nil && i < 4 && t.v.FieldByName("Children").Len() < 2; i++ {
			t = par()
		}
		if t == nil {
			return false
		}
		var rs []*target
		cs := t.v.FieldByName("Children")
		for i := 0; i < cs.Len(); i++ {
			if x, ok := cs.Index(i).Interface().(*docx.Run); ok {
				rs = append(rs, &target{append(append([]interface{}{}, t.path...), i+1), reflect.ValueOf(x).Elem()})
			}
		}
		if len(rs) < 2 {
			return false
		}
		i := r.Intn(len(rs) - 1)
		for k := 1 + r.Intn(3); k > 0; k-- {
			s := []string{"Run.Color", "Run.Size", "Run.SizeCs", "Run.Shade", "Run.Shade", "Run.Spacing", "Run.Bold", "Run.Underline", "Run.Highlight", "Run.Strike", "Run.Font", "Run.Font"}[r.Intn(12)]
			x := genArgs(r, s)
			w.Set(d, rs[i], s, x)
			y := append([]string{}, x...)
			if len(y) > 0 && r.Intn(3) == 0 {
				z := genArgs(r, s)
				j := r.Intn(len(y))
				y[j] = z[j]
			}
			w.Set(d, rs[i+1], s, y)
		}
		if r.Intn(2) == 0 {
			w.Merge(d, t, "same", []string{}, false)
		}
	case "poke":
		w.Poke(d)
	case "scribble":
		w.Scribble(d)
	case "keep":
		types := []string{"Paragraph", "Table", "SectPr"}
		var t *target
		switch r.Intn(3) {
		case 1:
			t, types = par(), []string{"Run", "Hyperlink", "RunProperties"}
			if t == nil {
				return false
			}
		case 2:
			t, types = w.pick(d, "Run"), []string{"Text", "Tab", "BarterRabbet", "Drawing"}
			if t == nil {
				return false
			}
		default:
			if r.Intn(3) != 0 {
				return false // rarely: it removes much
			}
		}
		x := []string{}
		for _, k := range append(types, "Other", "Hyperlink") {
			if r.Intn(2) == 0 {
				x = append(x, k)
			}
		}
		w.Keep(d, t, x)
	case "drop":
		kinds := []string{"Shape", "Canvas", "Group", "ShapeAndCanvas", "ShapeAndCanvasAndGroup", "NilPicture"}
		if r.Intn(2) == 0 {
			kinds = append(kinds, "Nothing", "", "shape")
			w.Drop(d, nil, kinds[r.Intn(len(kinds))])
		} else if t := par(); t != nil {
			w.Drop(d, t, kinds[r.Intn(len(kinds))])
		}
	case "merge":
		t := par()
		for i := 0; t != nil && i < 3 && t.v.FieldByName("Children").Len() < 2; i++ {
			t = par()
		}
		if t == nil {
			return false
		}
		k := []string{"all", "never", "same", "of", "bold"}[r.Intn(5)]
		f := []string{}
		if k == "of" {
			for _, n := range []string{"Fonts", "Bold", "ICs", "Italic", "Highlight", "Color", "Size", "SizeCs", "Spacing", "RunStyle", "Style", "Shade", "Kern", "Underline", "VertAlign", "Strike"} {
				if r.Intn(3) == 0 {
					f = append(f, n)
				}
			}
			if r.Intn(4) == 0 { // not the name of a property
				f = append(f, []string{"bold", "XMLName", "", "Colour", "Children"}[r.Intn(5)])
			}
		}
		w.Merge(d, t, k, f, r.Intn(2) == 0)
	case "string":
		t := w.pick(d, "Paragraph", "Paragraph", "Table")
		if t == nil {
			return false
		}
		w.String(d, t)
	case "refer", "referid":
		rs := relsOf(w.docs[d])
		if len(rs) == 0 || r.Intn(5) == 0 {
			if op == "refer" {
				w.ReferTarget(d, []string{"rId9999", "", "x", "rid1"}[r.Intn(4)])
			} else {
				w.ReferID(d, []string{"nowhere", "", "https://example.com"}[r.Intn(3)])
			}
			break
		}
		x := rs[r.Intn(len(rs))]
		if op == "refer" {
			w.ReferTarget(d, x.ID)
		} else {
			w.ReferID(d, x.Target)
		}
	case "range":
		n := len(relsOf(w.docs[d]))
		w.RangeRels(d, r.Intn(n+2))
	case "media":
		ms := []string{"image1.png", "", "nothing.png", "media/image1.png"}
		for k := range w.known[d] {
			ms = append(ms, k)
		}
		sortStrings(ms)
		w.Media(d, ms[r.Intn(len(ms))])
	case "incid":
		w.IncreaseID(d, []string{"a", "b", picName, "Shape", "", "A", "shape", "a ", " a", "a/b", "\u00e4", "a\u0308"}[r.Intn(12)])
	case "split":
		if len(w.docs) >= maxDocs-1 || (w.last[d] != nil && len(w.last[d].items) == 0) {
			return false
		}
		w.RandSplit(d)
	case "append":
		src := w.names[r.Intn(len(w.names))]
		if w.big(d) || w.big(src) {
			return false
		}
		w.Append(d, src)
	case "save":
		w.Save(d, false)
	case "reload":
		if len(w.docs) >= maxDocs {
			w.Save(d, false)
		} else {
			w.Save(d, true)
		}
	case "insert":
		if !grow {
			return false
		}
		g := &GenOpt{p: []int{10, 30, 60}[r.Intn(3)], width: 3, budget: 60}
		w.Insert(d, genNode(r, []string{"Paragraph", "Paragraph", "Paragraph", "Table", "SectPr"}[r.Intn(5)], g, 0))
	case "theme":
		if !w.tmpl[d] {
			w.Theme(d)
		}
	case "tmpl":
		if !w.tmpl[d] {
			w.Template(d)
		}
	case "load", "foreign", "wild":
		if len(w.docs) >= maxDocs {
			return false
		}
		w.begin(op)
	case "bulk":
		w.Parse(bulkPkg(r), false)
	case "many":
		if !grow {
			return false
		}
		return w.many(d)
	case "loadtwin": // documents loaded from parts of the same slices
		if len(w.docs) >= maxDocs-1 {
			return false
		}
		w.LoadTwin()
	case "twin": // the same package parsed twice
		if len(w.docs) >= maxDocs-1 {
			return false
		}
		pk := foreignPkg(r)
		w.Parse(pk, false)
		w.Parse(pk, false)
	default:
		panic("no operation " + op)
	}
	return true
}

// step2 makes a document with long lists
func (w *World) step2(parsed bool) {
	if parsed {
		w.Parse(bulkPkg(w.r), false)
		return
	}
	d := w.New()
	w.Theme(d)
	w.many(d)
}

// many makes the same kind of call many times
func (w *World) many(d string) bool {
	r := w.r
	n := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 70}[r.Intn(11)]
	if w.raw[d] {
		return false
	}
	if w.pick(d, "Paragraph") == nil {
		w.AddParagraph(d)
	}
	t := w.pick(d, "Paragraph")
	if w.dead || t == nil {
		return false
	}
	k := r.Intn(9)
	im := genImg(r)
	c := w.pick(d, "WTableCell")
	for i := 0; i < n && !w.dead; i++ {
		switch k {
		case 0, 1:
			w.AddText(d, t, fmt.Sprint("t", i))
			if i == 0 && r.Intn(2) == 0 {
				if u := w.pick(d, "Run"); u != nil {
					w.Set(d, u, "Run.Bold", []string{})
				}
			}
		case 2:
			w.AddText(d, t, strings.Repeat("a\n", n))
			return true
		case 3:
			if i%16 == 0 {
				w.AddParagraph(d)
				t = w.pickLast(d, "Paragraph")
			}
			w.AddLink(d, t, "l", fmt.Sprint("https://many/", i%(n-1)))
		case 4, 5:
			if i%4 == 0 {
				w.AddParagraph(d)
				t = w.pickLast(d, "Paragraph")
			}
			if k == 4 || i%2 == 0 {
				im = genImg(r)
			}
			w.AddPic(d, t, []string{"Inline", "Anchor"}[r.Intn(2)], im)
		case 6:
			if i%8 == 0 {
				w.AddParagraph(d)
				t = w.pickLast(d, "Paragraph")
			}
			w.AddShape(d, t, "Inline", 5, 6, "Shape", "auto", "rect", nil)
		case 7:
			if c == nil {
				w.AddTable(d, n, 1, 0, nil)
				return true
			}
			w.CellAddParagraph(d, c)
		case 8:
			w.AddParagraph(d)
		}
	}
	return true
}

func (w *World) pickLast(d, typ string) *target {
	var t *target
	w.walkDoc(d, func(p []interface{}, v reflect.Value) {
		if v.Type().Name() == typ && len(p) == 1 {
			t = &target{p, v}
		}
	})
	return t
}

// genMedia makes media of all kinds of names and contents
func genMedia(r *rand.Rand) []docx.Media {
	ms := make([]docx.Media, 0, r.Intn(6))
	used := map[string]bool{}
	for i := r.Intn(4); i > 0; i-- {
		im := genImg(r)
		data := im.data
		switch r.Intn(5) {
		case 0:
			data = []byte{}
		case 1:
			data = nil
		case 2:
			data = []byte("x")
		}
		name := fmt.Sprintf("image%d.%s", i, im.ext)
		switch r.Intn(6) {
		case 0:
			name = "sub/" + name
		case 1:
			name = []string{"a.png", "b", "image1.png", "image10.png", "x y.gif", "IMAGE1.PNG.bin"}[r.Intn(6)]
		case 2:
			name = fmt.Sprintf("image%d.%s", 1+r.Intn(3), im.ext)
		}
		if used[strings.ToLower(name)] {
			continue
		}
		used[strings.ToLower(name)] = true
		ms = append(ms, docx.Media{Name: name, Data: data})
	}
	return ms
}

// RandSplit splits by a random rule
func (w *World) RandSplit(d string) {
	r := w.r
	k := 1 + r.Intn(4)
	mode := r.Intn(8)
	bits := r.Int63()
	max := maxDocs - len(w.docs) + 2 // bound the number of pieces
	if mode >= 6 {
		re := splitRes[r.Intn(len(splitRes))]
		if seps, ok := w.regexSeps(d, re); ok {
			k := 0
			for _, s := range seps {
				if s {
					k++
				}
			}
			if k <= max {
				w.splitBy(d, seps, docx.SplitDocxByPlainTextRegex(re))
				return
			}
		}
		mode = 3
	}
	n := 0
	w.Split(d, func(i int, p *docx.Paragraph) bool {
		ok := false
		switch mode {
		case 0:
			ok = true
		case 1:
			ok = i%k == 0
		case 2:
			ok = false
		case 3:
			ok = docx.SplitDocxByPlainTextRegex(splitRes[0])(p)
		case 4:
			ok = len(p.Children) > 0
		default:
			ok = bits>>(uint(i)%60)&1 == 1
		}
		if ok && n < max {
			n++
			return true
		}
		return false
	})
}

// begin makes a first document
func (w *World) begin(kind string) {
	r := w.r
	switch kind {
	case "new":
		w.New()
	case "themed":
		d := w.New()
		w.Theme(d)
	case "tmpl":
		d := w.New()
		w.Template(d)
	case "load":
		g := &GenOpt{p: []int{5, 15, 30, 60, 90}[r.Intn(5)], width: 1 + r.Intn(4), budget: 100}
		var items []*Node
		for i := r.Intn(4); i >= 0; i-- {
			items = append(items, genNode(r, []string{"Paragraph", "Paragraph", "Paragraph", "Table", "SectPr"}[r.Intn(5)], g, 0))
		}
		w.Load(items, genMedia(r))
	case "foreign":
		w.Parse(foreignPkg(r), false)
	case "wild":
		if w.Parse(wildPkg(r), true) == "" && len(w.docs) == 0 && !w.dead {
			w.begin("wild2")
		}
	case "wild2":
		w.Parse(oddPkg(r), true)
	}
}

// history runs a random history
func history(r *rand.Rand, p *Prof, n int, cur func(string)) *World {
	w := newWorld(r)
	w.cur = cur
	ops := p.ops
	if p.start["wild"] == 0 && r.Intn(30) == 0 { // long lists
		w.bulk = true
		if w.step2(r.Intn(2) == 0); n > 8 {
			n = 2 + r.Intn(7)
		}
		ops = mix(ops, map[string]int{"reload": 2, "string": 2, "split": 2, "append": 2, "merge": 2, "drop": 1, "keep": 1, "foreign": 0})
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		w.begin(pickW(r, p.start))
	}
	for i := 0; i < n && !w.dead; i++ {
		op := pickW(r, ops)
		ok := w.step(op)
		if !ok && r.Intn(2) == 0 {
			w.step("par")
		}
		if r.Intn(1000) < p.burst*10 && (op == "link" || op == "pic" || op == "shape" || op == "incid") {
			for j := 5 + r.Intn(20); j > 0; j-- {
				w.step(op)
			}
		}
	}
	for _, op := range p.end {
		w.step(op)
	}
	return w
}
