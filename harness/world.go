package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	docx "github.com/fumiama/go-docx"
)

const picName = "图片"

// snap is the last observed state of a document
type snap struct {
	items []string
	rels  string
	media string
}

// World is a set of documents under test and the record of what happened
type World struct {
	r      *rand.Rand
	docs   map[string]*docx.Docx
	names  []string // usable documents in order of creation
	last   map[string]*snap
	raw    map[string]bool            // has items whose owner is not set
	wild   map[string]bool            // from a damaged package
	tmpl   map[string]bool            // has a template
	known  map[string]map[string]bool // media names to look at
	saved  map[string][]byte          // last saved package
	ev     []string
	n      int
	dead   bool            // a call panicked or hangs: the trace ends
	hung   bool            // a call does not return
	bulk   bool            // documents may be long
	parsed map[string]bool // holds something parsed
	cur    func(string)
	faults *faultRun // scripts of faulty saves
	pkgs   map[string]*bytes.Reader
	colors []*docx.APITableBorderColors // given to tables
	twice  map[uintptr]bool             // memory that several elements share by the caller's doing
	apart  bool                         // looking for shared memory
}

func newWorld(r *rand.Rand) *World {
	return &World{r: r, pkgs: map[string]*bytes.Reader{}, parsed: map[string]bool{}, docs: map[string]*docx.Docx{}, last: map[string]*snap{}, raw: map[string]bool{}, wild: map[string]bool{}, tmpl: map[string]bool{},
		known: map[string]map[string]bool{}, saved: map[string][]byte{}}
}

type step struct {
	I int    `json:"i"`
	F string `json:"f"`
}

func steps(p []interface{}) []step {
	s := make([]step, 0, len(p))
	for _, x := range p {
		switch v := x.(type) {
		case int:
			s = append(s, step{v, ""})
		case string:
			s = append(s, step{0, v})
		}
	}
	return s
}

// rels lists the relationships
func relsOf(d *docx.Docx) []Rel {
	rs := []Rel{}
	_ = d.RangeRelationships(func(r *docx.Relationship) error {
		rs = append(rs, Rel{r.ID, r.Type, r.Target, r.TargetMode})
		return nil
	})
	return rs
}

// mediaName is the media a relationship target names
func mediaNameOf(target string) (string, bool) {
	if !strings.HasPrefix(target, "/") {
		target = "/word/" + target
	}
	target = path.Clean(target)
	if !strings.HasPrefix(target, "/word/media/") {
		return "", false
	}
	return target[len("/word/media/"):], true
}

func (w *World) mediaOf(name string) map[string]string {
	d := w.docs[name]
	k := w.known[name]
	if k == nil {
		k = map[string]bool{}
		w.known[name] = k
	}
	for _, r := range relsOf(d) {
		if m, ok := mediaNameOf(r.Target); ok {
			k[m] = true
		}
	}
	ms := map[string]string{}
	look := func(m string) {
		if _, ok := ms[m]; ok {
			return
		}
		defer func() {
			if p := recover(); p != nil {
				ms[m] = fmt.Sprint("panic: ", p)
			}
		}()
		if x := d.Media(m); x != nil {
			ms[m] = md5hex(x.Data)
		}
	}
	for m := range k {
		look(m)
	}
	for o, ks := range w.known { // nor may it know those of others
		if o != name {
			for m := range ks {
				look(m)
			}
		}
	}
	return ms
}

func (w *World) snapshot(name string) *snap {
	d := w.docs[name]
	if w.wild[name] { // only the outcomes of operations matter
		return &snap{items: []string{}, rels: "[]", media: "{}"}
	}
	s := &snap{items: make([]string, len(d.Document.Body.Items))}
	for i, it := range d.Document.Body.Items {
		s.items[i] = jstr(project(it))
	}
	s.rels = jstr(relsOf(d))
	s.media = jstr(w.mediaOf(name))
	return s
}

func (s *snap) eq(o *snap) bool {
	if s.rels != o.rels || s.media != o.media || len(s.items) != len(o.items) {
		return false
	}
	for i := range s.items {
		if s.items[i] != o.items[i] {
			return false
		}
	}
	return true
}

func (s *snap) delta(old *snap) string {
	var sb strings.Builder
	sb.WriteString(`{"body":[`)
	idx := map[string]int{}
	if old != nil {
		for i, it := range old.items {
			idx[it] = i
		}
	}
	for i, it := range s.items {
		if i > 0 {
			sb.WriteByte(',')
		}
		if old != nil && i < len(old.items) && old.items[i] == it {
			fmt.Fprintf(&sb, `{"r":%d}`, i+1)
		} else if j, ok := idx[it]; ok {
			fmt.Fprintf(&sb, `{"r":%d}`, j+1)
		} else {
			sb.WriteString(`{"n":` + it + `}`)
		}
	}
	sb.WriteString(`],"rels":` + s.rels + `,"media":` + s.media + `}`)
	return sb.String()
}

var opTimeout = 20 * time.Second

// call runs f, catching panics and hangs
func call(f func() error) (out, msg string) {
	type res struct{ out, msg string }
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- res{"panic", fmt.Sprint(p) + "\n" + string(debug.Stack())}
			}
		}()
		if err := f(); err != nil {
			ch <- res{"err", err.Error()}
			return
		}
		ch <- res{"ok", ""}
	}()
	t := time.NewTimer(opTimeout)
	defer t.Stop()
	select {
	case r := <-ch:
		return r.out, r.msg
	case <-t.C:
		return "hang", ""
	}
}

type M map[string]interface{}

// do performs an operation and records it. f returns the error of the operation;
// r is filled in by f with what it returned, q with the arguments.
func (w *World) do(op, d string, p []interface{}, x []string, q, r M, f func() error) string {
	if w.dead {
		return "dead"
	}
	w.n++
	if x == nil {
		x = []string{}
	}
	if q == nil {
		q = M{}
	}
	if r == nil {
		r = M{}
	}
	if w.cur != nil {
		parsed := "0"
		if w.parsed[d] || op == "Parse" {
			parsed = "1"
		}
		w.cur(op + " " + parsed)
	}
	out, msg := call(f)
	docs := "{}"
	if out == "panic" || out == "hang" {
		w.dead = true
		w.hung = w.hung || out == "hang"
		if msg != "" {
			r["panic"] = msg
		}
	} else {
		if out == "err" {
			r["err"] = msg
		}
		var sb strings.Builder
		sb.WriteByte('{')
		first := true
		names := make([]string, 0, len(w.docs))
		for k := range w.docs {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			s := w.snapshot(k)
			old := w.last[k]
			if old != nil && old.eq(s) {
				continue
			}
			if !first {
				sb.WriteByte(',')
			}
			first = false
			sb.WriteString(jstr(k) + ":" + s.delta(old))
			w.last[k] = s
		}
		sb.WriteByte('}')
		docs = sb.String()
	}
	w.ev = append(w.ev, `{"op":`+jstr(op)+`,"d":`+jstr(d)+`,"p":`+jstr(steps(p))+`,"x":`+jstr(x)+`,"q":`+jstr(q)+`,"r":`+jstr(r)+`,"out":`+jstr(out)+`,"docs":`+docs+`}`)
	if !w.dead && !w.apart {
		w.apart = true
		w.lookApart(op)
		w.apart = false
	}
	return out
}

// lookApart looks for memory that two elements have come to share by an operation,
// and if there is any, makes a change at one of them to see whether it shows at the other
func (w *World) lookApart(op string) {
	type place struct {
		d string
		t target
		f int
	}
	type room struct {
		a, b uintptr
		s    reflect.Value
		d    string
	}
	old := w.twice
	w.twice = map[uintptr]bool{}
	first := map[uintptr]bool{}
	var hit *place
	var rooms []room
	for _, d := range w.names {
		d := d
		if w.wild[d] || w.docs[d] == nil {
			continue
		}
		w.walkDoc(d, func(p []interface{}, v reflect.Value) {
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath != "" || v.Type().Field(i).Name == "XMLName" {
					continue
				}
				f := v.Field(i)
				switch f.Kind() {
				case reflect.String, reflect.Int, reflect.Int64:
					a := f.Addr().Pointer()
					if first[a] {
						w.twice[a] = true
						if !old[a] && hit == nil && f.Kind() != reflect.Bool {
							hit = &place{d, target{p, v}, i}
						}
					}
					first[a] = true
				case reflect.Slice:
					if n := uintptr(f.Cap()) * f.Type().Elem().Size(); n > 0 {
						rooms = append(rooms, room{f.Pointer(), f.Pointer() + n, f, d})
					}
				}
			}
		})
	}
	given := op == "Load" || op == "Insert" || op == "Par.MergeText" // the caller's own doing
	if hit != nil && !given {
		w.pokeAt(hit.d, hit.t, hit.f, op)
		return
	}
	sort.SliceStable(rooms, func(i, j int) bool { return rooms[i].a < rooms[j].a })
	for i := 1; i < len(rooms); i++ {
		x, y := rooms[i-1], rooms[i]
		if y.a >= x.b || w.twice[x.a] {
			continue
		}
		w.twice[x.a] = true
		if old[x.a] || given || x.s.Len() == x.s.Cap() {
			continue
		}
		// a new last element of x
		w.do("Scribble", x.d, nil, nil, M{"by": op}, nil, func() error {
			n := x.s.Len()
			s := x.s.Slice(0, n+1)
			e := s.Index(n)
			o := reflect.New(e.Type()).Elem()
			o.Set(e)
			e.Set(reflect.Zero(e.Type()))
			for k := range w.docs {
				if !w.last[k].eq(w.snapshot(k)) {
					return nil // leave it: the observation shows the change
				}
			}
			e.Set(o)
			return nil
		})
		return
	}
}

func (w *World) fresh() string {
	w.n++
	return fmt.Sprintf("d%d", len(w.docs)+1)
}

func (w *World) add(name string, d *docx.Docx) {
	if _, dup := w.docs[name]; dup {
		panic("name in use " + name)
	}
	w.docs[name] = d
	w.names = append(w.names, name)
}

// ---- finding elements -------------------------------------------------------------

type target struct {
	path []interface{}
	v    reflect.Value // addressable struct
}

// walk visits all elements of a body
func walk(v reflect.Value, p []interface{}, fn func(p []interface{}, v reflect.Value)) {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || len(p) > 60 {
		return
	}
	if v.CanAddr() && v.Type().Name() != "" {
		fn(append([]interface{}{}, p...), v)
	}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).PkgPath != "" || t.Field(i).Name == "XMLName" {
			continue
		}
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Slice:
			for j := 0; j < f.Len(); j++ {
				walk(f.Index(j), append(p[:len(p):len(p)], j+1), fn)
			}
		case reflect.Struct, reflect.Ptr, reflect.Interface:
			walk(f, append(p[:len(p):len(p)], t.Field(i).Name), fn)
		}
	}
}

func (w *World) walkDoc(d string, fn func(p []interface{}, v reflect.Value)) {
	for i, it := range w.docs[d].Document.Body.Items {
		walk(reflect.ValueOf(it), []interface{}{i + 1}, fn)
	}
}

// pick chooses an element of one of the types, nil if there is none
func (w *World) pick(d string, typ ...string) *target {
	var ts []target
	w.walkDoc(d, func(p []interface{}, v reflect.Value) {
		for _, t := range typ {
			if v.Type().Name() == t {
				ts = append(ts, target{p, v})
			}
		}
	})
	if len(ts) == 0 {
		return nil
	}
	// prefer recent elements a little
	if w.r.Intn(3) == 0 {
		return &ts[len(ts)-1-w.r.Intn((len(ts)+3)/4)]
	}
	return &ts[w.r.Intn(len(ts))]
}

func (t *target) ptr() interface{} { return t.v.Addr().Interface() }

func (t *target) par() *docx.Paragraph { return t.ptr().(*docx.Paragraph) }

// path of an element within the body, for handles that were returned
func (w *World) ret(d string, x interface{}) []step {
	p := pathOf(w.docs[d], x)
	if p == nil {
		return []step{}
	}
	return steps(p)
}

// ---- operations ----------------------------------------------------------------------

func (w *World) New() string {
	name := w.fresh()
	w.do("New", name, nil, nil, nil, nil, func() error {
		w.add(name, docx.New())
		return nil
	})
	return name
}

func (w *World) Theme(d string) {
	parts := map[string]string{}
	var ct Ct
	for _, n := range docx.DefaultTemplateFilesList {
		b, err := docx.TemplateXMLFS.ReadFile("xml/default/" + n)
		if err != nil {
			panic(err)
		}
		parts[n] = md5hex(b)
		if n == partCT {
			ct, _ = readCt(b)
		}
	}
	w.tmpl[d] = true
	w.do("Template", d, nil, nil, M{"parts": parts, "ct": ct, "valid": true}, nil, func() error {
		w.docs[d].WithDefaultTheme()
		return nil
	})
}

func (w *World) AddPage(d, k string) {
	w.do("AddPage", d, nil, []string{k}, nil, M{"path": []step{{len(w.docs[d].Document.Body.Items) + 1, ""}}}, func() error {
		if k == "A3" {
			w.docs[d].WithA3Page()
		} else {
			w.docs[d].WithA4Page()
		}
		return nil
	})
}

func (w *World) AddParagraph(d string) {
	r := M{}
	w.do("AddParagraph", d, nil, nil, nil, r, func() error {
		r["path"] = w.ret(d, w.docs[d].AddParagraph())
		return nil
	})
}

func (w *World) CellAddParagraph(d string, t *target) {
	r := M{}
	w.do("Cell.AddParagraph", d, t.path, nil, nil, r, func() error {
		r["path"] = w.ret(d, t.ptr().(*docx.WTableCell).AddParagraph())
		return nil
	})
}

func (w *World) AddText(d string, t *target, s string) {
	r := M{}
	w.do("AddText", d, t.path, []string{s}, nil, r, func() error {
		r["path"] = w.ret(d, t.par().AddText(s))
		return nil
	})
}

func (w *World) AddTab(d string, t *target) {
	r := M{}
	w.do("AddTab", d, t.path, []string{"\t"}, nil, r, func() error {
		r["path"] = w.ret(d, t.par().AddTab())
		return nil
	})
}

func (w *World) AddPageBreaks(d string, t *target) {
	r := M{}
	w.do("AddPageBreaks", d, t.path, nil, nil, r, func() error {
		r["path"] = w.ret(d, t.par().AddPageBreaks())
		return nil
	})
}

func (w *World) AddLink(d string, t *target, text, link string) {
	r := M{}
	w.do("AddLink", d, t.path, []string{text, link}, nil, r, func() error {
		r["path"] = w.ret(d, t.par().AddLink(text, link))
		return nil
	})
}

func (w *World) AddPic(d string, t *target, kind string, im *Img) {
	r := M{}
	w.do("AddPic", d, t.path, []string{kind}, M{"img": im.ok, "w": im.w, "h": im.h, "md5": md5hex(im.data), "name": picName}, r, func() error {
		var run *docx.Run
		var err error
		data := append([]byte{}, im.data...)
		file := ""
		if w.r.Intn(4) == 0 && scratch != "" {
			file = fmt.Sprintf("%s/pic%d", scratch, atomic.AddInt64(&picFiles, 1))
			defer os.Remove(file)
			if err := os.WriteFile(file, data, 0o644); err != nil {
				panic(err)
			}
		}
		switch {
		case kind == "Inline" && file != "":
			run, err = t.par().AddInlineDrawingFrom(file)
		case kind == "Inline":
			run, err = t.par().AddInlineDrawing(data)
		case file != "":
			run, err = t.par().AddAnchorDrawingFrom(file)
		default:
			run, err = t.par().AddAnchorDrawing(data)
		}
		if err != nil {
			return err
		}
		r["path"] = w.ret(d, run)
		return nil
	})
}

var (
	scratch  string
	picFiles int64
)

func (w *World) AddShape(d string, t *target, kind string, cx, cy int64, name, bw, prst string, ln *docx.ALine) {
	r := M{}
	lnode := newNode("nil")
	if ln != nil {
		lnode = project(ln)
	}
	w.do("AddShape", d, t.path, []string{kind, fmt.Sprint(cx), fmt.Sprint(cy), name, bw, prst}, M{"ln": lnode}, r, func() error {
		if kind == "Inline" {
			r["path"] = w.ret(d, t.par().AddInlineShape(cx, cy, name, bw, prst, ln))
		} else {
			r["path"] = w.ret(d, t.par().AddAnchorShape(cx, cy, name, bw, prst, ln))
		}
		return nil
	})
}

func colorsOf(c *docx.APITableBorderColors) []string {
	if c == nil {
		return []string{"", "", "", "", "", ""}
	}
	return []string{c.Top, c.Left, c.Bottom, c.Right, c.InsideH, c.InsideV}
}

func strs(v []int64) []string {
	s := make([]string, len(v))
	for i, x := range v {
		s[i] = fmt.Sprint(x)
	}
	return s
}

func (w *World) AddTable(d string, rows, cols int, width int64, c *docx.APITableBorderColors) {
	r := M{}
	w.do("AddTable", d, nil, []string{fmt.Sprint(width)}, M{"rows": rows, "cols": cols, "colors": colorsOf(c)}, r, func() error {
		r["path"] = w.ret(d, w.docs[d].AddTable(rows, cols, width, c))
		r["given"] = M{"colors": colorsOf(c)}
		return nil
	})
}

func (w *World) AddTableTwips(d string, hs, ws []int64, width int64, c *docx.APITableBorderColors) {
	r := M{}
	q := M{"rows": len(hs), "cols": len(ws), "hs": strs(hs), "ws": strs(ws), "colors": colorsOf(c)}
	w.do("AddTableTwips", d, nil, []string{fmt.Sprint(width)}, q, r, func() error {
		r["path"] = w.ret(d, w.docs[d].AddTableTwips(hs, ws, width, c))
		r["given"] = M{"colors": colorsOf(c), "hs": strs(hs), "ws": strs(ws)}
		return nil
	})
}

// Set calls a setter; op is Type.Method of the specification
func (w *World) Set(d string, t *target, op string, x []string) {
	r := M{}
	w.do(op, d, t.path, x, nil, r, func() error {
		var ret interface{}
		switch e := t.ptr().(type) {
		case *docx.Run:
			switch op {
			case "Run.Color":
				ret = e.Color(x[0])
			case "Run.Size":
				ret = e.Size(x[0])
			case "Run.SizeCs":
				ret = e.SizeCs(x[0])
			case "Run.Shade":
				ret = e.Shade(x[0], x[1], x[2])
			case "Run.Spacing":
				ret = e.Spacing(atoi(x[0]))
			case "Run.Bold":
				ret = e.Bold()
			case "Run.Italic":
				ret = e.Italic()
			case "Run.Underline":
				ret = e.Underline(x[0])
			case "Run.Highlight":
				ret = e.Highlight(x[0])
			case "Run.Strike":
				ret = e.Strike(x[0] == "true")
			case "Run.Font":
				ret = e.Font(x[0], x[1], x[2], x[3])
			case "Run.AddTab":
				ret = e.AddTab()
			}
		case *docx.Paragraph:
			switch op {
			case "Par.Justification":
				ret = e.Justification(x[0])
			case "Par.Style":
				ret = e.Style(x[0])
			case "Par.NumPr":
				ret = e.NumPr(x[0], x[1])
			case "Par.NumFont":
				ret = e.NumFont(x[0], x[1], x[2], x[3])
			case "Par.NumSize":
				ret = e.NumSize(x[0])
			}
		case *docx.Table:
			ret = e.Justification(x[0])
		case *docx.WTableRow:
			ret = e.Justification(x[0])
		case *docx.WTableCell:
			ret = e.Shade(x[0], x[1], x[2])
		case *docx.WPInline:
			e.Size(int64(atoi(x[0])), int64(atoi(x[1])))
			ret = e
		case *docx.WPAnchor:
			e.Size(int64(atoi(x[0])), int64(atoi(x[1])))
			ret = e
		}
		r["path"] = w.ret(d, ret)
		if p := pathOf(w.docs[d], ret); fmt.Sprint(p) != fmt.Sprint(t.path) && reflect.ValueOf(ret).Pointer() == t.v.Addr().Pointer() {
			r["path"] = steps(t.path) // the element is at several places
		}
		return nil
	})
}

func atoi(s string) int {
	var i int
	_, _ = fmt.Sscan(s, &i)
	return i
}

// Poke edits one exported field directly
func (w *World) Poke(d string) {
	type leaf struct {
		t target
		f int
	}
	var ls []leaf
	w.walkDoc(d, func(p []interface{}, v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" || skipFields[v.Type().Field(i).Name] {
				continue
			}
			switch v.Field(i).Kind() {
			case reflect.String, reflect.Int, reflect.Int64:
				switch v.Type().Name() {
				case "Hyperlink", "ABlip", "WPDocPr", "NonVisualProperties":
				default:
					ls = append(ls, leaf{target{p, v}, i})
				}
			}
		}
	})
	if len(ls) == 0 {
		return
	}
	l := ls[w.r.Intn(len(ls))]
	w.pokeAt(d, l.t, l.f, "")
}

func (w *World) pokeAt(d string, t target, i int, by string) {
	f := t.v.Field(i)
	val := ""
	if f.Kind() == reflect.String {
		val = fmt.Sprintf("v%d", w.r.Intn(1000))
	} else {
		val = fmt.Sprint(w.r.Intn(1000) + 1)
	}
	w.do("Poke", d, t.path, []string{t.v.Type().Field(i).Name, val}, M{"by": by}, M{"path": steps(t.path)}, func() error {
		if f.Kind() == reflect.String {
			f.SetString(val)
		} else {
			f.SetInt(int64(atoi(val)))
		}
		return nil
	})
}

// Scribble changes every exported value of a document, looks at the others, and undoes it
func (w *World) Scribble(d string) {
	if len(w.docs) < 2 {
		return
	}
	w.do("Scribble", d, nil, nil, nil, nil, func() error {
		var undo []func()
		seen := map[uintptr]bool{}
		w.walkDoc(d, func(_ []interface{}, v reflect.Value) {
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath != "" {
					continue
				}
				f := v.Field(i)
				if seen[f.Addr().Pointer()] && f.Type().Size() > 0 {
					continue
				}
				switch f.Kind() {
				case reflect.String:
					seen[f.Addr().Pointer()] = true
					old := f.String()
					f.SetString(old + "~")
					undo = append(undo, func() { f.SetString(old) })
				case reflect.Int, reflect.Int64:
					seen[f.Addr().Pointer()] = true
					old := f.Int()
					f.SetInt(old + 77)
					undo = append(undo, func() { f.SetInt(old) })
				case reflect.Slice:
					if f.Len() > 0 {
						e := f.Index(f.Len() - 1)
						old := reflect.New(e.Type()).Elem()
						old.Set(e)
						undo = append(undo, func() { e.Set(old) })
					}
				}
			}
		})
		// the other documents have to be unchanged now
		for k := range w.docs {
			if k != d && !w.last[k].eq(w.snapshot(k)) {
				return nil // leave it: the observation shows the change
			}
		}
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
		return nil
	})
}

func typeName(s string) string { return "*docx." + s }

func (w *World) Keep(d string, t *target, x []string) {
	full := make([]string, len(x))
	for i, s := range x {
		full[i] = typeName(s)
	}
	if t == nil {
		w.do("Body.Keep", d, nil, x, nil, nil, func() error { w.docs[d].Document.Body.KeepElements(full...); return nil })
		return
	}
	switch e := t.ptr().(type) {
	case *docx.Paragraph:
		w.do("Par.Keep", d, t.path, x, nil, nil, func() error { e.KeepElements(full...); return nil })
	case *docx.Run:
		w.do("Run.Keep", d, t.path, x, nil, nil, func() error { e.KeepElements(full...); return nil })
	}
}

func (w *World) Drop(d string, t *target, kind string) {
	if t == nil {
		w.do("Body.Drop", d, nil, []string{kind}, nil, nil, func() error { w.docs[d].Document.Body.DropDrawingOf(kind); return nil })
		return
	}
	p := t.par()
	w.do("Par.Drop", d, t.path, []string{kind}, nil, nil, func() error {
		switch kind {
		case "Shape":
			p.DropShape()
		case "Canvas":
			p.DropCanvas()
		case "Group":
			p.DropGroup()
		case "ShapeAndCanvas":
			p.DropShapeAndCanvas()
		case "ShapeAndCanvasAndGroup":
			p.DropShapeAndCanvasAndGroup()
		case "NilPicture":
			p.DropNilPicture()
		}
		return nil
	})
}

func rule(k string, f []string) docx.RunMergeRule {
	switch k {
	case "all":
		return docx.MergeAllRuns
	case "same":
		return docx.MergeSamePropRuns
	case "of":
		return docx.MergeSamePropRunsOf(f...)
	case "bold":
		return func(a, b *docx.Run) bool {
			return a.RunProperties != nil && a.RunProperties.Bold != nil && b.RunProperties != nil && b.RunProperties.Bold != nil
		}
	}
	return func(_, _ *docx.Run) bool { return false }
}

func (w *World) Merge(d string, t *target, k string, f []string, self bool) {
	q := M{"k": k, "f": f}
	r := M{}
	if self {
		w.do("Par.MergeSelf", d, t.path, nil, q, r, func() error {
			np := t.par().MergeText(rule(k, f))
			*t.par() = np
			return nil
		})
		return
	}
	w.do("Par.MergeText", d, t.path, nil, q, r, func() error {
		np := t.par().MergeText(rule(k, f))
		if !w.wild[d] {
			r["n"] = project(&np)
		}
		return nil
	})
}

func (w *World) String(d string, t *target) {
	r := M{}
	switch e := t.ptr().(type) {
	case *docx.Paragraph:
		w.do("Par.String", d, t.path, nil, nil, r, func() error { r["s"] = e.String(); return nil })
	case *docx.Table:
		w.do("Table.String", d, t.path, nil, nil, r, func() error { r["s"] = e.String(); return nil })
	}
}

func (w *World) ReferTarget(d, id string) {
	r := M{"s": ""}
	w.do("ReferTarget", d, nil, []string{id}, nil, r, func() error {
		s, err := w.docs[d].ReferTarget(id)
		r["s"] = s
		return err
	})
}

func (w *World) ReferID(d, target string) {
	r := M{"s": ""}
	w.do("ReferID", d, nil, []string{target}, nil, r, func() error {
		s, err := w.docs[d].ReferID(target)
		r["s"] = s
		return err
	})
}

var errStop = errors.New("stop")

func (w *World) RangeRels(d string, stop int) {
	list := []Rel{}
	r := M{}
	w.do("Range", d, nil, []string{fmt.Sprint(stop)}, nil, r, func() error {
		k := 0
		err := w.docs[d].RangeRelationships(func(x *docx.Relationship) error {
			list = append(list, Rel{x.ID, x.Type, x.Target, x.TargetMode})
			r["list"] = list
			x.Target += "~" // a caller's scribbles must not matter
			if k == stop {
				return errStop
			}
			k++
			return nil
		})
		r["list"] = list
		if err != nil && err != errStop {
			panic("other error")
		}
		return err
	})
}

func (w *World) Media(d, name string) {
	r := M{"s": "", "name": ""}
	w.do("Media", d, nil, []string{name}, nil, r, func() error {
		if m := w.docs[d].Media(name); m != nil {
			r["s"] = md5hex(m.Data)
			r["name"] = m.Name
			if m.String() != "word/media/"+name {
				r["name"] = m.String()
			}
		}
		return nil
	})
}

func (w *World) IncreaseID(d, name string) {
	r := M{}
	w.do("IncreaseID", d, nil, []string{name}, nil, r, func() error {
		r["s"] = fmt.Sprint(w.docs[d].IncreaseID(name))
		return nil
	})
}

// regexSeps is where the regular expression separates
func (w *World) regexSeps(d string, re *regexp.Regexp) (seps []bool, ok bool) {
	seps = []bool{}
	out, _ := call(func() error {
		for _, it := range w.docs[d].Document.Body.Items {
			p, ok := it.(*docx.Paragraph)
			seps = append(seps, ok && re.MatchString(p.String()))
		}
		return nil
	})
	return seps, out == "ok"
}

// Split splits a document by a rule on the paragraphs
func (w *World) Split(d string, accept func(i int, p *docx.Paragraph) bool) []string {
	doc := w.docs[d]
	seps := []bool{}
	by := map[*docx.Paragraph]bool{}
	out, _ := call(func() error {
		for i, it := range doc.Document.Body.Items {
			p, ok := it.(*docx.Paragraph)
			s := ok && accept(i, p)
			if ok {
				by[p] = s
			}
			seps = append(seps, s)
		}
		return nil
	})
	if out != "ok" {
		w.do("Split", d, nil, nil, nil, nil, func() error { accept(0, doc.Document.Body.Items[0].(*docx.Paragraph)); panic("rule") })
		return nil
	}
	return w.splitBy(d, seps, func(p *docx.Paragraph) bool { return by[p] })
}

// splitBy splits by a rule that is known to accept the items seps
func (w *World) splitBy(d string, seps []bool, rule func(p *docx.Paragraph) bool) []string {
	doc := w.docs[d]
	names := []string{}
	r := M{"docs": names}
	w.do("Split", d, nil, nil, M{"seps": seps, "name": picName}, r, func() error {
		ds := doc.SplitByParagraph(rule)
		for _, x := range ds {
			n := w.fresh()
			w.add(n, x)
			w.wild[n], w.tmpl[n], w.parsed[n] = w.wild[d], w.tmpl[d], w.parsed[d]
			w.known[n] = map[string]bool{}
			for k := range w.known[d] {
				w.known[n][k] = true
			}
			names = append(names, n)
		}
		r["docs"] = names
		return nil
	})
	return names
}

func (w *World) Append(d, src string) {
	w.wild[d] = w.wild[d] || w.wild[src]
	w.parsed[d] = w.parsed[d] || w.parsed[src]
	w.do("Append", d, nil, nil, M{"src": src, "name": picName}, nil, func() error {
		w.docs[d].AppendFile(w.docs[src])
		return nil
	})
}

// Save writes the package and, if reload, parses it again
func (w *World) Save(d string, reload bool) string {
	r := M{"n": 0, "len": 0, "nd": "", "reload": "no"}
	q := M{"pkg": M{}}
	nd := ""
	if reload {
		nd = w.fresh()
	}
	w.do("Save", d, nil, nil, q, r, func() error {
		var buf bytes.Buffer
		n, err := w.docs[d].WriteTo(&buf)
		if err != nil {
			return err
		}
		data := buf.Bytes()
		w.saved[d] = data
		r["n"], r["len"] = n, len(data)
		pk := pkgInfo(data)
		if w.wild[d] {
			pk.Doc = &XNode{T: "none"}
		}
		q["pkg"] = pk
		if reload {
			r["nd"] = nd
			x, err := docx.Parse(bytes.NewReader(data), int64(len(data)))
			if err != nil {
				r["reload"] = "err: " + err.Error()
				r["nd"] = nd
				nd = ""
				return nil
			}
			r["reload"] = "ok"
			w.known[nd] = mediaNames(pk)
			w.add(nd, x)
			w.wild[nd], w.tmpl[nd], w.parsed[nd] = w.wild[d], true, true
		}
		return nil
	})
	if w.dead {
		return ""
	}
	if _, ok := w.docs[nd]; !ok {
		return ""
	}
	return nd
}

func mediaNames(pk *Pkg) map[string]bool {
	k := map[string]bool{}
	for p := range pk.Parts {
		if strings.HasPrefix(p, "word/media/") {
			k[p[len("word/media/"):]] = true
		}
	}
	return k
}

// Parse parses a foreign package
func (w *World) Parse(data []byte, wild bool) string {
	return w.parseFrom(bytes.NewReader(data), wild)
}

func (w *World) parseFrom(rd *bytes.Reader, wild bool) string {
	data := make([]byte, rd.Size())
	if _, err := rd.ReadAt(data, 0); err != nil && err != io.EOF {
		panic(err)
	}
	name := w.fresh()
	var pk *Pkg
	q := M{"wild": wild}
	if !wild {
		pk = pkgInfo(data)
		q["pkg"] = pk
	} else {
		pk = pkgInfo(data)
	}
	out := w.do("Parse", name, nil, nil, q, nil, func() error {
		x, err := docx.Parse(rd, int64(len(data)))
		if err != nil {
			return err
		}
		w.known[name] = mediaNames(pk)
		w.wild[name], w.tmpl[name], w.parsed[name] = wild, true, true
		w.add(name, x)
		return nil
	})
	if out != "ok" {
		return ""
	}
	return name
}

// Load makes a document of structs
func (w *World) Load(items []*Node, media []docx.Media) string {
	var vals []interface{}
	for _, n := range items {
		vals = append(vals, build(n, w.r).Interface())
	}
	return w.load(vals, media)
}

func (w *World) load(vals []interface{}, media []docx.Media) string {
	name := w.fresh()
	proj := []*Node{}
	ms := map[string]string{}
	k := map[string]bool{}
	for _, v := range vals {
		proj = append(proj, project(v))
	}
	for _, m := range media {
		ms[m.Name] = md5hex(m.Data)
		k[m.Name] = true
	}
	w.known[name] = k
	w.do("Load", name, nil, nil, M{"items": proj, "media": ms, "name": picName}, nil, func() error {
		w.add(name, docx.LoadBodyItems(vals, media))
		return nil
	})
	w.raw[name] = true
	return name
}

// LoadTwin loads two documents from the parts of two slices of the caller
func (w *World) LoadTwin() {
	r := w.r
	g := &GenOpt{p: 15, width: 2, budget: 60}
	vals := make([]interface{}, 0, 8)
	for i := 2 + r.Intn(3); i > 0; i-- {
		vals = append(vals, build(genNode(r, []string{"Paragraph", "Paragraph", "Table"}[r.Intn(3)], g, 0), r).Interface())
	}
	ms := genMedia(r)
	i, j := r.Intn(len(vals)+1), r.Intn(len(ms)+1)
	w.load(vals[:i], ms[:j])
	w.load(vals[i:], ms[j:])
}

// Insert puts a struct-built item at the end of the body
func (w *World) Insert(d string, n *Node) {
	v := build(n, w.r).Interface()
	w.do("Insert", d, nil, nil, M{"n": project(v)}, nil, func() error {
		w.docs[d].Document.Body.Items = append(w.docs[d].Document.Body.Items, v)
		return nil
	})
	w.raw[d] = true
}

type trace struct {
	text string
	stop bool
}

func (w *World) finish(id string) trace {
	return trace{w.trace(id), w.hung}
}

func (w *World) trace(id string) string {
	return `{"id":` + jstr(id) + `,"ev":[` + strings.Join(w.ev, ",") + `]}`
}
