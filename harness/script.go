package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"

	docx "github.com/fumiama/go-docx"
)

// Scripts are sequences of operations explored by the model checker, one per line:
// {"calls": [{"op","d","p","x","q"}], "want": {document: meaning}}

type scall struct {
	Op string          `json:"op"`
	D  string          `json:"d"`
	P  []step          `json:"p"`
	X  []string        `json:"x"`
	Q  json.RawMessage `json:"q"`
}

type script struct {
	Calls []scall           `json:"calls"`
	Want  map[string]string `json:"want"`
	Props []string          `json:"props"`
	Par   int               `json:"par"` // the calls from here on are made concurrently
}

// UnmarshalJSON reads the form of MarshalJSON; TLC writes the empty function as []
func (n *XNode) UnmarshalJSON(b []byte) error {
	var x struct {
		T string          `json:"t"`
		A json.RawMessage `json:"a"`
		C []*XNode        `json:"c"`
		X string          `json:"x"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	n.T, n.C, n.X = x.T, x.C, x.X
	n.A = map[string]string{}
	if len(x.A) > 0 && x.A[0] == '{' {
		return json.Unmarshal(x.A, &n.A)
	}
	return nil
}

// A and D differ in their last byte only
var tokens = map[string]*Img{"A": twin(mkImg(100, 100, "png", 10), 1), "B": mkImg(300, 100, "jpeg", 20), "C": mkImg(7, 9, "png", 30), "D": twin(mkImg(100, 100, "png", 10), 2)}

func tokNames() map[string]string {
	m := map[string]string{}
	for k, im := range tokens {
		m[md5hex(im.data)] = k
	}
	return m
}

func opath(p []step) []interface{} {
	q := make([]interface{}, len(p))
	for i, s := range p {
		if s.I > 0 {
			q[i] = s.I
		} else {
			q[i] = s.F
		}
	}
	return q
}

func (w *World) at(d string, p []step) *target {
	if len(p) == 0 {
		return nil
	}
	v, ok := getAt(reflect.ValueOf(&w.docs[d].Document.Body), opath(p))
	if !ok {
		return nil
	}
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	return &target{opath(p), v}
}

func relType(s string) string {
	switch s {
	case "styles", "header":
		return relBase + s
	}
	return s
}

// scriptPkg is the package of a Parse call
func scriptPkg(q json.RawMessage, r *rand.Rand) ([]byte, error) {
	var x struct {
		XML   *XNode            `json:"xml"`
		Rels  []Rel             `json:"rels"`
		Media map[string]string `json:"media"`
		Parts []string          `json:"parts"`
	}
	if err := json.Unmarshal(q, &x); err != nil {
		return nil, err
	}
	for i := range x.Rels {
		x.Rels[i].Type = relType(x.Rels[i].Type)
	}
	ps := []part{{partDoc, newNoise(r, 1).serialize(x.XML)}, {partRels, xmlRels(r, x.Rels)}}
	def := map[string]string{"xml": "application/xml", "rels": "application/vnd.openxmlformats-package.relationships+xml", "png": "image/png", "jpg": "image/jpeg"}
	ovr := map[string]string{"/word/document.xml": "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"}
	for _, k := range sortedKeys(x.Media) {
		ps = append(ps, part{"word/media/" + k, tokens[x.Media[k]].data})
	}
	for _, k := range x.Parts {
		ps = append(ps, part{k, []byte("<part/>")})
	}
	ps = append(ps, part{"_rels/.rels", xmlRels(r, []Rel{{"rId1", relBase + "officeDocument", "word/document.xml", ""}})}, part{partCT, xmlTypes(r, def, ovr)})
	return buildZip(ps, nil), nil
}

// exec makes one call; it stops when there is nothing to make it on
func (w *World) exec(c scall) (stop bool, err error) {
	r := w.r
	// what a call is made on has to be there, unless an earlier step went wrong
	if _, ok := w.docs[c.D]; !ok && c.Op != "New" && c.Op != "Parse" && c.Op != "FaultDoc" {
		return true, nil
	}
	t := (*target)(nil)
	if len(c.P) > 0 {
		if t = w.at(c.D, c.P); t == nil {
			return true, nil
		}
	}
	is := func(n string) bool { return t != nil && t.v.Type().Name() == n }
	switch c.Op {
	case "New":
		w.New()
	case "Theme":
		w.Theme(c.D)
	case "Parse":
		b := w.pkgs[string(c.Q)] // the same package is parsed from the same reader
		if b == nil {
			data, err := scriptPkg(c.Q, r)
			if err != nil {
				return false, err
			}
			b = bytes.NewReader(data)
			w.pkgs[string(c.Q)] = b
		}
		if w.parseFrom(b, false) == "" {
			return true, nil
		}
	case "AddParagraph":
		w.AddParagraph(c.D)
	case "AddPage":
		w.AddPage(c.D, c.X[0])
	case "AddTable":
		w.AddTable(c.D, 1, 2, 0, nil)
	case "Cell.AddParagraph":
		if is("WTableCell") {
			w.CellAddParagraph(c.D, t)
		}
	case "AddText":
		if is("Paragraph") {
			w.AddText(c.D, t, c.X[0])
		}
	case "AddLink":
		if is("Paragraph") {
			w.AddLink(c.D, t, c.X[0], c.X[1])
		}
	case "AddPic":
		var q struct{ Md5 string }
		if err := json.Unmarshal(c.Q, &q); err != nil {
			return false, err
		}
		if is("Paragraph") {
			w.AddPic(c.D, t, c.X[0], tokens[q.Md5])
		}
	case "AddShape":
		if is("Paragraph") {
			w.AddShape(c.D, t, c.X[0], int64(atoi(c.X[1])), int64(atoi(c.X[2])), c.X[3], c.X[4], c.X[5], nil)
		}
	case "Par.MergeSelf":
		var q struct {
			K string   `json:"k"`
			F []string `json:"f"`
		}
		if err := json.Unmarshal(c.Q, &q); err != nil {
			return false, err
		}
		if q.F == nil {
			q.F = []string{}
		}
		if is("Paragraph") {
			w.Merge(c.D, t, q.K, q.F, true)
		}
	case "Body.Keep", "Par.Keep", "Run.Keep":
		w.Keep(c.D, t, c.X)
	case "Body.Drop":
		w.Drop(c.D, nil, c.X[0])
	case "Split":
		var q struct{ Seps []bool }
		if err := json.Unmarshal(c.Q, &q); err != nil {
			return false, err
		}
		w.Split(c.D, func(i int, _ *docx.Paragraph) bool { return i < len(q.Seps) && q.Seps[i] })
	case "Append":
		var q struct{ Src string }
		if err := json.Unmarshal(c.Q, &q); err != nil {
			return false, err
		}
		if w.docs[q.Src] != nil {
			w.Append(c.D, q.Src)
		}
	case "Save":
		w.Save(c.D, c.X[0] == "load")
	case "Par.String":
		w.String(c.D, t)
	case "Strings": // of all paragraphs and tables
		var ts []*target
		w.walkDoc(c.D, func(p []interface{}, v reflect.Value) {
			if n := v.Type().Name(); n == "Paragraph" || n == "Table" {
				ts = append(ts, &target{p, v})
			}
		})
		for _, t := range ts {
			w.String(c.D, t)
		}
	case "Drops": // from paragraph after paragraph, another kind each
		var ts []*target
		w.walkDoc(c.D, func(p []interface{}, v reflect.Value) {
			if v.Type().Name() == "Paragraph" && len(p) == 1 {
				ts = append(ts, &target{p, v})
			}
		})
		for i, t := range ts {
			w.Drop(c.D, t, c.X[i%len(c.X)])
		}
	case "Merges", "MergeSelfs", "Keeps": // of all paragraphs
		var ts []*target
		w.walkDoc(c.D, func(p []interface{}, v reflect.Value) {
			if v.Type().Name() == "Paragraph" && (len(p) == 1 || c.Op == "Merges") {
				ts = append(ts, &target{p, v})
			}
		})
		for i, t := range ts {
			switch {
			case c.Op == "Keeps" && i%2 == 0:
				w.Keep(c.D, t, c.X)
			case c.Op == "Keeps":
				for j := range t.par().Children {
					if u := w.at(c.D, steps(append(t.path[:len(t.path):len(t.path)], j+1))); u != nil && u.v.Type().Name() == "Run" {
						w.Keep(c.D, u, c.X[1:])
						break
					}
				}
			case c.Op == "MergeSelfs":
				w.Merge(c.D, t, c.X[0], []string{}, true)
			default:
				for _, k := range c.X {
					w.Merge(c.D, t, k, []string{}, false)
				}
			}
		}
	case "FaultDoc":
		if w.faultDoc(c.X[0]); w.faults == nil {
			return true, nil
		}
	case "FaultEdit":
		w.faultEdit()
	case "FaultSave":
		var q struct {
			On, Kind                string
			Part, At, Chunks, Total int
		}
		if err := json.Unmarshal(c.Q, &q); err != nil {
			return false, err
		}
		w.faultSave(q.On, q.Kind, q.Part, q.At, q.Chunks, q.Total)
	default:
		if t == nil || setterTypes[opType(c.Op)] != t.v.Type().Name() {
			return false, fmt.Errorf("call %s", c.Op)
		}
		w.Set(c.D, t, c.Op, c.X)
	}
	return false, nil
}

// fork gives a world with one of the documents, for a goroutine of its own
func (w *World) fork(d string, seed int64) *World {
	v := newWorld(rand.New(rand.NewSource(seed)))
	v.docs[d], v.names, v.last[d] = w.docs[d], []string{d}, w.last[d]
	v.raw[d], v.wild[d], v.tmpl[d], v.parsed[d] = w.raw[d], w.wild[d], w.tmpl[d], w.parsed[d]
	v.known[d] = map[string]bool{}
	for k := range w.known[d] {
		v.known[d][k] = true
	}
	return v
}

// concurrently makes the calls on every document in a goroutine of its own
func (w *World) concurrently(calls []scall) error {
	by := map[string][]scall{}
	ds := []string{}
	for _, c := range calls {
		if w.docs[c.D] == nil {
			continue
		}
		if len(by[c.D]) == 0 {
			ds = append(ds, c.D)
		}
		by[c.D] = append(by[c.D], c)
	}
	ws := make([]*World, len(ds))
	errs := make([]error, len(ds))
	for k, d := range ds {
		ws[k] = w.fork(d, w.r.Int63())
	}
	parallel(len(ds), func(k int) {
		for _, c := range by[ds[k]] {
			stop, err := ws[k].exec(c)
			errs[k] = err
			if stop || err != nil || ws[k].dead {
				return
			}
		}
	})
	for k, v := range ws {
		if errs[k] != nil {
			return errs[k]
		}
		w.ev = append(w.ev, v.ev...)
		w.last[ds[k]] = v.last[ds[k]]
		w.dead = w.dead || v.dead
		w.hung = w.hung || v.hung
	}
	return nil
}

func runScript(s *script, r *rand.Rand, cur func(string)) (*World, error) {
	w := newWorld(r)
	w.cur = cur
	n := len(s.Calls)
	if s.Par > 0 {
		n = s.Par
	}
	for _, c := range s.Calls[:n] {
		if w.dead {
			break
		}
		stop, err := w.exec(c)
		if err != nil {
			return nil, err
		}
		if stop {
			break
		}
	}
	if s.Par > 0 && !w.dead {
		before := raceSize()
		cur("Conc 1")
		if err := w.concurrently(s.Calls[n:]); err != nil {
			return nil, err
		}
		if raceSize() > before {
			w.do("Race", "d1", nil, nil, nil, nil, func() error { return nil })
		}
	}
	if w.faults != nil && !w.dead {
		w.Save(w.faults.d, true)
	}
	if !w.dead && s.Want != nil {
		w.do("Expect", "", nil, nil, M{"want": s.Want, "tok": tokNames(), "props": s.Props}, nil, func() error { return nil })
	}
	return w, nil
}

func opType(op string) string {
	for i := range op {
		if op[i] == '.' {
			return op[:i]
		}
	}
	return op
}

func scripts(in string, seed int64, first, n int, emit func(trace), setID func(string), cur func(string)) {
	f, err := os.Open(in)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for i := 0; sc.Scan() && i < first+n; i++ {
		if i < first {
			continue
		}
		id := fmt.Sprintf("script/%d/%d", seed, i)
		setID(id)
		var s script
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			panic(err)
		}
		w, err := runScript(&s, rand.New(rand.NewSource(seed*1000003+int64(i))), cur)
		if err != nil {
			fmt.Fprintln(os.Stderr, "verif: "+err.Error())
			os.Exit(1)
		}
		emit(w.finish(id))
	}
	if sc.Err() != nil {
		panic(sc.Err())
	}
}
