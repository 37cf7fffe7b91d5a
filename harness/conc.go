package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"

	docx "github.com/fumiama/go-docx"
)

func raceSize() int64 {
	p := os.Getenv("RACE_LOG")
	if p == "" {
		return 0
	}
	fs, _ := filepath.Glob(p + "*")
	var n int64
	for _, f := range fs {
		if st, err := os.Stat(f); err == nil {
			n += st.Size()
		}
	}
	return n
}

type counterCall struct {
	S int64 `json:"s"`
	E int64 `json:"e"`
	V int64 `json:"v"`
}

// counter asks for numbers of a name from several goroutines
func (w *World) counter(d, name string, workers, each int) {
	var clock int64
	calls := make([][]counterCall, workers)
	q := M{}
	w.do("Counter", d, nil, []string{name}, q, nil, func() error {
		var wg sync.WaitGroup
		start := make(chan struct{})
		var bad atomic.Value
		for g := 0; g < workers; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad.Store(fmt.Sprint(p))
					}
				}()
				<-start
				for i := 0; i < each; i++ {
					s := atomic.AddInt64(&clock, 1)
					v := int64(w.docs[d].IncreaseID(name))
					e := atomic.AddInt64(&clock, 1)
					calls[g] = append(calls[g], counterCall{s, e, v})
					if (g+i)%3 == 0 {
						runtime.Gosched()
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		if p := bad.Load(); p != nil {
			panic(p)
		}
		all := []counterCall{}
		for _, c := range calls {
			all = append(all, c...)
		}
		q["calls"] = all
		return nil
	})
}

// job is a history on one document, with a digest of everything it yields
func job(seed int64, x *docx.Docx, src *docx.Docx, ops int, colors []*docx.APITableBorderColors) (digest string) {
	defer func() {
		if p := recover(); p != nil {
			digest = fmt.Sprint("panic ", p)
		}
	}()
	r := rand.New(rand.NewSource(seed))
	w := newWorld(r)
	w.known["d1"] = map[string]bool{}
	w.colors = append(w.colors, colors...)
	w.add("d1", x)
	sum := ""
	for i := 0; i < ops; i++ {
		if src != nil && i == ops/2 {
			x.AppendFile(src)
		}
		op := pickW(r, map[string]int{"par": 6, "text": 6, "link": 3, "pic": 3, "shape": 2, "table": 1, "twips": 1, "set": 5, "string": 3, "merge": 2, "drop": 1, "save": 1, "cellpar": 1, "refer": 1, "media": 1, "incid": 1, "range": 1})
		if op == "save" {
			var b bytes.Buffer
			n, err := x.WriteTo(&b)
			sum = md5hex([]byte(fmt.Sprint(sum, n == int64(b.Len()), err, partsOf(b.Bytes()))))
			continue
		}
		w.step(op)
		if len(w.ev) > 0 {
			sum = md5hex([]byte(sum + w.ev[len(w.ev)-1]))
		}
		w.ev = nil
		w.dead = false
		if r.Intn(4) == 0 {
			runtime.Gosched()
		}
	}
	var b bytes.Buffer
	if _, err := x.WriteTo(&b); err != nil {
		return "err " + err.Error()
	}
	return sum + partsOf(b.Bytes())
}

// colors are some that the tables of several documents get
func colors(seed int64) []*docx.APITableBorderColors {
	w := newWorld(rand.New(rand.NewSource(seed)))
	for i := 0; i < 9; i++ {
		w.genColors()
	}
	return w.colors
}

// family makes documents that share an origin, the same way each time
func family(kind string, seed int64, n int) (docs []*docx.Docx, src *docx.Docx) {
	r := rand.New(rand.NewSource(seed))
	switch kind {
	case "new":
		for i := 0; i < n; i++ {
			docs = append(docs, docx.New().WithDefaultTheme())
		}
	case "parsed": // from one reader
		data := foreignPkg(r)
		rd := bytes.NewReader(data)
		for i := 0; i < n; i++ {
			d, err := docx.Parse(rd, int64(len(data)))
			if err != nil {
				panic(err)
			}
			docs = append(docs, d)
		}
	case "pieces", "appended":
		data := foreignPkg(r)
		d, err := docx.Parse(bytes.NewReader(data), int64(len(data)))
		if err != nil {
			panic(err)
		}
		for i := 0; i < n; i++ {
			p := d.AddParagraph()
			p.AddText(fmt.Sprint("p", i))
			p.AddLink("l", fmt.Sprint("https://x/", i))
			if _, err := p.AddInlineDrawing(mkImg(3, 3, "png", uint8(i)).data); err != nil {
				panic(err)
			}
		}
		if kind == "appended" {
			for i := 0; i < n; i++ {
				docs = append(docs, docx.New().WithDefaultTheme())
			}
			return docs, d
		}
		docs = d.SplitByParagraph(func(p *docx.Paragraph) bool { return true })
		if len(docs) > n {
			docs = docs[len(docs)-n:]
		}
	}
	return docs, nil
}

// parseAll is what parsing some packages yields
func parseAll(pkgs [][]byte) (digest string) {
	for _, b := range pkgs {
		digest += func() (s string) {
			defer func() {
				if p := recover(); p != nil {
					s = fmt.Sprint("panic ", p)
				}
			}()
			x, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
			if err != nil {
				return "err " + err.Error()
			}
			for _, it := range x.Document.Body.Items {
				s += jstr(project(it))
			}
			var o bytes.Buffer
			_, err = x.WriteTo(&o)
			y := docx.New().WithDefaultTheme()
			p := y.AddParagraph()
			p.AddText("x").Size("20").AddTab()
			y.AppendFile(x)
			return md5hex([]byte(s)) + jstr(relsOf(x)) + partsOf(o.Bytes()) + fmt.Sprint(err, len(y.Document.Body.Items), y.IncreaseID("a"))
		}()
	}
	return
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			f(i)
		}(i)
	}
	close(start)
	wg.Wait()
}

// readers is what read-only operations on one document yield
func readers(x *docx.Docx, which, round int) (digest string) {
	defer func() {
		if p := recover(); p != nil {
			digest = fmt.Sprint("panic ", p)
		}
	}()
	switch which % 6 {
	case 0:
		var b bytes.Buffer
		if _, err := x.WriteTo(&b); err != nil {
			return "err " + err.Error()
		}
		return partsOf(b.Bytes())
	case 1:
		for _, it := range x.Document.Body.Items {
			if s, ok := it.(fmt.Stringer); ok {
				digest = md5hex([]byte(digest + s.String()))
			}
		}
		return
	case 2:
		_ = x.RangeRelationships(func(r *docx.Relationship) error {
			digest += r.ID + r.Target + ";"
			return nil
		})
		return
	case 3:
		for _, r := range relsOf(x) {
			t, err := x.ReferTarget(r.ID)
			id, err2 := x.ReferID(r.Target)
			digest += fmt.Sprint(t, err, id, err2)
		}
		return
	case 4:
		for i := 0; i < 5; i++ {
			if m := x.Media(fmt.Sprintf("image%d.png", i)); m != nil {
				digest += md5hex(m.Data)
			}
		}
		return
	}
	for _, it := range x.Document.Body.Items {
		if p, ok := it.(*docx.Paragraph); ok {
			np := p.MergeText(docx.MergeAllRuns)
			digest = md5hex([]byte(digest + np.String()))
		}
	}
	return
}

func concurrency(seed int64, first, n, ops int, emit func(trace), setID func(string), cur func(string)) {
	kinds := []string{"new", "parsed", "pieces", "appended"}
	for i := first; i < first+n; i++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		id := fmt.Sprintf("conc/%d/%d", seed, i)
		setID(id)
		w := newWorld(r)
		w.cur = cur
		before := raceSize()
		d := w.New()
		runtime.GOMAXPROCS([]int{8, 2, 4, 8}[i%4])
		switch i % 4 {
		case 3: // parsing, each package of its own
			cur("Conc parse 1")
			same := []bool{}
			w.do("Conc", d, nil, []string{"parse"}, M{"same": &same}, nil, func() error {
				n := 4 + r.Intn(4)
				pkgs := make([][][]byte, n)
				for k := range pkgs {
					for j := 0; j < 3; j++ {
						if r.Intn(4) == 0 {
							pkgs[k] = append(pkgs[k], wildPkg(r))
						} else {
							pkgs[k] = append(pkgs[k], foreignPkg(r))
						}
					}
				}
				got := make([]string, n)
				parallel(n, func(k int) { got[k] = parseAll(pkgs[k]) })
				for k := range got {
					same = append(same, got[k] == parseAll(pkgs[k]))
				}
				return nil
			})
		case 0:
			for k := 0; k < 4; k++ {
				w.counter(d, fmt.Sprint("n", k), 2+r.Intn(7), 3+r.Intn(20))
			}
		case 1: // different documents
			kind := kinds[(i/4)%len(kinds)]
			cur("Conc different documents: " + kind)
			fam, workers := r.Int63(), 3+r.Intn(4)
			same := []bool{}
			w.do("Conc", d, nil, []string{kind}, M{"same": &same}, nil, func() error {
				seqDocs, src := family(kind, fam, workers)
				want := make([]string, len(seqDocs))
				for k, x := range seqDocs {
					want[k] = job(fam+int64(k), x, src, ops, colors(fam))
				}
				conDocs, src2 := family(kind, fam, workers)
				got := make([]string, len(conDocs))
				cs := colors(fam)
				parallel(len(conDocs), func(k int) { got[k] = job(fam+int64(k), conDocs[k], src2, ops, cs) })
				for k := range want {
					same = append(same, got[k] == want[k])
				}
				return nil
			})
		case 2: // readers of one document
			cur("Conc readers")
			same := []bool{}
			w.do("Conc", d, nil, []string{"readers"}, M{"same": &same}, nil, func() error {
				fam, _ := family([]string{"new", "parsed", "pieces"}[(i/4)%3], r.Int63(), 3)
				x := fam[len(fam)-1]
				job(r.Int63(), x, nil, ops, nil)
				nw := 12
				want := make([]string, nw)
				for k := range want {
					want[k] = readers(x, k, 0)
				}
				got := make([]string, nw)
				parallel(nw, func(k int) {
					for j := 0; j < 3; j++ {
						if g := readers(x, k, j); j == 0 || g != want[k] {
							got[k] = g
						}
					}
				})
				for k := range want {
					same = append(same, got[k] == want[k])
				}
				return nil
			})
		}
		if raceSize() > before {
			w.do("Race", d, nil, nil, nil, nil, func() error { return nil })
		}
		emit(w.finish(id))
	}
	runtime.GOMAXPROCS(8)
}
