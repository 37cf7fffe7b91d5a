package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"sort"
	"sync/atomic"
	"testing/fstest"

	docx "github.com/fumiama/go-docx"
)

var errFault = errors.New("injected fault")

// faultWriter fails at a byte offset
type faultWriter struct {
	kind string
	at   int
	got  bytes.Buffer // what it accepted
	done bool         // the fault happened
}

func (w *faultWriter) Write(p []byte) (int, error) {
	n := w.got.Len()
	if n+len(p) <= w.at || (w.done && (w.kind == "transient" || w.kind == "shortonce")) {
		return w.got.Write(p)
	}
	k := w.at - n
	if k < 0 {
		k = 0
	}
	again := w.done
	w.done = true
	switch w.kind {
	case "short", "shortonce": // takes some bytes and gives no error
		if w.kind == "short" && again {
			return 0, errFault
		}
		w.got.Write(p[:k])
		return k, nil
	case "late": // takes everything, but gives an error
		if n >= w.at {
			return 0, errFault
		}
		w.got.Write(p)
		return len(p), errFault
	default: // fail, transient
		w.got.Write(p[:k])
		return k, errFault
	}
}

// faultFS counts open files and fails on opening or reading one of them
type faultFS struct {
	fs.FS
	kind string // "", open, read, slow
	slow string
	name string
	at   int
	err  error
	open int64
	hit  bool
}

// faultErrs are errors of failing files, some of which have a meaning of their own elsewhere
var faultErrs = []error{errFault, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe, fs.ErrNotExist, fs.ErrPermission,
	fs.ErrClosed, fs.ErrInvalid, os.ErrDeadlineExceeded, fmt.Errorf("read: %w", io.EOF), fmt.Errorf("wrapped: %w", fs.ErrNotExist), errors.New("EOF")}

type faultFile struct {
	fs.File
	f      *faultFS
	fault  bool
	slow   string // an unusual but correct reader
	turn   int
	n      int
	closed bool
}

func (f *faultFS) Open(name string) (fs.File, error) {
	if f.kind == "open" && name == f.name {
		f.hit = true
		if f.err != nil {
			return nil, &fs.PathError{Op: "open", Path: name, Err: f.err}
		}
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	x, err := f.FS.Open(name)
	if err != nil {
		return nil, err
	}
	atomic.AddInt64(&f.open, 1)
	y := &faultFile{File: x, f: f, fault: f.kind == "read" && name == f.name}
	if f.kind == "slow" && name == f.name {
		y.slow = f.slow
	}
	return y, nil
}

func (x *faultFile) Read(p []byte) (int, error) {
	switch x.slow {
	case "bytes":
		if len(p) > 1 {
			p = p[:1]
		}
	case "zero":
		if x.turn++; x.turn%2 == 1 {
			return 0, nil
		}
	case "dataeof": // the end comes along with the last bytes
		n, err := io.ReadFull(x.File, p)
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
		if err == nil && len(p) > 0 {
			return n, nil
		}
		return n, err
	}
	if x.fault && x.n >= x.f.at {
		x.f.hit = true
		return 0, x.f.err
	}
	if x.fault && len(p) > x.f.at-x.n {
		p = p[:x.f.at-x.n]
	}
	n, err := x.File.Read(p)
	x.n += n
	if x.fault && err == io.EOF {
		x.f.hit = true
		return n, x.f.err
	}
	return n, err
}

func (x *faultFile) Close() error {
	if !x.closed {
		x.closed = true
		atomic.AddInt64(&x.f.open, -1)
	}
	return x.File.Close()
}

// faultAt fails reads of the parsed package
type faultAt struct {
	r   *bytes.Reader
	at  int64 // -1: good
	err error
	hit bool
}

func (f *faultAt) ReadAt(p []byte, off int64) (int, error) {
	if f.at >= 0 && off+int64(len(p)) > f.at {
		f.hit = true
		return 0, f.err
	}
	return f.r.ReadAt(p, off)
}

func partsOf(data []byte) string {
	names, parts, err := unzip(data)
	if err != nil {
		return "broken: " + err.Error()
	}
	sort.Strings(names)
	s := ""
	for _, n := range names {
		if n == partCT { // the order of declarations does not matter
			if ct, err := readCt(parts[n]); err == nil {
				s += n + "=" + jstr(ct) + ";"
				continue
			}
		}
		s += n + "=" + md5hex(parts[n]) + ";"
	}
	return s
}

type faultKey struct {
	out, kind                string
	complete, counted, again bool
	open                     int64
}

type faultRun struct {
	w      *World
	d      string
	fsys   *faultFS
	at     *faultAt
	good   string
	length int
	groups map[faultKey][]string
	order  []faultKey
	// for scripts
	list   []part
	prefix string
	edits  int
	stale  bool // good is of another version
}

func (f *faultRun) try(kind, where string, w io.Writer, buf *bytes.Buffer) string {
	var n int64
	if f.fsys != nil {
		f.fsys.open, f.fsys.hit = 0, false
	}
	if f.at != nil {
		f.at.hit = false
	}
	out, msg := call(func() (err error) {
		n, err = f.w.docs[f.d].WriteTo(w)
		return err
	})
	k := faultKey{out: out, kind: kind}
	if f.fsys != nil {
		k.open = f.fsys.open
		if f.fsys.kind != "" && !f.fsys.hit && kind != "both" {
			k.kind = "none"
		}
		f.fsys.kind = ""
	}
	if f.at != nil {
		if f.at.at >= 0 && !f.at.hit {
			k.kind = "none"
		}
		f.at.at = -1
	}
	k.complete = partsOf(buf.Bytes()) == f.good
	k.counted = n == int64(buf.Len()) || out == "panic" || out == "hang"
	k.again = true
	if out != "hang" {
		var again bytes.Buffer
		o2, _ := call(func() error { _, err := f.w.docs[f.d].WriteTo(&again); return err })
		k.again = o2 == "ok" && partsOf(again.Bytes()) == f.good
	}
	if _, ok := f.groups[k]; !ok {
		f.order = append(f.order, k)
	}
	if len(f.groups[k]) < 8 {
		if msg != "" && len(f.groups[k]) == 0 && out == "panic" {
			where += " " + msg
		}
		f.groups[k] = append(f.groups[k], where)
	} else {
		f.groups[k][7] = where
	}
	return out
}

// faults saves documents with faults at all places
func faults(seed int64, first, n, places int, emit func(trace), setID func(string), cur func(string)) {
	for i := first; i < first+n; i++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		id := fmt.Sprintf("fault/%d/%d", seed, i)
		setID(id)
		w := newWorld(r)
		w.cur = cur
		f := &faultRun{w: w, groups: map[faultKey][]string{}}
		var list []part
		kind := []string{"tmpl", "parsed", "themed", "tmpl", "new", "piece", "parsed", "tmplsplit"}[i%8]
		prefix := ""
		switch kind {
		case "new":
			f.d = w.New()
		case "themed":
			f.d = w.New()
			f.fsys = &faultFS{FS: docx.TemplateXMLFS}
			for _, name := range docx.DefaultTemplateFilesList {
				b, err := docx.TemplateXMLFS.ReadFile("xml/default/" + name)
				if err != nil {
					panic(err)
				}
				list = append(list, part{name, b})
			}
			prefix = "xml/default/"
			w.useTemplate(f.d, "default", docx.DefaultTemplateFilesList, f.fsys, list)
		case "tmpl", "tmplsplit":
			f.d = w.New()
			name, names, fsys, ps := genTemplate(r)
			f.fsys = &faultFS{FS: fsys}
			list = ps
			if name != "" {
				prefix = "xml/" + name + "/"
			}
			w.useTemplate(f.d, name, names, f.fsys, ps)
		case "parsed", "piece":
			data := foreignPkg(r)
			f.at = &faultAt{r: bytes.NewReader(data), at: -1}
			f.d = w.parseAt(data, f.at)
			if f.d == "" {
				emit(w.finish(id))
				continue
			}
		}
		for j := r.Intn(12); j > 0; j-- {
			op := pickW(r, map[string]int{"par": 5, "text": 5, "pic": 3, "link": 2, "table": 1, "shape": 1, "page": 1, "set": 2, "string": 1})
			w.step(op)
		}
		if kind == "piece" || kind == "tmplsplit" {
			w.AddParagraph(f.d)
			if ps := w.Split(f.d, func(k int, _ *docx.Paragraph) bool { return k%2 == 1 }); len(ps) > 0 {
				f.d = ps[r.Intn(len(ps))]
			}
		}
		if w.dead {
			emit(w.finish(id))
			continue
		}
		var buf bytes.Buffer
		if out, _ := call(func() error { _, err := w.docs[f.d].WriteTo(&buf); return err }); out != "ok" {
			w.Save(f.d, false) // reports it
			emit(w.finish(id))
			continue
		}
		f.good, f.length = partsOf(buf.Bytes()), buf.Len()
		w.Save(f.d, false)
		bad := 0
		run := func(kind, where string, fw io.Writer, b *bytes.Buffer) {
			if bad < 3 {
				cur("Fault " + kind + " " + where)
				if o := f.try(kind, where, fw, b); o == "panic" || o == "hang" {
					bad++
				}
			}
		}
		// the writer
		step := 1
		if f.length > 2*places {
			step = 1 + f.length/places
		}
		for _, wk := range []string{"fail", "short", "transient", "shortonce", "late"} {
			for at := r.Intn(step); at <= f.length; at += step {
				fw := &faultWriter{kind: wk, at: at}
				run("writer-"+wk, fmt.Sprint(at), fw, &fw.got)
			}
			for _, at := range []int{0, f.length - 1, f.length, 4095, 4096, 4097} {
				if at <= f.length {
					fw := &faultWriter{kind: wk, at: at}
					run("writer-"+wk, fmt.Sprint(at), fw, &fw.got)
				}
			}
		}
		// the template
		if f.fsys != nil {
			for _, p := range list {
				b := &bytes.Buffer{}
				f.fsys.kind, f.fsys.name, f.fsys.err = "open", prefix+p.name, faultErrs[r.Intn(len(faultErrs))]
				run("open", fmt.Sprintf("%s %v", p.name, f.fsys.err), b, b)
				offs := []int{0, 1, len(p.data) / 2, len(p.data) - 1, len(p.data), 512, 4096}
				for _, at := range offs {
					if at < 0 || at > len(p.data) {
						continue
					}
					b := &bytes.Buffer{}
					f.fsys.kind, f.fsys.name, f.fsys.at, f.fsys.err = "read", prefix+p.name, at, faultErrs[r.Intn(len(faultErrs))]
					run("read", fmt.Sprintf("%s@%d %v", p.name, at, f.fsys.err), b, b)
					// and the writer too
					fw := &faultWriter{kind: "fail", at: r.Intn(f.length)}
					f.fsys.kind, f.fsys.name, f.fsys.at = "read", prefix+p.name, at
					run("both", fmt.Sprintf("%s@%d", p.name, at), fw, &fw.got)
				}
			}
		}
		if f.at != nil {
			for k := 0; k < places; k++ {
				b := &bytes.Buffer{}
				f.at.at, f.at.err = int64(r.Intn(int(f.at.r.Size())+1)), faultErrs[r.Intn(len(faultErrs))]
				run("read", fmt.Sprint(f.at.at, f.at.err), b, b)
			}
		}
		f.report()
		w.Save(f.d, true)
		emit(w.finish(id))
	}
}

// faultDoc makes the document whose saves are disturbed
func (w *World) faultDoc(kind string) {
	f := &faultRun{w: w, groups: map[faultKey][]string{}, stale: true}
	big := make([]byte, 9000)
	w.r.Read(big)
	ct := xmlTypes(w.r, map[string]string{"xml": "application/xml", "rels": "application/vnd.openxmlformats-package.relationships+xml", "png": "image/png", "bin": "application/octet-stream"},
		map[string]string{"/word/document.xml": "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"})
	f.list = []part{{partCT, ct}, {"_rels/.rels", xmlRels(w.r, []Rel{{"rId1", relBase + "officeDocument", "word/document.xml", ""}})}, {"word/big.bin", big}, {"word/styles.xml", []byte("<styles/>")}}
	switch kind {
	case "themed":
		f.d = w.New()
		f.prefix = "xml/t/"
		m := fstest.MapFS{}
		names := []string{}
		for _, p := range f.list {
			m[f.prefix+p.name] = &fstest.MapFile{Data: p.data}
			names = append(names, p.name)
		}
		f.fsys = &faultFS{FS: m}
		w.useTemplate(f.d, "t", names, f.fsys, f.list)
	default:
		x := &XNode{T: "w:document", C: []*XNode{{T: "w:body", C: []*XNode{{T: "w:p"}, {T: "w:p"}}}}}
		ps := append([]part{{partDoc, newNoise(w.r, 1).serialize(x)}, {partRels, xmlRels(w.r, nil)}}, f.list...)
		data := buildZip(ps, nil)
		f.at = &faultAt{r: bytes.NewReader(data), at: -1}
		if f.d = w.parseAt(data, f.at); f.d == "" {
			return
		}
		if kind == "piece" {
			if l := w.Split(f.d, func(int, *docx.Paragraph) bool { return true }); len(l) > 0 {
				f.d = l[0]
			}
		}
	}
	w.faults = f
	w.AddParagraph(f.d)
	if t := w.pick(f.d, "Paragraph"); t != nil {
		w.AddText(f.d, t, "text")
		w.AddPic(f.d, t, "Inline", tokens["A"])
	}
}

// faultEdit changes the document
func (w *World) faultEdit() {
	f := w.faults
	f.edits++
	f.stale = true
	w.AddParagraph(f.d)
	if t := w.pick(f.d, "Paragraph"); t != nil {
		w.AddText(f.d, t, fmt.Sprint("edit ", f.edits))
		if f.edits%2 == 1 {
			w.AddPic(f.d, t, "Anchor", tokens["B"])
		}
	}
}

// faultSave saves with one fault; at is a place of a part of 2 pieces or of an output of pieces
func (w *World) faultSave(on, kind string, part, at, chunks, total int) {
	f := w.faults
	if f.stale {
		var buf bytes.Buffer
		if out, _ := call(func() error { _, err := w.docs[f.d].WriteTo(&buf); return err }); out != "ok" {
			w.Save(f.d, false) // reports it
			w.dead = true
			return
		}
		f.good, f.length, f.stale = partsOf(buf.Bytes()), buf.Len(), false
	}
	errs := []error{errFault, fs.ErrPermission, io.ErrClosedPipe}
	switch kind {
	case "eof":
		errs = []error{io.ErrUnexpectedEOF, fmt.Errorf("read: %w", io.EOF), errors.New("EOF"), io.ErrShortBuffer, io.ErrNoProgress}
	case "missing":
		errs = []error{fs.ErrNotExist}
	case "denied":
		errs = []error{fs.ErrPermission, fs.ErrInvalid, fs.ErrClosed}
	}
	err := errs[w.r.Intn(len(errs))]
	b := &bytes.Buffer{}
	var wr io.Writer = b
	name := on
	switch on {
	case "open", "read", "slow":
		p := f.list[(part-1)%len(f.list)]
		off := len(p.data) * at / chunks
		if f.fsys != nil {
			f.fsys.kind, f.fsys.name, f.fsys.at, f.fsys.err, f.fsys.slow = on, f.prefix+p.name, off, err, kind
		} else if on != "slow" { // the place in the package
			f.at.at, f.at.err = f.at.r.Size()*int64((part-1)*(chunks+1)+at)/int64(len(f.list)*(chunks+1)), err
		}
		if on == "slow" {
			name = "none"
		}
	case "write":
		name = "writer-" + kind
		k := f.length * at / total
		if at > 0 && w.r.Intn(2) == 0 {
			k = k - f.length/total + w.r.Intn(f.length/total+1)
		}
		fw := &faultWriter{kind: kind, at: k}
		b, wr = &fw.got, fw
	}
	f.groups, f.order = map[faultKey][]string{}, nil
	f.try(name, fmt.Sprint(part, "@", at), wr, b)
	f.report()
}

func (f *faultRun) report() {
	for _, k := range f.order {
		out := k.out
		f.w.do("Fault", f.d, nil, f.groups[k], M{"kind": k.kind, "complete": k.complete, "counted": k.counted, "open": k.open, "again": k.again}, nil, func() error {
			switch out {
			case "err":
				return errFault
			case "panic", "hang":
				panic(out)
			}
			return nil
		})
	}
}

// parseAt parses from a reader that may fail later
func (w *World) parseAt(data []byte, at io.ReaderAt) string {
	name := w.fresh()
	pk := pkgInfo(data)
	out := w.do("Parse", name, nil, nil, M{"wild": false, "pkg": pk}, nil, func() error {
		x, err := docx.Parse(at, int64(len(data)))
		if err != nil {
			return err
		}
		w.known[name] = mediaNames(pk)
		w.tmpl[name], w.parsed[name] = true, true
		w.add(name, x)
		return nil
	})
	if out != "ok" {
		return ""
	}
	return name
}
