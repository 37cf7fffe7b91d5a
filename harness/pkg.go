package main

import (
	"archive/zip"
	"bytes"
	"io"
	"math/rand"
	"path"
	"strings"
)

// Pkg describes a package (a saved one or the input of Parse)
type Pkg struct {
	Zip   bool              `json:"zip"`
	Parts map[string]string `json:"parts"`
	Ext   map[string]string `json:"ext"`
	Dups  []string          `json:"dups"`
	Bad   []string          `json:"bad"`
	Doc   *XNode            `json:"doc"`
	Rels  []Rel             `json:"rels"`
	Ct    Ct                `json:"ct"`
	Off   []string          `json:"off"`
}

// Ct is the content of [Content_Types].xml
type Ct struct {
	D map[string]string `json:"d"`
	O map[string]string `json:"o"`
}

const (
	partDoc  = "word/document.xml"
	partRels = "word/_rels/document.xml.rels"
	partCT   = "[Content_Types].xml"
)

func lowerExt(name string) string {
	return strings.ToLower(strings.TrimPrefix(path.Ext(path.Base(name)), "."))
}

func readCt(data []byte) (Ct, error) {
	ct := Ct{map[string]string{}, map[string]string{}}
	x, err := parseXML(data)
	if err != nil {
		return ct, err
	}
	for _, c := range x.C {
		switch c.T {
		case "ct:Default":
			ct.D[strings.ToLower(c.A["Extension"])] = c.A["ContentType"]
		case "ct:Override":
			ct.O[c.A["PartName"]] = c.A["ContentType"]
		}
	}
	return ct, nil
}

func readRels(data []byte) ([]Rel, error) {
	rels := []Rel{}
	x, err := parseXML(data)
	if err != nil {
		return rels, err
	}
	if x.T != "rel:Relationships" {
		return rels, io.ErrUnexpectedEOF
	}
	for _, c := range x.C {
		if c.T == "rel:Relationship" {
			rels = append(rels, Rel{c.A["Id"], c.A["Type"], c.A["Target"], c.A["TargetMode"]})
		}
	}
	return rels, nil
}

func unzip(data []byte) (names []string, parts map[string][]byte, err error) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, nil, err
	}
	parts = map[string][]byte{}
	for _, f := range zr.File {
		if strings.HasSuffix(f.Name, "/") {
			continue
		}
		rc, err := f.Open()
		if err != nil {
			return nil, nil, err
		}
		b, err := io.ReadAll(rc)
		if err != nil {
			return nil, nil, err
		}
		_ = rc.Close()
		names = append(names, f.Name)
		parts[f.Name] = b
	}
	return
}

func pkgInfo(data []byte) *Pkg {
	p := &Pkg{Parts: map[string]string{}, Ext: map[string]string{}, Dups: []string{}, Bad: []string{}, Rels: []Rel{},
		Ct: Ct{map[string]string{}, map[string]string{}}, Off: []string{}, Doc: &XNode{T: "none"}}
	names, parts, err := unzip(data)
	if err != nil {
		return p
	}
	p.Zip = true
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] {
			p.Dups = append(p.Dups, n)
		}
		seen[n] = true
		p.Parts[n] = md5hex(parts[n])
		p.Ext[n] = lowerExt(n)
	}
	if b, ok := parts[partDoc]; ok {
		x, err := parseXML(b)
		if err != nil {
			p.Bad = append(p.Bad, partDoc+": "+err.Error())
		} else {
			p.Doc = x
		}
	} else {
		p.Bad = append(p.Bad, "no "+partDoc)
	}
	if b, ok := parts[partRels]; ok {
		p.Rels, err = readRels(b)
		if err != nil {
			p.Bad = append(p.Bad, partRels+": "+err.Error())
		}
	}
	if b, ok := parts[partCT]; ok {
		p.Ct, err = readCt(b)
		if err != nil {
			p.Bad = append(p.Bad, partCT+": "+err.Error())
		}
	}
	if b, ok := parts["_rels/.rels"]; ok {
		if rs, err := readRels(b); err == nil {
			for _, r := range rs {
				if strings.HasSuffix(r.Type, "/officeDocument") {
					p.Off = append(p.Off, r.Target)
				}
			}
		}
	}
	return p
}

// ---- building packages ---------------------------------------------------------

type part struct {
	name string
	data []byte
}

func buildZip(parts []part, r *rand.Rand) []byte {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	ps := append([]part{}, parts...)
	if r != nil {
		if r.Intn(2) == 0 {
			r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		}
		if r.Intn(3) == 0 {
			for _, d := range []string{"word/", "word/media/", "_rels/"} {
				if _, err := zw.CreateHeader(&zip.FileHeader{Name: d}); err != nil {
					panic(err)
				}
			}
		}
	}
	for _, p := range ps {
		h := &zip.FileHeader{Name: p.name, Method: zip.Deflate}
		if r != nil && r.Intn(3) == 0 {
			h.Method = zip.Store
		}
		w, err := zw.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		if strings.HasSuffix(p.name, "/") {
			continue
		}
		if _, err = w.Write(p.data); err != nil {
			panic(err)
		}
	}
	if err := zw.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}
