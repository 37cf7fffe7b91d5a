package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"strings"
	"testing/fstest"

	docx "github.com/fumiama/go-docx"
)

const relBase = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"

// Foreign is a package of other software
type Foreign struct {
	parts []part
	items []*Node
	rels  []Rel
	media map[string][]byte
}

func xmlRels(r *rand.Rand, rels []Rel) []byte {
	root := &XNode{T: "rel:Relationships", A: map[string]string{}}
	for _, x := range rels {
		a := map[string]string{"Id": x.ID, "Type": x.Type, "Target": x.Target}
		if x.Mode != "" {
			a["TargetMode"] = x.Mode
		}
		root.C = append(root.C, &XNode{T: "rel:Relationship", A: a})
	}
	return newNoise(r, 1).serialize(root)
}

var mediaExt = map[string]string{"png": "image/png", "jpeg": "image/jpeg", "jpg": "image/jpeg", "gif": "image/gif", "webp": "image/webp", "emf": "image/x-emf",
	"bin": "application/octet-stream", "jfif": "image/jpeg", "PNG": "image/png", "wdp": "image/vnd.ms-photo"}

func xmlTypes(r *rand.Rand, def, ovr map[string]string) []byte {
	root := &XNode{T: "ct:Types", A: map[string]string{}}
	for _, k := range sortedKeys(def) {
		root.C = append(root.C, &XNode{T: "ct:Default", A: map[string]string{"Extension": k, "ContentType": def[k]}})
	}
	for _, k := range sortedKeys(ovr) {
		root.C = append(root.C, &XNode{T: "ct:Override", A: map[string]string{"PartName": k, "ContentType": ovr[k]}})
	}
	r.Shuffle(len(root.C), func(i, j int) { root.C[i], root.C[j] = root.C[j], root.C[i] })
	return newNoise(r, 1).serialize(root)
}

func genRid(r *rand.Rand, style, i int) string {
	switch style {
	case 0:
		return fmt.Sprintf("rId%d", i)
	case 1:
		return fmt.Sprintf("R%08x", r.Uint32())
	case 2:
		return fmt.Sprintf("rId%d", i*7+3)
	case 3:
		return fmt.Sprintf("link_%d", i)
	case 4:
		return fmt.Sprintf("rId%03d", i)
	case 5:
		return fmt.Sprintf("rId%d", 9999999999-i)
	default:
		if r.Intn(3) == 0 {
			return []string{"r", "R", "rI", "rId", "1", "a", "d", "é"}[r.Intn(8)] + []string{"", fmt.Sprint(i)}[r.Intn(2)]
		}
		return []string{"rIdA", "rId-", "x y", "rId1x", "relId", "RID", "id\u00e9", "_"}[r.Intn(8)] + fmt.Sprint(i)
	}
}

// genForeign makes the parts of a package
func genForeign(r *rand.Rand) *Foreign { return genWide(r, "", 0) }

// large is some content of a part that does not fit into usual buffers
func large(r *rand.Rand) []byte {
	n := []int{4097, 32769, 65537, 70000, 200000, 1<<20 + 1, 3 << 20}[r.Intn(7)] + r.Intn(3)
	b := make([]byte, n)
	r.Read(b[:n/2])
	return b
}

// genWide makes the parts of a package with n of something
func genWide(r *rand.Rand, wide string, wideN int) *Foreign {
	f := &Foreign{media: map[string][]byte{}}
	def := map[string]string{"rels": "application/vnd.openxmlformats-package.relationships+xml"}
	ovr := map[string]string{}
	if r.Intn(4) != 0 {
		def["xml"] = "application/xml"
	}
	ovr["/word/document.xml"] = "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"
	add := func(name string, data []byte, typ string) {
		f.parts = append(f.parts, part{name, data})
		if typ != "" {
			ovr["/"+name] = typ
		}
	}
	var off []Rel
	off = append(off, Rel{"rId1", relBase + "officeDocument", []string{"word/document.xml", "/word/document.xml", "./word/document.xml"}[r.Intn(3)], ""})
	// relationships of the document
	style := r.Intn(7)
	n := 0
	rel := func(typ, target, mode string) string {
		n++
		id := genRid(r, style, n)
		for _, x := range f.rels {
			if x.ID == id {
				id += "d"
			}
		}
		f.rels = append(f.rels, Rel{id, typ, target, mode})
		return id
	}
	extra := func(name, typ string) {
		rel(relBase+typ, []string{name, "/word/" + name}[r.Intn(2)], "")
		add("word/"+name, []byte(fmt.Sprintf("<?xml version=\"1.0\"?>\n<w:x%d xmlns:w=\"http://x\"/>", r.Intn(100))), "application/vnd.openxmlformats-officedocument.wordprocessingml."+typ+"+xml")
	}
	if r.Intn(3) != 0 {
		extra("styles.xml", "styles")
	}
	if r.Intn(3) == 0 {
		extra("settings.xml", "settings")
	}
	var relsOf []string
	if r.Intn(3) == 0 {
		extra("header1.xml", "header")
		relsOf = append(relsOf, "header1.xml")
	}
	if r.Intn(5) == 0 {
		extra("footer2.xml", "footer")
		relsOf = append(relsOf, "footer2.xml")
	}
	if r.Intn(8) == 0 {
		extra("footnotes.xml", "footnotes")
		relsOf = append(relsOf, "footnotes.xml")
	}
	if r.Intn(3) == 0 {
		extra("theme/theme1.xml", "theme")
	}
	if r.Intn(4) == 0 {
		add("docProps/core.xml", []byte("<core/>"), "application/vnd.openxmlformats-package.core-properties+xml")
		off = append(off, Rel{"rId7", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", "docProps/core.xml", ""})
	}
	if r.Intn(6) == 0 {
		b := make([]byte, r.Intn(5000))
		r.Read(b)
		if r.Intn(3) == 0 {
			b = large(r)
		}
		def["dat"] = "application/octet-stream"
		add([]string{"word/embeddings/x.dat", "customXml/a b.dat", "x.dat"}[r.Intn(3)], b, "")
	}
	if r.Intn(3) == 0 { // empty parts, and parts named like others
		def["dat"], def["png"] = "application/octet-stream", "image/png"
		for i, k := range r.Perm(10)[:1+r.Intn(3)] {
			b := make([]byte, r.Intn(60))
			r.Read(b)
			if i == 0 && r.Intn(2) == 0 {
				b = nil
			}
			add([]string{"word/glossary/media/g.png", "customXml/media/image1.png", "media/image1.png", "word/mediax/a.png", "word/glossary/document.dat",
				"xword/media/i.png", "word/document.xml.dat", "docProps/thumbnail.png", "word/media.dat", "word/glossary/_rels/document.xml.rels"}[k], b, "")
		}
	}
	// media
	g := &GenOpt{p: []int{3, 10, 25, 50, 80}[r.Intn(5)], width: 1 + r.Intn(5), budget: 150, foreign: true}
	g.draw = r.Intn(3) == 0
	nm := r.Intn(4)
	if wide == "media" {
		nm = wideN
	}
	used := map[string]bool{}
	for i := 1; i <= nm; i++ {
		im := genImg(r)
		ext := im.ext
		name := fmt.Sprintf("image%d.%s", i, ext)
		switch r.Intn(7) {
		case 0:
			ext = []string{"bin", "jfif", "PNG", "emf", "wdp"}[r.Intn(5)]
			name = fmt.Sprintf("image%d.%s", i, ext)
		case 1:
			name = fmt.Sprintf("image%d.%s", 100000+i, ext)
		case 2:
			name = fmt.Sprintf("pic %d.%s", i, ext)
		case 3:
			name = fmt.Sprintf("Photo-%d.x.%s", r.Intn(9), ext)
		case 5: // the name of another one in a folder
			name = []string{"sub/", "a/b/", "media/", "word/media/"}[r.Intn(4)] + fmt.Sprintf("image%d.%s", 1+r.Intn(i), ext)
		case 4:
			if r.Intn(3) == 0 {
				ext = ""
				name = fmt.Sprintf("image%d", i)
			}
		}
		if used[strings.ToLower(name)] {
			continue
		}
		used[strings.ToLower(name)] = true
		f.media[name] = im.data
		if r.Intn(12) == 0 {
			im = &Img{}
			f.media[name] = nil
		} else if r.Intn(20) == 0 {
			im = &Img{data: append(append([]byte{}, im.data...), large(r)...)}
			f.media[name] = im.data
		}
		add("word/media/"+name, im.data, "")
		if r.Intn(4) == 0 || ext == "" {
			ovr["/word/media/"+name] = mediaExt[ext]
			if ext == "" {
				ovr["/word/media/"+name] = "image/png"
			}
		} else {
			def[ext] = mediaExt[ext]
		}
		for j := r.Intn(3); j > 0; j-- {
			g.images = append(g.images, rel(relBase+"image", []string{"media/", "/word/media/", "./media/", "../word/media/"}[r.Intn(4)]+name, ""))
		}
	}
	nl := r.Intn(4)
	if wide == "links" {
		nl = wideN
	}
	for i := nl; i > 0; i-- {
		g.links = append(g.links, rel(relBase+"hyperlink", []string{"https://example.com", "http://a.b/?c=d&e=f", "mailto:q@w", fmt.Sprintf("https://h/%d", r.Intn(5))}[r.Intn(4)], "External"))
	}
	if r.Intn(3) == 0 {
		r.Shuffle(len(f.rels), func(i, j int) { f.rels[i], f.rels[j] = f.rels[j], f.rels[i] })
	}
	for i := r.Intn(5); i >= 0; i-- {
		f.items = append(f.items, genNode(r, []string{"Paragraph", "Paragraph", "Paragraph", "Table", "SectPr"}[r.Intn(5)], g, 0))
	}
	switch wide {
	case "":
	case "parts":
		def["dat"] = "application/octet-stream"
		for i := wideN; i > 0; i-- {
			b := make([]byte, r.Intn(9))
			r.Read(b)
			add(fmt.Sprintf("customXml/item%d.dat", i), b, "")
		}
	case "Body":
		g.p, g.width = 5, 1
		for i := wideN; i > 0; i-- {
			g.budget = 4
			f.items = append(f.items, genNode(r, []string{"Paragraph", "Paragraph", "Paragraph", "Paragraph", "Table", "SectPr"}[r.Intn(6)], g, 0))
		}
	case "media", "links":
		t := "Run"
		p := newNode("Paragraph")
		for i := 0; i < wideN; i++ {
			g.budget = 6
			var x *Node
			if wide == "links" {
				t, x = "Hyperlink", genNode(r, "Hyperlink", g, 5)
				x.A["ID"] = g.links[i%len(g.links)]
			} else if len(g.images) > 0 {
				x = picRun(g.images[i%len(g.images)], i+1)
			} else {
				x = genNode(r, t, g, 5)
			}
			p.L = append(p.L, x)
			if r.Intn(4) == 0 {
				f.items = append(f.items, p)
				p = newNode("Paragraph")
			}
		}
		f.items = append(f.items, p)
	default:
		f.items = append(f.items, wideItem(r, wide, wideN, g))
	}
	// relationships of other parts, with the same ids and images
	for _, k := range relsOf {
		if r.Intn(3) == 0 {
			continue
		}
		var rs []Rel
		for j := r.Intn(4); j >= 0; j-- {
			x := Rel{fmt.Sprintf("rId%d", j+1), relBase + "hyperlink", fmt.Sprintf("https://other/%d", j), "External"}
			if len(f.rels) > 0 && r.Intn(2) == 0 {
				x.ID = f.rels[r.Intn(len(f.rels))].ID
			}
			if ns := sortedKeys(map0(used)); len(ns) > 0 && r.Intn(2) == 0 {
				for _, p := range f.parts {
					if strings.HasPrefix(p.name, "word/media/") && (x.Mode == "External" || r.Intn(3) == 0) {
						x.Type, x.Target, x.Mode = relBase+"image", p.name[len("word/"):], ""
					}
				}
			}
			rs = append(rs, x)
		}
		add("word/_rels/"+k+".rels", xmlRels(r, rs), "")
	}
	f.parts = append(f.parts, part{"_rels/.rels", xmlRels(r, off)}, part{partCT, xmlTypes(r, def, ovr)})
	return f
}

func (f *Foreign) docBytes(r *rand.Rand) []byte {
	x := &XGen{r: r, foreign: true}
	if r.Intn(4) == 0 {
		x.foreign = false
	}
	return newNoise(r, r.Intn(4)).serialize(x.docXML(f.items))
}

func foreignPkg(r *rand.Rand) []byte { return forgPkg(r, genForeign(r)) }

// bulkPkg is a package with much of something
func bulkPkg(r *rand.Rand) []byte {
	n := boundary(r)
	k := r.Intn(len(wideTypes) + 4)
	if k < len(wideTypes) {
		return forgPkg(r, genWide(r, wideTypes[k], n))
	}
	if n > 140 {
		n = 140
	}
	return forgPkg(r, genWide(r, []string{"media", "links", "parts", "media"}[k-len(wideTypes)], n))
}

func map0(m map[string]bool) map[string]string {
	x := map[string]string{}
	for k := range m {
		x[k] = k
	}
	return x
}

// picRun is a run with a picture
func picRun(embed string, id int) *Node {
	kid := func(n *Node, f, t string) *Node {
		c := newNode(t)
		n.O[f] = c
		return c
	}
	run := newNode("Run")
	d := newNode("Drawing")
	run.L = append(run.L, d)
	in := kid(d, "Inline", "WPInline")
	e := kid(in, "Extent", "WPExtent")
	e.A["CX"], e.A["CY"] = "9525", "9525"
	dp := kid(in, "DocPr", "WPDocPr")
	dp.A["ID"], dp.A["Name"] = fmt.Sprint(id), fmt.Sprintf("%s %d", picName, id)
	gd := kid(kid(in, "Graphic", "AGraphic"), "GraphicData", "AGraphicData")
	gd.A["URI"] = nsPIC
	p := kid(gd, "Pic", "Picture")
	nv := kid(p, "NonVisualPicProperties", "PICNonVisualPicProperties")
	kid(nv, "NonVisualDrawingProperties", "NonVisualProperties")
	kid(nv, "CNvPicPr", "PicCNvPicPr")
	b := kid(p, "BlipFill", "PICBlipFill")
	kid(b, "Blip", "ABlip").A["Embed"] = embed
	kid(b, "Stretch", "AStretch")
	sp := kid(p, "SpPr", "PICSpPr")
	xf := kid(sp, "Xfrm", "AXfrm")
	kid(xf, "Off", "AOff")
	kid(xf, "Ext", "AExt")
	return run
}

func forgPkg(r *rand.Rand, f *Foreign) []byte {
	ps := append(f.parts, part{partDoc, f.docBytes(r)}, part{partRels, xmlRels(r, f.rels)})
	return buildZip(ps, r)
}

// ---- damaged packages ----------------------------------------------------------------

var junkVals = []string{"", "x", "r", "rI", "é", "-1", "99999999999999999999", "1e9", "0x10", "NaN", "true", "rId1", "-", "+", ".", "١", "\u0000"[0:0], "9223372036854775808", "3.7", "auto", "rId99", "word/", "..", "../../../x", "/"}

func allNodes(n *XNode, out *[]*XNode) {
	if n.T == "#" {
		return
	}
	*out = append(*out, n)
	for _, c := range n.C {
		allNodes(c, out)
	}
}

var knownTags = func() []string {
	return []string{"w:p", "w:r", "w:t", "w:tbl", "w:tr", "w:tc", "w:rPr", "w:pPr", "w:hyperlink", "w:drawing", "wp:inline", "wp:anchor", "a:graphic",
		"a:graphicData", "pic:pic", "wps:wsp", "wpc:wpc", "wpg:wgp", "wpg:grpSp", "mc:AlternateContent", "mc:Choice", "mc:Fallback", "w:sectPr", "w:tblPr", "w:tcPr", "w:trPr", "wps:txbx",
		"w:txbxContent", "w:br", "w:tab", "w:tabs", "a:xfrm", "a:ext", "a:off", "pic:spPr", "wps:spPr", "a:prstGeom", "a:blip", "pic:blipFill", "pic:nvPicPr", "wp:docPr", "w:numPr", "w:gridCol", "w:tblGrid", "w:body", "w:document", "a:ln", "wps:bodyPr", "pic:cNvPr"}
}()

func mutateTree(r *rand.Rand, root *XNode) {
	for k := 1 + r.Intn(6); k > 0; k-- {
		var all []*XNode
		allNodes(root, &all)
		n := all[r.Intn(len(all))]
		switch r.Intn(10) {
		case 0, 1:
			if len(n.C) > 0 { // delete a child
				i := r.Intn(len(n.C))
				n.C = append(n.C[:i:i], n.C[i+1:]...)
			}
		case 2, 3: // damage an attribute
			ks := sortedKeys(n.A)
			if len(ks) > 0 {
				if r.Intn(2) == 0 {
					delete(n.A, ks[r.Intn(len(ks))])
				} else {
					n.A[ks[r.Intn(len(ks))]] = junkVals[r.Intn(len(junkVals))]
				}
			}
		case 4: // a subtree somewhere else
			m := all[r.Intn(len(all))]
			if len(all) < 400 {
				n.C = append(n.C, clone(m))
			}
		case 5:
			if n != root {
				n.T = knownTags[r.Intn(len(knownTags))]
			}
		case 6: // duplicate a child
			if len(n.C) > 0 && len(all) < 400 {
				n.C = append(n.C, clone(n.C[r.Intn(len(n.C))]))
			}
		case 7: // empty it
			n.C = nil
		case 8:
			n.C = append(n.C, &XNode{T: knownTags[r.Intn(len(knownTags))], A: map[string]string{"w:val": junkVals[r.Intn(len(junkVals))]}})
		case 9:
			if n.A == nil {
				n.A = map[string]string{}
			}
			n.A[[]string{"w:val", "r:id", "r:embed", "w:anchor", "cx", "id", "w:w", "name", "w:type"}[r.Intn(9)]] = junkVals[r.Intn(len(junkVals))]
		}
	}
}

func clone(n *XNode) *XNode {
	m := &XNode{T: n.T, X: n.X}
	if n.A != nil {
		m.A = map[string]string{}
		for k, v := range n.A {
			m.A[k] = v
		}
	}
	for _, c := range n.C {
		m.C = append(m.C, clone(c))
	}
	return m
}

func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b
	}
	for k := 1 + r.Intn(4); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(5) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b = b[:i]
		case 2:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 3:
			j := i + r.Intn(len(b)-i)
			if j-i < 2000 {
				b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
			}
		case 4:
			b[i] = []byte{'<', '>', '"', '&', 0, '/', ' ', 0xff}[r.Intn(8)]
		}
	}
	return b
}

func deep(r *rand.Rand) []byte {
	n := []int{50, 500, 3000, 20000}[r.Intn(4)]
	w := newNoise(rand.New(rand.NewSource(1)), 0)
	chains := [][]string{{"w:p"}, {"w:tbl", "w:tr", "w:tc"}, {"x1:a"}, {"w:r"}, {"mc:AlternateContent", "mc:Choice"}, {"w:drawing", "wp:inline", "a:graphic", "a:graphicData", "wpg:wgp", "wpg:grpSp"},
		{"wpg:grpSp"}, {"wps:wsp", "wps:txbx", "w:txbxContent", "w:p", "w:r", "w:drawing", "wp:inline", "a:graphic", "a:graphicData"}}
	ch := chains[r.Intn(len(chains))]
	pre := []string{"w:p", "w:r", "w:drawing", "wp:inline", "a:graphic", "a:graphicData", "wpg:wgp"}[:[]int{0, 1, 2, 6, 7}[r.Intn(5)]]
	var sb strings.Builder
	sb.WriteString(`<w:document`)
	for _, p := range []string{"w", "r", "wp", "wps", "wpc", "wpg", "a", "pic", "mc", "x1"} {
		sb.WriteString(" xmlns:" + p + "=" + w.quoted(prefixNS[p]))
	}
	sb.WriteString("><w:body>")
	for _, t := range pre {
		sb.WriteString("<" + t + ">")
	}
	for i := 0; i < n; i++ {
		sb.WriteString("<" + ch[i%len(ch)] + ">")
	}
	for i := n - 1; i >= 0; i-- {
		sb.WriteString("</" + ch[i%len(ch)] + ">")
	}
	for i := len(pre) - 1; i >= 0; i-- {
		sb.WriteString("</" + pre[i] + ">")
	}
	sb.WriteString("</w:body></w:document>")
	return []byte(sb.String())
}

// wildPkg is some damaged package
func wildPkg(r *rand.Rand) []byte {
	switch r.Intn(12) {
	case 0:
		b := make([]byte, r.Intn(300))
		r.Read(b)
		return b
	case 1, 2:
		return mutateBytes(r, foreignPkg(r))
	case 3: // parts missing or twice
		f := genForeign(r)
		ps := append(f.parts, part{partDoc, f.docBytes(r)}, part{partRels, xmlRels(r, f.rels)})
		for k := 1 + r.Intn(3); k > 0; k-- {
			i := r.Intn(len(ps))
			switch r.Intn(4) {
			case 0, 1:
				ps = append(ps[:i:i], ps[i+1:]...)
			case 2:
				ps = append(ps, ps[i])
			case 3:
				ps[i].name = []string{"/" + ps[i].name, strings.ToUpper(ps[i].name), "word\\document.xml", "word/media/", "word/media/.", "word/media", "", "word/media/a/b.png", "../" + ps[i].name}[r.Intn(9)]
			}
			if len(ps) == 0 {
				break
			}
		}
		return buildZip(ps, r)
	case 4: // bytes of an XML part damaged
		f := genForeign(r)
		doc, rel := f.docBytes(r), xmlRels(r, f.rels)
		if r.Intn(2) == 0 {
			doc = mutateBytes(r, doc)
		} else {
			rel = mutateBytes(r, rel)
		}
		return buildZip(append(f.parts, part{partDoc, doc}, part{partRels, rel}), r)
	case 5:
		if r.Intn(3) != 0 {
			return oddPkg(r)
		}
		f := genForeign(r)
		return buildZip(append(f.parts, part{partDoc, deep(r)}, part{partRels, xmlRels(r, f.rels)}), r)
	}
	return oddPkg(r)
}

// oddPkg has well-formed XML of unusual structure, so that it is parsed as a rule
func oddPkg(r *rand.Rand) []byte {
	f := genForeign(r)
	x := &XGen{r: r, foreign: r.Intn(2) == 0}
	root := x.docXML(f.items)
	mutateTree(r, root)
	for i := r.Intn(3); i > 0 && len(f.rels) > 0; i-- {
		k := r.Intn(len(f.rels))
		j := junkVals[r.Intn(len(junkVals))]
		switch r.Intn(4) {
		case 0:
			f.rels[k].ID = j
		case 1:
			f.rels[k].Target = j
		case 2:
			f.rels[k].Type = j
		case 3:
			f.rels = append(f.rels, f.rels[k])
		}
	}
	if r.Intn(4) == 0 { // damaged content types are a part like others
		for i := range f.parts {
			if f.parts[i].name == partCT {
				f.parts[i].data = mutateBytes(r, f.parts[i].data)
			}
		}
	}
	return buildZip(append(f.parts, part{partDoc, newNoise(r, 1).serialize(root)}, part{partRels, xmlRels(r, f.rels)}), r)
}

// ---- custom templates ------------------------------------------------------------------

// dirFS keeps files under xml/<name>/ as the default template does
func genTemplate(r *rand.Rand) (name string, list []string, fsys fs.FS, parts []part) {
	f := genForeign(r)
	name = []string{"t", "my template", ""}[r.Intn(3)]
	m := fstest.MapFS{}
	for _, p := range f.parts {
		if strings.HasPrefix(p.name, "word/media/") && r.Intn(2) == 0 {
			// media of the template itself
		}
		k := p.name
		if name != "" {
			k = "xml/" + name + "/" + p.name
		}
		m[k] = &fstest.MapFile{Data: p.data}
		list = append(list, p.name)
		parts = append(parts, p)
	}
	return name, list, m, parts
}

func (w *World) Template(d string) {
	name, list, fsys, ps := genTemplate(w.r)
	w.useTemplate(d, name, list, fsys, ps)
}

func (w *World) useTemplate(d, name string, list []string, fsys fs.FS, ps []part) {
	parts := map[string]string{}
	var ct Ct
	for _, p := range ps {
		parts[p.name] = md5hex(p.data)
		if p.name == partCT {
			ct, _ = readCt(p.data)
		}
	}
	w.tmpl[d] = true
	// what a saved package of the template needs is there by construction, the
	// relationships of a new document do not name its parts
	valid := true
	for _, x := range relsOf(w.docs[d]) {
		if x.Mode != "External" {
			if m, ok := mediaNameOf(x.Target); ok && w.docs[d].Media(m) != nil {
				continue
			}
			valid = valid && parts["word/"+strings.TrimPrefix(x.Target, "/word/")] != ""
		}
	}
	w.do("Template", d, nil, nil, M{"parts": parts, "ct": ct, "valid": valid}, nil, func() error {
		w.docs[d].UseTemplate(name, list, fsys)
		return nil
	})
}

var _ = io.EOF
var _ = bytes.NewReader
var _ = docx.New
