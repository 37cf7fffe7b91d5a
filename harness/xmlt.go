package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
)

// XNode is an XML tree with canonical namespace prefixes; T=="#" is character data.
type XNode struct {
	T string
	A map[string]string
	C []*XNode
	X string
}

// MarshalJSON writes {"t","a","c"} or {"t":"#","x"}
func (n *XNode) MarshalJSON() ([]byte, error) {
	if n.T == "#" {
		return []byte(`{"t":"#","x":` + jstr(n.X) + `}`), nil
	}
	a, c := n.A, n.C
	if a == nil {
		a = map[string]string{}
	}
	if c == nil {
		c = []*XNode{}
	}
	return []byte(`{"t":` + jstr(n.T) + `,"a":` + jstr(a) + `,"c":` + jstr(c) + `}`), nil
}

const (
	nsW   = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
	nsR   = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
	nsWP  = "http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing"
	nsWPS = "http://schemas.microsoft.com/office/word/2010/wordprocessingShape"
	nsWPC = "http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas"
	nsWPG = "http://schemas.microsoft.com/office/word/2010/wordprocessingGroup"
	nsA   = "http://schemas.openxmlformats.org/drawingml/2006/main"
	nsPIC = "http://schemas.openxmlformats.org/drawingml/2006/picture"
	nsMC  = "http://schemas.openxmlformats.org/markup-compatibility/2006"
	nsXML = "http://www.w3.org/XML/1998/namespace"
	nsREL = "http://schemas.openxmlformats.org/package/2006/relationships"
	nsCT  = "http://schemas.openxmlformats.org/package/2006/content-types"
	nsX1  = "urn:example:unknown"
	nsW14 = "http://schemas.microsoft.com/office/word/2010/wordml"
)

var nsPrefix = map[string]string{
	nsW: "w", nsR: "r", nsWP: "wp", nsWPS: "wps", nsWPC: "wpc", nsWPG: "wpg", nsA: "a", nsPIC: "pic", nsMC: "mc",
	nsXML: "xml", nsREL: "rel", nsCT: "ct", nsX1: "x1", nsW14: "w14",
}
var prefixNS = map[string]string{}

func init() {
	for k, v := range nsPrefix {
		prefixNS[v] = k
	}
}

// parseXML reads a document with full namespace processing, strictly.
func parseXML(data []byte) (*XNode, error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	type scope map[string]string
	stack := []*XNode{}
	scopes := []scope{{"xml": nsXML, "": ""}}
	var names []string
	var root *XNode
	resolve := func(sc scope, name xml.Name, attr bool) (string, error) {
		p := name.Space
		if p == "" && attr {
			return name.Local, nil
		}
		uri, ok := sc[p]
		if !ok {
			return "", fmt.Errorf("undeclared prefix %q", p)
		}
		if uri == "" {
			return name.Local, nil
		}
		if c, ok := nsPrefix[uri]; ok {
			return c + ":" + name.Local, nil
		}
		return "{" + uri + "}" + name.Local, nil
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch tt := t.(type) {
		case xml.StartElement:
			if root != nil && len(stack) == 0 {
				return nil, errors.New("two roots")
			}
			sc := scopes[len(scopes)-1]
			nsc := scope{}
			for k, v := range sc {
				nsc[k] = v
			}
			seen := map[string]bool{}
			for _, a := range tt.Attr {
				raw := a.Name.Space + ":" + a.Name.Local
				if seen[raw] {
					return nil, fmt.Errorf("duplicate attribute %s", raw)
				}
				seen[raw] = true
				if a.Name.Space == "xmlns" {
					if a.Value == "" {
						return nil, errors.New("empty namespace")
					}
					nsc[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					nsc[""] = a.Value
				}
			}
			name, err := resolve(nsc, tt.Name, false)
			if err != nil {
				return nil, err
			}
			n := &XNode{T: name, A: map[string]string{}}
			for _, a := range tt.Attr {
				if a.Name.Space == "xmlns" || (a.Name.Space == "" && a.Name.Local == "xmlns") {
					continue
				}
				an, err := resolve(nsc, a.Name, true)
				if err != nil {
					return nil, err
				}
				if _, dup := n.A[an]; dup {
					return nil, fmt.Errorf("duplicate attribute %s", an)
				}
				n.A[an] = a.Value
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.C = append(p.C, n)
			} else {
				root = n
			}
			stack = append(stack, n)
			scopes = append(scopes, nsc)
			names = append(names, tt.Name.Space+":"+tt.Name.Local)
		case xml.EndElement:
			if len(stack) == 0 || names[len(names)-1] != tt.Name.Space+":"+tt.Name.Local {
				return nil, errors.New("mismatched end element")
			}
			stack = stack[:len(stack)-1]
			scopes = scopes[:len(scopes)-1]
			names = names[:len(names)-1]
		case xml.CharData:
			s := string(tt)
			if len(stack) == 0 {
				if strings.TrimSpace(s) != "" {
					return nil, errors.New("text outside of the root")
				}
				continue
			}
			p := stack[len(stack)-1]
			if len(p.C) > 0 && p.C[len(p.C)-1].T == "#" {
				p.C[len(p.C)-1].X += s
			} else {
				p.C = append(p.C, &XNode{T: "#", X: s})
			}
		}
	}
	if root == nil || len(stack) != 0 {
		return nil, errors.New("unexpected end")
	}
	stripWS(root)
	return root, nil
}

// stripWS drops whitespace-only text next to child elements
func stripWS(n *XNode) {
	elem := false
	for _, c := range n.C {
		if c.T != "#" {
			elem = true
			stripWS(c)
		}
	}
	if !elem {
		return
	}
	k := n.C[:0]
	for _, c := range n.C {
		if c.T == "#" && strings.TrimSpace(c.X) == "" {
			continue
		}
		k = append(k, c)
	}
	n.C = k
}

// ---- serialisation of generated documents with arbitrary notation -------------

// Noise chooses the notation
type Noise struct {
	r        *rand.Rand
	prefixes map[string]string // canonical -> used
	ws       bool              // whitespace between elements
	comments bool
	cdata    bool
	local    bool // declare namespaces at the element that uses them
	shuffle  bool // attribute order
	quote    bool
	selfc    bool
	plainTxt bool
}

func newNoise(r *rand.Rand, level int) *Noise {
	n := &Noise{r: r, prefixes: map[string]string{}}
	for p := range prefixNS {
		n.prefixes[p] = p
	}
	if level > 0 {
		n.ws = r.Intn(2) == 0
		n.comments = r.Intn(2) == 0
		n.cdata = r.Intn(2) == 0
		n.shuffle = r.Intn(2) == 0
		n.quote = r.Intn(2) == 0
		n.selfc = r.Intn(2) == 0
		if r.Intn(3) == 0 {
			i := 0
			for _, p := range sortedKeys(prefixNS) {
				if p != "xml" {
					n.prefixes[p] = fmt.Sprintf("n%d", i)
					i++
				}
			}
		}
		n.local = r.Intn(3) == 0
	}
	return n
}

func esc(s string, attr bool, r *rand.Rand) string {
	var sb strings.Builder
	for _, c := range s {
		switch c {
		case '&':
			sb.WriteString("&amp;")
		case '<':
			sb.WriteString("&lt;")
		case '>':
			sb.WriteString("&gt;")
		case '"':
			sb.WriteString("&quot;")
		case '\'':
			sb.WriteString("&apos;")
		case '\t', '\n', '\r':
			if attr || c == '\r' {
				fmt.Fprintf(&sb, "&#x%X;", c)
			} else {
				sb.WriteRune(c)
			}
		default:
			if r != nil && c > 0x20 && r.Intn(25) == 0 {
				fmt.Fprintf(&sb, "&#%d;", c)
			} else {
				sb.WriteRune(c)
			}
		}
	}
	return sb.String()
}

func (z *Noise) name(n string, declared map[string]bool, need map[string]bool) string {
	i := strings.IndexByte(n, ':')
	if i < 0 {
		return n
	}
	p := n[:i]
	if p != "xml" && !declared[p] {
		need[p] = true
	}
	return z.prefixes[p] + n[i:]
}

func (z *Noise) junk(sb *strings.Builder) {
	if z.ws && z.r.Intn(2) == 0 {
		sb.WriteString([]string{"\n", "  ", "\n    ", "\t"}[z.r.Intn(4)])
	}
	if z.comments && z.r.Intn(4) == 0 {
		sb.WriteString([]string{"<!-- c -->", "<!--<w:p/>-->", "<?pi data?>", "<!---->"}[z.r.Intn(4)])
	}
}

func (z *Noise) write(sb *strings.Builder, n *XNode, declared map[string]bool, root bool) {
	if n.T == "#" {
		z.text(sb, n.X)
		return
	}
	need := map[string]bool{}
	tag := z.name(n.T, declared, need)
	var at []string
	for _, k := range sortedKeys(n.A) {
		at = append(at, z.name(k, declared, need)+"="+z.quoted(n.A[k]))
	}
	var ns []string
	for p := range need {
		ns = append(ns, p)
	}
	sort.Strings(ns)
	nd := declared
	if len(ns) > 0 {
		nd = map[string]bool{}
		for k := range declared {
			nd[k] = true
		}
		for _, p := range ns {
			at = append(at, "xmlns:"+z.prefixes[p]+"="+z.quoted(prefixNS[p]))
			nd[p] = true
		}
	}
	if root && !z.local {
		for _, p := range []string{"w", "r", "wp", "wps", "wpc", "wpg", "a", "pic", "mc", "x1", "w14"} {
			if !nd[p] {
				at = append(at, "xmlns:"+z.prefixes[p]+"="+z.quoted(prefixNS[p]))
				nd[p] = true
			}
		}
	}
	if z.shuffle {
		z.r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
	}
	sb.WriteString("<" + tag)
	for _, a := range at {
		sb.WriteString(" " + a)
	}
	if len(n.C) == 0 && (!z.selfc || z.r.Intn(4) != 0) {
		sb.WriteString("/>")
		return
	}
	sb.WriteString(">")
	textual := false
	for _, c := range n.C {
		if c.T == "#" {
			textual = true
		}
	}
	switch n.T {
	case "w:t", "w:instrText", "wp:posOffset":
		textual = true
	}
	for _, c := range n.C {
		if !textual {
			z.junk(sb)
		}
		z.write(sb, c, nd, false)
	}
	if !textual {
		z.junk(sb)
	}
	sb.WriteString("</" + tag + ">")
}

func (z *Noise) quoted(v string) string {
	r := z.r
	if z.plainTxt {
		r = nil
	}
	if z.quote && z.r.Intn(2) == 0 {
		return "'" + esc(v, true, r) + "'"
	}
	return `"` + esc(v, true, r) + `"`
}

func (z *Noise) text(sb *strings.Builder, s string) {
	if !z.cdata || s == "" {
		sb.WriteString(esc(s, false, z.r))
		return
	}
	rs := []rune(s)
	for len(rs) > 0 {
		k := 1 + z.r.Intn(len(rs))
		part := string(rs[:k])
		rs = rs[k:]
		switch z.r.Intn(4) {
		case 0:
			if !strings.Contains(part, "]]>") && !strings.Contains(part, "\r") {
				sb.WriteString("<![CDATA[" + part + "]]>")
				break
			}
			sb.WriteString(esc(part, false, nil))
		case 1:
			sb.WriteString(esc(part, false, z.r))
			sb.WriteString("<!--in text-->")
		default:
			sb.WriteString(esc(part, false, z.r))
		}
	}
}

// serialize writes the tree as a document
func (z *Noise) serialize(n *XNode) []byte {
	var sb strings.Builder
	switch z.r.Intn(3) {
	case 0:
		sb.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n")
	case 1:
		sb.WriteString(`<?xml version="1.0" encoding="utf-8"?>`)
	}
	z.write(&sb, n, map[string]bool{"xml": true}, true)
	if z.ws {
		sb.WriteString("\n")
	}
	return []byte(sb.String())
}
