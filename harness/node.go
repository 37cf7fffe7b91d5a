package main

import (
	"crypto/md5"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// Node is the projection of one element of a document (exported fields only).
type Node struct {
	T string            `json:"T"`
	A map[string]string `json:"a"`
	O map[string]*Node  `json:"o"`
	L []*Node           `json:"l"`
}

func newNode(t string) *Node {
	return &Node{T: t, A: map[string]string{}, O: map[string]*Node{}, L: []*Node{}}
}

var skipFields = map[string]bool{"XMLName": true, "XMLA": true, "XMLPIC": true}

const maxDepth = 80

func projAny(v reflect.Value, depth int) *Node {
	if depth > maxDepth {
		return newNode("too-deep")
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return newNode("nil")
		}
		return projAny(v.Elem(), depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			return newNode("nil")
		}
		return projAny(v.Elem(), depth+1)
	case reflect.Struct:
		return projStruct(v, depth+1)
	}
	n := newNode("other:" + v.Type().String())
	n.A["v"] = fmt.Sprint(v.Interface())
	return n
}

func projStruct(v reflect.Value, depth int) *Node {
	t := v.Type()
	name := t.Name()
	if name == "" {
		name = "Flag"
	}
	n := newNode(name)
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || skipFields[f.Name] {
			continue
		}
		fv := v.Field(i)
		switch fv.Kind() {
		case reflect.String:
			if fv.String() != "" {
				n.A[f.Name] = fv.String()
			}
		case reflect.Int, reflect.Int64, reflect.Int32:
			if fv.Int() != 0 {
				n.A[f.Name] = strconv.FormatInt(fv.Int(), 10)
			}
		case reflect.Bool:
			if fv.Bool() {
				n.A[f.Name] = "1"
			}
		case reflect.Ptr:
			if !fv.IsNil() {
				n.O[f.Name] = projAny(fv, depth)
			}
		case reflect.Struct:
			n.O[f.Name] = projStruct(fv, depth)
		case reflect.Slice:
			for j := 0; j < fv.Len(); j++ {
				n.L = append(n.L, projAny(fv.Index(j), depth))
			}
		case reflect.Interface:
			if !fv.IsNil() {
				n.O[f.Name] = projAny(fv, depth)
			}
		default:
			n.A[f.Name] = fmt.Sprint(fv.Interface())
		}
	}
	return n
}

func project(x interface{}) *Node { return projAny(reflect.ValueOf(x), 0) }

func jstr(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return ascii(string(b))
}

// ascii escapes everything beyond ASCII (TLC reads the platform encoding)
func ascii(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ok = false
			break
		}
	}
	if ok {
		return s
	}
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r < 0x80:
			sb.WriteRune(r)
		case r < 0x10000:
			fmt.Fprintf(&sb, "\\u%04x", r)
		default:
			r -= 0x10000
			fmt.Fprintf(&sb, "\\u%04x\\u%04x", 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		}
	}
	return sb.String()
}

func md5hex(b []byte) string {
	h := md5.Sum(b)
	return hex.EncodeToString(h[:])
}

// Rel is a relationship in a projection
type Rel struct {
	ID     string `json:"id"`
	Type   string `json:"type"`
	Target string `json:"target"`
	Mode   string `json:"mode"`
}

// getAt finds the value at a path (ints: list position from 1, strings: field)
func getAt(root reflect.Value, path []interface{}) (reflect.Value, bool) {
	v := root
	for _, p := range path {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		if v.Kind() == reflect.Struct {
			switch x := p.(type) {
			case string:
				v = v.FieldByName(x)
				if !v.IsValid() {
					return v, false
				}
				continue
			case int:
				l := listField(v)
				if !l.IsValid() || x < 1 || x > l.Len() {
					return v, false
				}
				v = l.Index(x - 1)
				continue
			}
		}
		if v.Kind() == reflect.Slice {
			x, ok := p.(int)
			if !ok || x < 1 || x > v.Len() {
				return v, false
			}
			v = v.Index(x - 1)
			continue
		}
		return v, false
	}
	return v, true
}

func listField(v reflect.Value) reflect.Value {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).PkgPath == "" && v.Field(i).Kind() == reflect.Slice {
			return v.Field(i)
		}
	}
	return reflect.Value{}
}

// deref strips interfaces and leaves the innermost pointer
func derefPtr(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() == reflect.Struct && v.CanAddr() {
		return v.Addr()
	}
	return v
}

// findPtr finds the path of an element by identity
func findPtr(root reflect.Value, ptr uintptr, typ reflect.Type, depth int) []interface{} {
	if depth > 20 {
		return nil
	}
	v := root
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil
		}
		if v.Kind() == reflect.Ptr && v.Pointer() == ptr && v.Type().Elem() == typ {
			return []interface{}{}
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		if v.CanAddr() && v.Addr().Pointer() == ptr && v.Type() == typ {
			return []interface{}{}
		}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			f := v.Field(i)
			switch f.Kind() {
			case reflect.Slice:
				for j := 0; j < f.Len(); j++ {
					if p := findPtr(f.Index(j), ptr, typ, depth+1); p != nil {
						return append([]interface{}{j + 1}, p...)
					}
				}
			case reflect.Struct, reflect.Ptr, reflect.Interface:
				if p := findPtr(f, ptr, typ, depth+1); p != nil {
					return append([]interface{}{t.Field(i).Name}, p...)
				}
			}
		}
	}
	return nil
}

// pathOf finds the path of an element pointer within the body, nil if absent
func pathOf(d *docx.Docx, x interface{}) []interface{} {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return nil
	}
	items := d.Document.Body.Items
	for i := range items {
		if p := findPtr(reflect.ValueOf(items[i]), v.Pointer(), v.Type().Elem(), 0); p != nil {
			return append([]interface{}{i + 1}, p...)
		}
	}
	return nil
}

func sortedKeys(m map[string]string) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
