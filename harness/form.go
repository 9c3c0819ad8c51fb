package main

// The JSON form of a result, as a tree module JsonForm can read, and the tables it decodes to.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"

	"github.com/kodaimura/ddlparse"
)

type Node struct {
	K string           `json:"k"` // str | bool | num | null | list | obj | error
	V string           `json:"v"`
	C string           `json:"c"` // num: the float64 it denotes
	E []*Node          `json:"e"`
	F map[string]*Node `json:"f"`
}

type FormRecord struct {
	D string  `json:"d"`
	O Outcome `json:"o"`
	J *Node   `json:"j"`
	B []Table `json:"b"`
}

func node(v interface{}) *Node {
	n := &Node{E: []*Node{}, F: map[string]*Node{}}
	switch x := v.(type) {
	case nil:
		n.K = "null"
	case bool:
		n.K, n.V = "bool", strconv.FormatBool(x)
	case string:
		n.K, n.V = "str", x
	case json.Number:
		n.K, n.V = "num", x.String()
		if f, err := x.Float64(); err == nil {
			n.C = canonical(f)
		}
	case []interface{}:
		n.K = "list"
		for _, e := range x {
			n.E = append(n.E, node(e))
		}
	case map[string]interface{}:
		n.K = "obj"
		for k, e := range x {
			n.F[k] = node(e)
		}
	default:
		n.K, n.V = "error", fmt.Sprintf("%T", v)
	}
	return n
}

// a name that occurs twice in one object of a JSON text
func repeated(b []byte) (string, bool) {
	dec := json.NewDecoder(bytes.NewReader(b))
	type frame struct {
		obj  bool
		key  bool // the next string is a name
		seen map[string]bool
	}
	var st []*frame
	for {
		t, err := dec.Token()
		if err != nil {
			return "", false
		}
		top := func() *frame {
			if len(st) == 0 {
				return &frame{}
			}
			return st[len(st)-1]
		}
		if d, ok := t.(json.Delim); ok {
			switch d {
			case '{', '[':
				st = append(st, &frame{obj: d == '{', key: d == '{', seen: map[string]bool{}})
			default:
				st = st[:len(st)-1]
				top().key = top().obj
			}
			continue
		}
		f := top()
		if f.key {
			name, _ := t.(string)
			if f.seen[name] {
				return name, true
			}
			f.seen[name] = true
			f.key = false
		} else {
			f.key = f.obj
		}
	}
}

func form(d, s string) (r FormRecord) {
	r = FormRecord{D: d, J: &Node{K: "error", E: []*Node{}, F: map[string]*Node{}}, B: []Table{}}
	defer func() {
		if p := recover(); p != nil {
			if r.O.K == "" {
				r.O = Outcome{K: "panic", Tabs: []Table{}}
			}
			r.J.V = fmt.Sprint(p)
		}
	}()
	ts, err := invoke(d, s)
	r.O = project(ts, err)
	if err != nil {
		return r
	}
	b, err := json.Marshal(ts)
	if err != nil {
		r.J.V = err.Error()
		return r
	}
	if name, twice := repeated(b); twice {
		r.J.V = "the name " + name + " occurs twice in an object"
		return r
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		r.J.V = err.Error()
		return r
	}
	r.J = node(v)
	var back []ddlparse.Table
	if err := json.Unmarshal(b, &back); err != nil {
		r.J = &Node{K: "error", V: err.Error(), E: []*Node{}, F: map[string]*Node{}}
		return r
	}
	r.B = project(back, nil).Tabs
	return r
}
