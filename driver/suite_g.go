package main

// Suite G: content is put into values, maps and arrays by every route and
// every accessor is asked about it. The record lists what each of them said.

import (
	stdjson "encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/matehaxor03/holistic_json/json"
)

type gCase struct {
	ID    int     `json:"id"`
	Rs    int     `json:"rs"`
	Doc   *C      `json:"doc"`
	Was   *C      `json:"was"`   // what the objects held, and were asked for, before
	Route string  `json:"route"` // set, parse, clone, absent, write
	Args  [][]int `json:"args"`  // texts to compare with
}

// nodeOf is the content of a case node, without any help of the library.
func nodeOf(c *C) N {
	switch c.T {
	case "map":
		ks, vs := [][]int{}, []N{}
		for i, k := range c.Ks {
			ks = append(ks, cps(ofCps(k)))
			vs = append(vs, nodeOf(c.Vs[i]))
		}
		return N{"t": "map", "ks": ks, "vs": vs}
	case "arr":
		vs := []N{}
		for _, v := range c.Vs {
			vs = append(vs, nodeOf(v))
		}
		return N{"t": "arr", "vs": vs}
	}
	return dumpAny(goVal(c), 0)
}

// outcomes of accessors, grouped
type outcomes struct {
	cls map[string][]string
	ok  []N
	tab *nodeTable
}

// the distinct nodes of a record
type nodeTable struct {
	l   []N
	idx map[string]int
}

func (t *nodeTable) of(n N) int {
	k := enc(n)
	i, ok := t.idx[k]
	if !ok {
		t.l = append(t.l, n)
		i = len(t.l)
		t.idx[k] = i
	}
	return i
}

func newOutcomes(t *nodeTable) *outcomes { return &outcomes{map[string][]string{}, []N{}, t} }

func (o *outcomes) node() N {
	r := N{"ok": o.ok}
	for _, c := range []string{"err", "nil", "true", "false", "panic", "odd"} {
		l := o.cls[c]
		if l == nil {
			l = []string{}
		}
		r[c] = l
	}
	return r
}

func (o *outcomes) add(name, cls string, v N) {
	if cls == "ok" {
		o.ok = append(o.ok, N{"a": name, "i": o.tab.of(v)})
		return
	}
	o.cls[cls] = append(o.cls[cls], name)
}

var errSlice = reflect.TypeOf([]error{})

// asNode is the content of what an accessor returned; ok is false for nil.
func asNode(v reflect.Value, runeSlices bool) (N, bool) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil, false
		}
		e := t.Elem()
		if e.Kind() == reflect.Slice && e != errSlice {
			return asNode(v.Elem(), runeSlices)
		}
		if e.Name() == "" && e.Kind() != reflect.Func && e.Kind() != reflect.Slice {
			return N{"t": "other", "k": t.String()}, true
		}
		return dumpAny(v.Interface(), 0), true
	case reflect.Slice:
		if t == errSlice {
			if v.IsNil() {
				return nil, false
			}
			return errsNode(v.Interface().([]error)), true
		}
		if v.IsNil() {
			return nil, false
		}
		if t.Elem() == reflect.TypeOf((*rune)(nil)) && runeSlices {
			s := []int{}
			for i := 0; i < v.Len(); i++ {
				if v.Index(i).IsNil() {
					return N{"t": "other", "k": "nil rune"}, true
				}
				s = append(s, int(v.Index(i).Elem().Int()))
			}
			return N{"t": "str", "s": s}, true
		}
		vs := []N{}
		for i := 0; i < v.Len(); i++ {
			n, ok := asNode(v.Index(i), runeSlices)
			if !ok {
				n = N{"t": "null"}
			}
			vs = append(vs, n)
		}
		return N{"t": "arr", "vs": vs}, true
	case reflect.Interface:
		if v.IsNil() {
			return N{"t": "null"}, true
		}
		return dumpAny(v.Interface(), 0), true
	}
	return dumpAny(v.Interface(), 0), true
}

func (o *outcomes) ask(obj any, name, label string, args ...any) {
	f := field(obj, name)
	if f.IsNil() {
		o.add(label, "panic", nil)
		return
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(f.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	var cls string
	var n N
	if p := call(func() {
		out := f.Call(in)
		cls, n = classify(out, name == "GetRunes")
	}); p != "" {
		cls = "panic"
	}
	o.add(label, cls, n)
}

func classify(out []reflect.Value, runeSlices bool) (string, N) {
	first := out[0]
	if len(out) == 2 {
		errs := out[1]
		if !errs.IsNil() {
			if errs.Kind() == reflect.Slice {
				if errs.Len() == 0 {
					return "odd", nil
				}
				for i := 0; i < errs.Len(); i++ {
					if errs.Index(i).IsNil() {
						return "odd", nil
					}
				}
			}
			switch first.Kind() {
			case reflect.Pointer, reflect.Slice:
				if !first.IsNil() {
					return "odd", nil
				}
			}
			return "err", nil
		}
	}
	if first.Kind() == reflect.Bool && len(out) == 1 {
		if first.Bool() {
			return "true", nil
		}
		return "false", nil
	}
	n, ok := asNode(first, runeSlices)
	if !ok {
		return "nil", nil
	}
	return "ok", n
}

var accessorNames = map[reflect.Type][]string{}

// filled at the start: cases may run in several goroutines
func init() {
	for _, o := range []any{json.NewMap(), json.NewValue(1), json.NewArray()} {
		accessors(o)
	}
}

// accessors are the operations that only look
func accessors(obj any) []string {
	t := reflect.TypeOf(obj).Elem()
	if l, ok := accessorNames[t]; ok {
		return l
	}
	l := []string{}
	for i := 0; i < t.NumField(); i++ {
		n := t.Field(i).Name
		if strings.HasPrefix(n, "Get") || strings.HasPrefix(n, "Is") || strings.HasPrefix(n, "Has") {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	accessorNames[t] = l
	return l
}

var places = []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}

func askValue(v *json.Value, t *nodeTable) N {
	o := newOutcomes(t)
	for _, n := range accessors(v) {
		switch n {
		case "GetTimeWithDecimalPlaces":
			for _, p := range places {
				o.ask(v, n, fmt.Sprintf("%s/%d", n, p), p)
			}
		case "IsValueEqualToString", "IsValueEqualToStringValue":
		default:
			o.ask(v, n, n)
		}
	}
	return o.node()
}

func askMap(m *json.Map, k string, t *nodeTable) N {
	o := newOutcomes(t)
	for _, n := range accessors(m) {
		switch n {
		case "GetTimeWithDecimalPlaces":
			for _, p := range places {
				o.ask(m, n, fmt.Sprintf("%s/%d", n, p), k, p)
			}
		case "GetKeys", "IsNil":
		default:
			o.ask(m, n, n, k)
		}
	}
	return o.node()
}

func askArray(a *json.Array, t *nodeTable) (N, []N) {
	o := newOutcomes(t)
	index := []N{}
	for _, n := range accessors(a) {
		switch n {
		case "GetValues", "GetArrayValue":
		case "GetMap", "GetStringValue":
			for i := -2; i <= a.Len()+1; i++ {
				p := newOutcomes(t)
				p.ask(a, n, "x", i)
				one := N{"a": n, "i": i, "n": 0}
				for c := range p.cls {
					one["c"] = c
				}
				if len(p.ok) == 1 {
					one["c"], one["n"] = "ok", p.ok[0]["i"]
				}
				index = append(index, one)
			}
		default:
			o.ask(a, n, n)
		}
	}
	return o.node(), index
}

// equalities with texts
func askEqual(v *json.Value, args [][]int, t *nodeTable) []N {
	r := []N{}
	for _, a := range args {
		s := ofCps(a)
		one := N{"s": cps(s)}
		for _, n := range []string{"IsValueEqualToStringValue", "IsValueEqualToString"} {
			o := newOutcomes(t)
			if n == "IsValueEqualToString" {
				o.ask(v, n, "x", &s)
			} else {
				o.ask(v, n, "x", s)
			}
			cls := "odd"
			for c := range o.cls {
				cls = c
			}
			one[n] = cls
		}
		r = append(r, one)
	}
	o := newOutcomes(t)
	o.ask(v, "IsValueEqualToString", "x", nil)
	cls := "odd"
	for c := range o.cls {
		cls = c
	}
	return append(r, N{"s": []int{}, "nil": cls})
}

// the text of a value in the forms it can be passed
func askText(forms map[string]any) []N {
	r := []N{}
	names := []string{}
	for k := range forms {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		one := N{"form": k, "s": []int{}}
		if p := call(func() {
			s, errs := json.ConvertInterfaceValueToStringValue(forms[k])
			if errs != nil {
				one["r"] = "err"
				if len(errs) == 0 {
					one["r"] = "odd"
				}
				return
			}
			one["r"], one["s"] = "ok", cps(s)
		}); p != "" {
			one["r"] = "panic"
		}
		r = append(r, one)
	}
	return r
}

func goType(v any) string {
	if dumpAny(v, 0)["t"] == "null" {
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

// clonable tells whether a clone shows the same content: functions become
// names when they are cloned, and other things fail
func clonable(c *C) bool {
	if c.T == "func" || c.T == "other" || c.T == "strs" {
		return false
	}
	for _, v := range c.Vs {
		if !clonable(v) {
			return false
		}
	}
	return true
}

func gPut(m *json.Map, k string, c *C, r *rng) {
	if c.T == "null" && c.K != "" {
		switch r.n(3) {
		case 0:
			m.SetObjectForMap(k, nilPtr(c.K))
		case 1:
			if c.K != "Error" && c.K != "Errors" {
				invoke(m, "Set"+c.K, k, nil)
				return
			}
			m.SetValue(k, gValue(c, r))
		default:
			m.SetValue(k, gValue(c, r))
		}
		return
	}
	if c.T == "func" && r.n(3) == 0 {
		m.SetObjectForMap(k, goVal(c))
		return
	}
	putInMap(m, k, c, r)
}

func gValue(c *C, r *rng) *json.Value {
	if c.T == "null" && c.K != "" {
		v := json.NewValue("x")
		switch r.n(3) {
		case 0:
			return json.NewValue(nilPtr(c.K))
		case 1:
			v.SetObject(nilPtr(c.K))
		default:
			if c.K == "Func" {
				return json.NewValue(nilPtr("Func"))
			}
			invoke(v, "Set"+c.K, nil)
		}
		return v
	}
	if c.T == "func" && r.n(3) == 0 {
		return json.NewValue(goVal(c))
	}
	return buildValue(c, r, false)
}

// relive gives the content to objects that held, and were asked for, another.
func relive(m *json.Map, key string, c *gCase, r *rng) (*json.Value, *json.Array) {
	t := &nodeTable{[]N{}, map[string]int{}}
	v := gValue(c.Was, r)
	if v == nil {
		v = json.NewValue(nil)
	}
	askValue(v, t)
	askEqual(v, c.Args, t)
	if r.n(3) == 0 {
		m.SetValue(key, v)
		askMap(m, key, t)
	}
	if r.n(3) == 0 {
		var b strings.Builder
		m.ToJSONString(&b)
	}
	if c.Doc.T == "func" {
		v.SetObject(gValue(c.Doc, r).GetObject())
	} else {
		setContent(v, c.Doc, r)
	}
	if c.Doc.T != "arr" {
		return v, nil
	}
	was := c.Was
	if was.T != "arr" {
		was = &C{T: "arr", Vs: []*C{was}}
	}
	arr := buildArray(was, r)
	askArray(arr, t)
	for arr.Len() > len(c.Doc.Vs) {
		arr.RemoveValueAtIndex(r.n(arr.Len()))
	}
	n := arr.Len()
	for i := range n {
		k := i
		if len(was.Vs) == len(c.Doc.Vs) && enc(nodeOf(was.Vs[i])) == enc(nodeOf(c.Doc.Vs[i])) {
			continue
		}
		if w := (*arr.GetValues())[k]; w != nil && r.n(3) == 0 && c.Doc.Vs[i].T != "func" {
			setContent(w, c.Doc.Vs[i], r)
		} else {
			arr.SetValueAtIndex(k, buildValue(c.Doc.Vs[i], r, true))
		}
	}
	for _, x := range c.Doc.Vs[n:] {
		appendTo(arr, x, r)
	}
	return v, arr
}

func init() {
	suites["G"] = func(raw []byte) N {
		var c gCase
		must(stdjson.Unmarshal(raw, &c))
		r := newRng(c.Rs)
		rec := N{"id": c.ID, "route": c.Route, "set": N{"t": "null"}}
		const key = "the key"
		if c.Route != "absent" {
			rec["set"] = nodeOf(c.Doc)
		}
		bad := ""
		var m *json.Map
		var v *json.Value
		var arr *json.Array
		if p := call(func() {
			m = json.NewMap()
			m.SetStringValue("before", "x")
			if c.Was != nil {
				gPut(m, key, c.Was, r)
				askMap(m, key, &nodeTable{[]N{}, map[string]int{}})
			}
			if c.Route != "absent" {
				gPut(m, key, c.Doc, r)
			} else if r.n(2) == 0 {
				m.SetInt8Value(key, 1)
				m.RemoveKey(key)
			}
			m.SetInt64Value("after", 1)
			switch c.Route {
			case "parse":
				var b strings.Builder
				if errs := m.ToJSONString(&b); errs != nil {
					bad = "write"
					return
				}
				n, errs := json.Parse(b.String())
				if errs != nil || n == nil {
					bad = "parse"
					return
				}
				m = n
			case "clone":
				n, errs := m.Clone()
				if errs != nil || n == nil {
					bad = "clone"
					return
				}
				m = n
			}
			switch c.Route {
			case "set":
				if c.Was != nil {
					v, arr = relive(m, key, &c, r)
					return
				}
				switch r.n(4) {
				case 0:
					v = m.GetValue(key)
				case 1:
					a := json.NewArray()
					appendTo(a, &C{T: "bool"}, r)
					if c.Doc.T == "null" && c.Doc.K != "" || c.Doc.T == "func" {
						a.AppendValue(gValue(c.Doc, r))
					} else {
						appendTo(a, c.Doc, r)
					}
					v = (*a.GetValues())[1]
				case 2:
					w, errs := gValue(c.Doc, r).Clone()
					if errs != nil || !clonable(c.Doc) {
						w = gValue(c.Doc, r)
					}
					v = w
				default:
					v = gValue(c.Doc, r)
				}
				if c.Doc.T == "arr" {
					arr = buildArray(c.Doc, r)
				}
			default:
				v = m.GetValue(key)
				if v != nil && v.IsArray() {
					arr, _ = v.GetArray()
				}
			}
		}); p != "" {
			rec["r"] = "panic"
			return rec
		}
		if bad != "" {
			rec["r"] = bad
			return rec
		}
		rec["r"] = "ok"
		t := &nodeTable{[]N{}, map[string]int{}}
		rec["mt"], rec["vt"] = cps("nil"), cps("nil")
		if p := call(func() {
			rec["mc"] = dumpValue(m.GetValue(key), 0)
			if w := m.GetValue(key); w != nil {
				rec["mt"] = cps(goType(w.GetObject()))
			}
			if v != nil {
				rec["vc"] = dumpValue(v, 0)
				rec["vt"] = cps(goType(v.GetObject()))
			}
		}); p != "" {
			rec["r"] = "panic"
			return rec
		}
		rec["map"] = askMap(m, key, t)
		rec["isnil"] = boolNode(m.IsNil())["b"]
		rec["hasvalue"], rec["hasarray"] = 0, 0
		rec["value"], rec["array"] = newOutcomes(t).node(), newOutcomes(t).node()
		rec["eq"], rec["txt"], rec["index"] = []N{}, []N{}, []N{}
		if v != nil {
			rec["hasvalue"] = 1
			rec["value"] = askValue(v, t)
			rec["eq"] = askEqual(v, c.Args, t)
			forms := map[string]any{"pointer to value": v, "value": *v, "object": v.GetObject()}
			switch c.Doc.T {
			case "map", "arr", "null":
			default:
				forms["raw"] = goVal(c.Doc)
				forms["pointer"] = ptrTo(goVal(c.Doc))
			}
			if c.Route != "set" || c.Doc.T == "func" {
				delete(forms, "raw")
				delete(forms, "pointer")
			}
			rec["txt"] = askText(forms)
		}
		if arr != nil {
			rec["hasarray"] = 1
			rec["array"], rec["index"] = askArray(arr, t)
		}
		rec["tab"] = t.l
		// asking has changed nothing
		rec["same"] = 1
		if p := call(func() {
			if enc(dumpValue(m.GetValue(key), 0)) != enc(rec["mc"]) || v != nil && enc(dumpValue(v, 0)) != enc(rec["vc"]) {
				rec["same"] = 0
			}
		}); p != "" {
			rec["same"] = 0
		}
		if rec["vc"] == nil {
			rec["vc"] = N{"t": "null"}
		}
		return rec
	}
}
