package main

// Construction of library objects from case nodes, over every public route.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/matehaxor03/holistic_json/json"
)

// rng is a small deterministic generator: the route a case takes depends on
// the case alone.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s ^= r.s << 13
	r.s ^= r.s >> 7
	r.s ^= r.s << 17
	return r.s
}
func newRng(seed int) *rng {
	r := &rng{uint64(seed)*0x9E3779B97F4A7C15 + 0x1234567}
	for i := 0; i < 5; i++ {
		r.next()
	}
	return r
}
func (r *rng) n(k int) int { return int((r.next() >> 11) % uint64(k)) }

// ptrTo returns a pointer to a fresh variable that holds v.
func ptrTo(v any) any {
	if e, ok := v.(error); ok {
		return &e
	}
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p.Interface()
}

// field calls the function field name of obj (a *Map, *Array or *Value).
func field(obj any, name string) reflect.Value {
	return reflect.ValueOf(obj).Elem().FieldByName(name)
}

func has(obj any, name string) bool {
	_, ok := reflect.TypeOf(obj).Elem().FieldByName(name)
	return ok
}

func invoke(obj any, name string, args ...any) []reflect.Value {
	f := field(obj, name)
	if !f.IsValid() {
		panic("driver: no operation " + name)
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(f.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	return f.Call(in)
}

// suffix of the setters of a scalar kind
func kindName(c *C) string {
	switch c.T {
	case "str":
		return "String"
	case "bool":
		return "Bool"
	case "int", "flt":
		return map[string]string{"int": "Int", "int8": "Int8", "int16": "Int16", "int32": "Int32", "int64": "Int64",
			"uint": "UInt", "uint8": "UInt8", "uint16": "UInt16", "uint32": "UInt32", "uint64": "UInt64",
			"float32": "Float32", "float64": "Float64"}[c.K]
	case "time":
		return "Time"
	case "func":
		return "Func"
	case "err":
		return "Error"
	case "errs":
		return "Errors"
	}
	return ""
}

var nullKinds = []string{"String", "Bool", "Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64",
	"Float32", "Float64", "Time", "Func", "Map", "Array", "Error", "Errors"}

// typed nil pointer of a kind
func nilPtr(kind string) any {
	v := json.NewValue(nil)
	t := field(v, "Set"+orFunc(kind)).Type().In(0)
	return reflect.Zero(t).Interface()
}

func orFunc(kind string) string {
	if kind == "Func" {
		return "Int"
	}
	return kind
}

// buildValue makes a *json.Value that holds c; nil is possible for null.
func buildValue(c *C, r *rng, allowNilValue bool) *json.Value {
	switch c.T {
	case "null":
		switch r.n(5) {
		case 0:
			if allowNilValue {
				return nil
			}
			return json.NewValue(nil)
		case 1:
			v := json.NewValue("x")
			v.SetNil()
			return v
		case 2:
			return json.NewValue(nilPtr(nullKinds[r.n(len(nullKinds))]))
		case 3:
			v := json.NewValue(1)
			k := nullKinds[r.n(len(nullKinds))]
			if k == "Func" {
				k = "Bool"
			}
			invoke(v, "Set"+k, nil)
			return v
		}
		return json.NewValue(nil)
	case "map":
		m := buildMap(c, r)
		v := json.NewValue(nil)
		switch r.n(5) {
		case 0:
			v.SetMap(m)
		case 1:
			v.SetMapValue(*m)
		case 2:
			v = json.NewValue(*m)
		case 3:
			v.SetObject(m)
		default:
			v = json.NewValue(m)
		}
		return v
	case "arr":
		a := buildArray(c, r)
		v := json.NewValue(nil)
		switch r.n(5) {
		case 0:
			v.SetArray(a)
		case 1:
			v.SetArrayValue(*a)
		case 2:
			v = json.NewValue(*a)
		case 3:
			v.SetObject(a)
		default:
			v = json.NewValue(a)
		}
		return v
	}
	raw := goVal(c)
	if c.T == "func" { // the library knows functions by pointer
		return json.NewValue(ptrTo(raw))
	}
	switch r.n(8) {
	case 0:
		return json.NewValue(ptrTo(raw))
	case 1:
		v := json.NewValueValue(raw)
		return &v
	case 2:
		v := json.NewValue(nil)
		v.SetObject(raw)
		return v
	case 3, 4:
		v := json.NewValue("before")
		if n := "Set" + kindName(c) + "Value"; kindName(c) != "" && has(v, n) {
			invoke(v, n, raw)
		} else {
			v.SetObject(raw)
		}
		return v
	case 5, 6:
		v := json.NewValue(true)
		if n := "Set" + kindName(c); kindName(c) != "" && has(v, n) {
			invoke(v, n, ptrTo(raw))
		} else {
			v.SetObject(ptrTo(raw))
		}
		return v
	}
	return json.NewValue(raw)
}

func putInMap(m *json.Map, k string, c *C, r *rng) {
	switch c.T {
	case "null":
		switch r.n(4) {
		case 0:
			m.SetNil(k)
		case 1:
			m.SetObjectForMap(k, nil)
		case 2:
			n := nullKinds[r.n(len(nullKinds))]
			if n == "Error" || n == "Errors" {
				n = "String"
			}
			invoke(m, "Set"+n, k, nil)
		default:
			m.SetValue(k, buildValue(c, r, true))
		}
		return
	case "map":
		switch r.n(5) {
		case 0, 1:
			m.SetMap(k, buildMap(c, r))
		case 2:
			m.SetMapValue(k, *buildMap(c, r))
		case 3:
			m.SetObjectForMap(k, buildMap(c, r))
		default:
			m.SetValue(k, buildValue(c, r, true))
		}
		return
	case "arr":
		switch r.n(5) {
		case 0, 1:
			m.SetArray(k, buildArray(c, r))
		case 2:
			m.SetArrayValue(k, *buildArray(c, r))
		case 3:
			m.SetObjectForMap(k, buildArray(c, r))
		default:
			m.SetValue(k, buildValue(c, r, true))
		}
		return
	}
	raw := goVal(c)
	if c.T == "func" {
		if r.n(2) == 0 {
			m.SetObjectForMap(k, ptrTo(raw))
		} else {
			invoke(m, "SetFunc", k, ptrTo(raw))
		}
		return
	}
	name := kindName(c)
	switch r.n(7) {
	case 0, 1:
		if name != "" && has(m, "Set"+name+"Value") {
			invoke(m, "Set"+name+"Value", k, raw)
			return
		}
		if c.T == "errs" {
			m.SetErrors(k, raw.([]error))
			return
		}
	case 2, 3:
		if name != "" && has(m, "Set"+name) && c.T != "errs" {
			invoke(m, "Set"+name, k, ptrTo(raw))
			return
		}
	case 4:
		m.SetObjectForMap(k, raw)
		return
	case 5:
		m.SetObjectForMap(k, ptrTo(raw))
		return
	}
	m.SetValue(k, buildValue(c, r, true))
}

func appendTo(a *json.Array, c *C, r *rng) {
	switch c.T {
	case "null":
		switch r.n(4) {
		case 0:
			a.AppendNil()
		case 1:
			n := nullKinds[r.n(14)]
			invoke(a, "Append"+n, nil)
		case 2:
			a.AppendValueValue(*buildValue(c, r, false))
		default:
			a.AppendValue(buildValue(c, r, true))
		}
		return
	case "map":
		switch r.n(4) {
		case 0, 1:
			a.AppendMap(buildMap(c, r))
		case 2:
			a.AppendMapValue(*buildMap(c, r))
		default:
			a.AppendValue(buildValue(c, r, true))
		}
		return
	case "arr":
		switch r.n(4) {
		case 0, 1:
			a.AppendArray(buildArray(c, r))
		case 2:
			a.AppendArrayValue(*buildArray(c, r))
		default:
			a.AppendValue(buildValue(c, r, true))
		}
		return
	}
	raw := goVal(c)
	name := kindName(c)
	switch r.n(6) {
	case 0, 1:
		if name != "" && has(a, "Append"+name+"Value") {
			invoke(a, "Append"+name+"Value", raw)
			return
		}
	case 2, 3:
		if name != "" && has(a, "Append"+name) {
			invoke(a, "Append"+name, ptrTo(raw))
			return
		}
	case 4:
		a.AppendValueValue(*buildValue(c, r, false))
		return
	}
	a.AppendValue(buildValue(c, r, true))
}

func element(c *C, r *rng) any {
	switch c.T {
	case "null":
		switch r.n(3) {
		case 0:
			return nil
		case 1:
			return nilPtr(nullKinds[r.n(len(nullKinds))])
		}
		return buildValue(c, r, false)
	case "map":
		switch r.n(3) {
		case 0:
			return buildMap(c, r)
		case 1:
			return *buildMap(c, r)
		}
	case "arr":
		switch r.n(3) {
		case 0:
			return buildArray(c, r)
		case 1:
			return *buildArray(c, r)
		}
	case "func":
		return ptrTo(goVal(c))
	default:
		switch r.n(3) {
		case 0:
			return goVal(c)
		case 1:
			return ptrTo(goVal(c))
		}
	}
	v := buildValue(c, r, false)
	if r.n(2) == 0 {
		return *v
	}
	return v
}

func buildMap(c *C, r *rng) *json.Map {
	var m *json.Map
	if len(c.Ks) <= 1 && r.n(3) == 0 {
		g := map[string]any{}
		for i, k := range c.Ks {
			g[ofCps(k)] = element(c.Vs[i], r)
		}
		return json.NewMapOfValues(&g)
	}
	if r.n(3) == 0 {
		v := json.NewMapValue()
		m = &v
	} else {
		m = json.NewMap()
	}
	if r.n(6) == 0 {
		livedMap(m, c, r)
		return m
	}
	for i, k := range c.Ks {
		putInMap(m, ofCps(k), c.Vs[i], r)
	}
	return m
}

// livedMap fills m by way of values that are overwritten, keys that are
// removed again and reads in between.
func livedMap(m *json.Map, c *C, r *rng) {
	junk := []string{}
	for i, k := range c.Ks {
		key := ofCps(k)
		switch r.n(6) {
		case 0:
			putInMap(m, key, passing(r), r)
		case 1:
			putInMap(m, key, passing(r), r)
			readMap(m, key, r)
			m.RemoveKey(key)
		case 2:
			j := fmt.Sprintf("\u2603%d", r.n(4))
			if !m.HasKey(j) {
				putInMap(m, j, passing(r), r)
				junk = append(junk, j)
			}
		case 3:
			readMap(m, key, r)
		}
		putInMap(m, key, c.Vs[i], r)
		if len(junk) > 0 && r.n(3) == 0 {
			m.RemoveKey(junk[0])
			junk = junk[1:]
		}
	}
	if len(c.Ks) == 0 {
		putInMap(m, "\u2603", passing(r), r)
		junk = append(junk, "\u2603")
	}
	if r.n(2) == 0 {
		readMap(m, "a", r)
	}
	for _, j := range junk {
		m.RemoveKey(j)
	}
}

func readMap(m *json.Map, key string, r *rng) {
	var b strings.Builder
	switch r.n(5) {
	case 0:
		m.ToJSONString(&b)
	case 1:
		m.GetKeys()
	case 2:
		m.Clone()
	case 3:
		m.GetString(key)
	default:
		m.HasKey(key)
	}
}

// passing is content that will not stay.
func passing(r *rng) *C {
	switch r.n(5) {
	case 0:
		return &C{T: "null"}
	case 1:
		return &C{T: "bool", B: 1}
	case 2:
		return &C{T: "arr", Vs: []*C{{T: "null"}}}
	case 3:
		return &C{T: "map"}
	}
	return &C{T: "str", S: cps("passing")}
}

func livedArray(a *json.Array, c *C, r *rng) {
	for _, x := range c.Vs {
		switch r.n(5) {
		case 0:
			appendTo(a, passing(r), r)
			a.SetValueAtIndex(a.Len()-1, buildValue(x, r, true))
			continue
		case 1:
			appendTo(a, passing(r), r)
			readArray(a, r)
			a.RemoveValueAtIndex(a.Len() - 1)
		case 2:
			readArray(a, r)
		case 3:
			appendTo(a, passing(r), r)
			appendTo(a, x, r)
			a.RemoveValueAtIndex(a.Len() - 2)
			continue
		}
		appendTo(a, x, r)
	}
}

func readArray(a *json.Array, r *rng) {
	var b strings.Builder
	switch r.n(4) {
	case 0:
		a.ToJSONString(&b)
	case 1:
		a.Clone()
	case 2:
		a.GetArrayOfString()
	default:
		a.GetValues()
	}
}

func buildArray(c *C, r *rng) *json.Array {
	switch r.n(4) {
	case 0:
		g := []any{}
		for _, v := range c.Vs {
			g = append(g, element(v, r))
		}
		return json.NewArrayOfValues(&g)
	case 1:
		v := json.NewArrayValue()
		for _, x := range c.Vs {
			appendTo(&v, x, r)
		}
		return &v
	}
	a := json.NewArray()
	if r.n(4) == 0 {
		livedArray(a, c, r)
		return a
	}
	for _, x := range c.Vs {
		appendTo(a, x, r)
	}
	return a
}

// buildAny gives the content as any of the forms a caller may pass around.
func buildAny(c *C, r *rng) any {
	switch c.T {
	case "map":
		m := buildMap(c, r)
		switch r.n(4) {
		case 0:
			return *m
		case 1:
			return m
		}
	case "arr":
		a := buildArray(c, r)
		switch r.n(4) {
		case 0:
			return *a
		case 1:
			return a
		}
	case "null":
		if r.n(2) == 0 {
			return nil
		}
	default:
		switch r.n(4) {
		case 0:
			return goVal(c)
		case 1:
			return ptrTo(goVal(c))
		}
	}
	v := buildValue(c, r, false)
	if r.n(2) == 0 {
		return *v
	}
	return v
}

var _ = fmt.Sprint
