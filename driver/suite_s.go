package main

// Suite S: every operation of the API, found by reflection, is called on
// objects that hold content of any kind, with arguments of any class.

import (
	stdjson "encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/matehaxor03/holistic_json/json"
)

type sCase struct {
	ID   int    `json:"id"`
	Rs   int    `json:"rs"`
	On   string `json:"on"` // map, array, value
	Doc  *C     `json:"doc"`
	Pool []*C   `json:"pool"` // contents arguments are made of
}

// operations of an object, in the order of their names
func operations(obj any) []string {
	t := reflect.TypeOf(obj).Elem()
	l := []string{}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Type.Kind() == reflect.Func {
			l = append(l, t.Field(i).Name)
		}
	}
	sort.Strings(l)
	return l
}

var typeErrorSlice = reflect.TypeOf([]error{})
var typeError = reflect.TypeOf((*error)(nil)).Elem()
var typeAny = reflect.TypeOf((*any)(nil)).Elem()

// pick gives a content of the pool that pred likes, or nil
func (c *sCase) pick(r *rng, pred func(*C) bool) *C {
	l := []*C{}
	for _, x := range c.Pool {
		if pred(x) {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[r.n(len(l))]
}

func kindIs(t string) func(*C) bool { return func(c *C) bool { return c.T == t } }

// oddities that a caller may hand over as interface{}
func oddAny(r *rng) any {
	ch := make(chan int)
	odd := []any{struct{ A int }{1}, ch, complex(1, 2), []int{1}, []string{"a"}, []any{1, nil}, map[string]any{"a": 1}, map[string]int{}, []byte("x"),
		stdjson.Number("1"), uintptr(1), [2]int{}, (*struct{})(nil), (map[string]any)(nil), ([]any)(nil), func() {}, reflect.ValueOf(1), &[]string{"a"},
		(*[]any)(nil), (*any)(nil), errors.Join(errors.New("a"), errors.New("b")), fmt.Errorf("w %w", errors.New("x")), time.Second, json.NewMap, any(nil)}
	return odd[r.n(len(odd))]
}

// argument makes an argument of type t; the node tells what it holds
func (c *sCase) argument(t reflect.Type, r *rng, length int) (reflect.Value, N) {
	null := N{"t": "null"}
	zero := reflect.Zero(t)
	switch {
	case t == reflect.TypeOf(0):
		l := []int{0, 1, length - 1, length, length + 1, -1, -2, math.MaxInt, math.MinInt, 6, 9, 10, 1 << 32, r.n(length + 1)}
		i := l[r.n(len(l))]
		return reflect.ValueOf(i), intNode("int", fmt.Sprint(i))
	case t == reflect.TypeOf(&strings.Builder{}):
		return reflect.ValueOf(&strings.Builder{}), N{"t": "none"}
	case t == reflect.TypeOf(""):
		s := "the key"
		if x := c.pick(r, kindIs("str")); x != nil && r.n(2) == 0 {
			s = ofCps(x.S)
		}
		return reflect.ValueOf(s), N{"t": "str", "s": cps(s)}
	case t == typeErrorSlice:
		switch r.n(5) {
		case 0:
			return zero, N{"t": "none"}
		case 1:
			return reflect.ValueOf([]error{}), N{"t": "none"}
		case 2:
			return reflect.ValueOf([]error{errors.New("a"), nil}), N{"t": "none"}
		}
		e := []error{errors.New("first"), errors.New("100% %s")}
		return reflect.ValueOf(e), errsNode(e)
	case t == typeError:
		if r.n(3) == 0 {
			return zero, null
		}
		e := errors.New("text %d")
		return reflect.ValueOf(&e).Elem(), errNode(e)
	case t == typeAny:
		if r.n(3) == 0 {
			o := oddAny(r)
			v := reflect.New(typeAny).Elem()
			if o != nil {
				v.Set(reflect.ValueOf(o))
			}
			return v, N{"t": "none"}
		}
		x := c.Pool[r.n(len(c.Pool))]
		o := buildAny(x, r)
		v := reflect.New(typeAny).Elem()
		if o != nil {
			v.Set(reflect.ValueOf(o))
		}
		return v, dumpAny(o, 0)
	case t == reflect.TypeOf(json.Map{}) || t == reflect.TypeOf(&json.Map{}):
		x := c.pick(r, kindIs("map"))
		if x == nil {
			x = &C{T: "map"}
		}
		m := buildMap(x, r)
		if t.Kind() == reflect.Struct {
			return reflect.ValueOf(*m), dumpMap(m, 0)
		}
		if r.n(3) == 0 {
			return zero, null
		}
		return reflect.ValueOf(m), dumpMap(m, 0)
	case t == reflect.TypeOf(json.Array{}) || t == reflect.TypeOf(&json.Array{}):
		x := c.pick(r, kindIs("arr"))
		if x == nil {
			x = &C{T: "arr"}
		}
		a := buildArray(x, r)
		if t.Kind() == reflect.Struct {
			return reflect.ValueOf(*a), dumpArray(a, 0)
		}
		if r.n(3) == 0 {
			return zero, null
		}
		return reflect.ValueOf(a), dumpArray(a, 0)
	case t == reflect.TypeOf(json.Value{}) || t == reflect.TypeOf(&json.Value{}):
		v := buildValue(c.Pool[r.n(len(c.Pool))], r, false)
		if t.Kind() == reflect.Struct {
			return reflect.ValueOf(*v), dumpValue(v, 0)
		}
		if r.n(4) == 0 {
			return zero, null
		}
		return reflect.ValueOf(v), dumpValue(v, 0)
	case t.Kind() == reflect.Pointer:
		if r.n(3) == 0 {
			return zero, null
		}
		p := reflect.New(t.Elem())
		v, n := c.argument2(t.Elem(), r)
		p.Elem().Set(v)
		return p, n
	}
	return c.argument2(t, r)
}

// values of the supported scalar types
func (c *sCase) argument2(t reflect.Type, r *rng) (reflect.Value, N) {
	if x := c.pick(r, func(c *C) bool {
		if c.T == "map" || c.T == "arr" || c.T == "null" || c.T == "other" {
			return false
		}
		return reflect.TypeOf(goVal(c)) == t
	}); x != nil && r.n(4) != 0 {
		v := reflect.New(t).Elem()
		v.Set(reflect.ValueOf(goVal(x)))
		return v, dumpAny(v.Interface(), 0)
	}
	if t == typeErrorSlice {
		e := []error{errors.New("one")}
		return reflect.ValueOf(e), errsNode(e)
	}
	if t == typeError {
		e := errors.New("one")
		return reflect.ValueOf(&e).Elem(), errNode(e)
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt([]int64{0, 1, -1, 100, math.MinInt64 >> (64 - t.Bits()), math.MaxInt64 >> (64 - t.Bits())}[r.n(6)])
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint([]uint64{0, 1, 200, math.MaxUint64 >> (64 - t.Bits())}[r.n(4)])
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1, -1.5, 0.1, 1e30, 1e-30}[r.n(6)])
	case reflect.String:
		v.SetString([]string{"", "a", "nil", "null", "\x00\"\\"}[r.n(5)])
	case reflect.Bool:
		v.SetBool(r.n(2) == 0)
	case reflect.Func, reflect.Struct:
	default:
		panic("driver: no argument of type " + t.String())
	}
	return v, dumpAny(v.Interface(), 0)
}

func init() {
	suites["S"] = func(raw []byte) N {
		var c sCase
		must(stdjson.Unmarshal(raw, &c))
		r := newRng(c.Rs)
		t := &nodeTable{[]N{}, map[string]int{}}
		steps := []N{}
		const key = "the key"
		make1 := func() (any, int) {
			switch c.On {
			case "map":
				m := json.NewMap()
				m.SetBoolValue("before", true)
				putInMap(m, key, c.Doc, r)
				m.SetInt8Value("after", 1)
				return m, 3
			case "array":
				a := json.NewArray()
				a.AppendInt16Value(1)
				appendTo(a, c.Doc, r)
				a.AppendStringValue("end")
				return a, 3
			}
			return buildValue(c.Doc, r, false), 0
		}
		dump := func(o any) (n N) {
			if p := call(func() { n = dumpAny(o, 0) }); p != "" {
				n = N{"t": "panic"}
			}
			return n
		}
		probe, _ := make1()
		for _, op := range operations(probe) {
			for variant := 0; variant < 2; variant++ {
				var obj any
				var length int
				if p := call(func() { obj, length = make1() }); p != "" {
					steps = append(steps, N{"op": "build", "r": "panic", "as": []int{}, "b": 0, "e": 0, "p": "ret", "x": 0})
					continue
				}
				f := field(obj, op)
				ft := f.Type()
				in := []reflect.Value{}
				as := []int{}
				for i := 0; i < ft.NumIn(); i++ {
					var v reflect.Value
					var n N
					if c.On == "map" && i == 0 && ft.In(0).Kind() == reflect.String {
						k := key
						switch r.n(6) {
						case 0:
							k = "absent"
						case 1:
							k = ""
						case 2:
							if x := c.pick(r, kindIs("str")); x != nil {
								k = ofCps(x.S)
							}
						}
						v, n = reflect.ValueOf(k), N{"t": "str", "s": cps(k)}
					} else {
						v, n = c.argument(ft.In(i), r, length)
					}
					in = append(in, v)
					as = append(as, t.of(n))
				}
				step := N{"op": op, "as": as, "b": t.of(dump(obj)), "r": "ret", "p": "ret", "x": 0}
				var out []reflect.Value
				if f.IsNil() {
					step["r"] = "absent"
				} else if p := call(func() { out = f.Call(in) }); p != "" {
					step["r"] = "panic"
				} else {
					// whether it says that it failed
					for _, o := range out {
						if (o.Type() == typeErrorSlice && op != "GetErrors" || o.Type() == typeError) && !o.IsNil() {
							step["r"] = "err"
						}
					}
					if op == "GetErrors" && !out[1].IsNil() {
						step["r"] = "err"
					}
				}
				step["e"] = t.of(dump(obj))
				// the object still works
				if p := call(func() {
					switch o := obj.(type) {
					case *json.Map:
						o.GetKeys()
						o.HasKey(key)
						o.ToJSONString(&strings.Builder{})
						o.Clone()
						o.Values().Len()
					case *json.Array:
						o.Len()
						o.GetValues()
						o.ToJSONString(&strings.Builder{})
						o.Clone()
					case *json.Value:
						o.GetType()
						o.Clone()
						json.ConvertInterfaceValueToStringValue(*o)
						json.ConvertInterfaceValueToJSONStringValue(&strings.Builder{}, o)
					}
				}); p != "" {
					step["p"] = "panic"
				}
				steps = append(steps, step)
			}
		}
		// the functions of the package
		fn := func(op string, want N, f func() any) {
			step := N{"op": op, "as": []int{t.of(want)}, "b": 0, "r": "ret", "p": "ret", "e": 0, "x": 1}
			var o any
			if p := call(func() { o = f() }); p != "" {
				step["r"] = "panic"
			} else {
				step["e"] = t.of(dump(o))
			}
			steps = append(steps, step)
		}
		none := N{"t": "none"}
		for i := 0; i < 3; i++ {
			v, n := c.argument(typeAny, r, 0)
			o := v.Interface()
			fn("NewValue", n, func() any { return json.NewValue(o) })
			fn("NewValueValue", n, func() any { return json.NewValueValue(o) })
			arr, mp := N{"t": "arr", "vs": []N{n, n}}, N{"t": "map", "ks": [][]int{cps("k")}, "vs": []N{n}}
			if n["t"] == "none" {
				arr, mp = none, none
			}
			fn("NewArrayOfValues", arr, func() any { return json.NewArrayOfValues(&[]any{o, o}) })
			fn("NewMapOfValues", mp, func() any { return json.NewMapOfValues(&map[string]any{"k": o}) })
			fn("ConvertInterfaceValueToStringValue", none, func() any {
				json.ConvertInterfaceValueToStringValue(o)
				return nil
			})
			fn("ConvertInterfaceValueToJSONStringValue", none, func() any {
				json.ConvertInterfaceValueToJSONStringValue(&strings.Builder{}, o)
				return nil
			})
		}
		fn("NewMap", N{"t": "map", "ks": [][]int{}, "vs": []N{}}, func() any { return json.NewMap() })
		fn("NewMapValue", N{"t": "map", "ks": [][]int{}, "vs": []N{}}, func() any { return json.NewMapValue() })
		fn("NewArray", N{"t": "arr", "vs": []N{}}, func() any { return json.NewArray() })
		fn("NewArrayValue", N{"t": "arr", "vs": []N{}}, func() any { return json.NewArrayValue() })
		fn("NewMapOfValues", none, func() any { return json.NewMapOfValues(nil) })
		fn("NewArrayOfValues", none, func() any { return json.NewArrayOfValues(nil) })
		return N{"id": c.ID, "on": c.On, "r": "ok", "steps": steps, "tab": t.l}
	}
}
