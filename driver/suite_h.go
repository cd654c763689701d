package main

// Suite H: histories of operations on maps, arrays and values that a client
// holds in slots. After every operation everything that can be seen of every
// slot is recorded.

import (
	stdjson "encoding/json"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/matehaxor03/holistic_json/json"
)

type hOp struct {
	Op string `json:"op"`
	D  int    `json:"d"`
	S  int    `json:"s"`
	K  int    `json:"k"`
	X  int    `json:"x"`
	Y  int    `json:"y"`
}

type hCase struct {
	ID   int     `json:"id"`
	Rs   int     `json:"rs"`
	NS   int     `json:"ns"`
	Keys [][]int `json:"keys"`
	Cs   []*C    `json:"cs"`
	Ops  []hOp   `json:"ops"`
	Look int     `json:"look"` // looked at after every Look-th operation only (0: all)
}

type hRun struct {
	c     *hCase
	r     *rng
	keys  []string
	kidx  map[string]int
	slots []any // nil, *json.Map, *json.Array, *json.Value
	snaps [][]string
	tab   []N
	tabi  map[string]int
	pk    []int
	left  int // nodes one dump may still have
}

// leaf is the index of a scalar node in the table of the record
func (h *hRun) leaf(n N) N {
	b, err := stdjson.Marshal(n)
	must(err)
	i, ok := h.tabi[string(b)]
	if !ok {
		h.tab = append(h.tab, n)
		i = len(h.tab)
		h.tabi[string(b)] = i
	}
	return N{"t": "leaf", "i": i}
}

func (h *hRun) keyList(ks []string) []int {
	r := make([]int, len(ks))
	for i, k := range ks {
		r[i] = h.kidx[k]
	}
	return r
}

func (h *hRun) dumpMap(m *json.Map, depth int, top bool) N {
	if h.left--; h.left < 0 || depth > 100 {
		return N{"t": "deep"}
	}
	// a list of keys belongs to who asked for it
	mine := m.GetKeys()
	for i := range mine {
		mine[i] = "scribble"
	}
	_ = append(mine, "scribble")
	ks := m.GetKeys()
	vs := []N{}
	for _, k := range ks {
		vs = append(vs, h.dumpValue(m.GetValue(k), depth+1))
	}
	n := N{"t": "map", "ks": h.keyList(ks), "vs": vs}
	if !top {
		return n
	}
	vals := []N{}
	va := m.Values()
	for _, v := range *va.GetValues() {
		vals = append(vals, h.dumpValue(v, depth+1))
	}
	n["vals"], n["len"] = vals, va.Len()
	hk, gk, nk := []int{}, []int{}, []int{}
	for i, k := range h.keys {
		if m.HasKey(k) {
			hk = append(hk, i+1)
		}
		if m.GetValue(k) != nil {
			gk = append(gk, i+1)
		}
		if m.IsNull(k) {
			nk = append(nk, i+1)
		}
	}
	n["has"], n["get"], n["null"] = hk, gk, nk
	return n
}

func (h *hRun) dumpArray(a *json.Array, depth int) N {
	if h.left--; h.left < 0 || depth > 100 {
		return N{"t": "deep"}
	}
	vs := []N{}
	for _, v := range *a.GetValues() {
		vs = append(vs, h.dumpValue(v, depth+1))
	}
	return N{"t": "arr", "vs": vs, "len": a.Len()}
}

func (h *hRun) dumpValue(v *json.Value, depth int) N {
	if h.left--; h.left < 0 || depth > 100 {
		return N{"t": "deep"}
	}
	if v == nil {
		return h.leaf(N{"t": "null"})
	}
	switch x := v.GetObject().(type) {
	case json.Map:
		return h.dumpMap(&x, depth, false)
	case *json.Map:
		if x != nil {
			return h.dumpMap(x, depth, false)
		}
	case json.Array:
		return h.dumpArray(&x, depth)
	case *json.Array:
		if x != nil {
			return h.dumpArray(x, depth)
		}
	}
	return h.leaf(dumpAny(v.GetObject(), depth))
}

func (h *hRun) dumpSlot(i int) (n N) {
	h.left = 60000
	if p := call(func() {
		switch x := h.slots[i].(type) {
		case *json.Map:
			n = h.dumpMap(x, 0, true)
		case *json.Array:
			n = h.dumpArray(x, 0)
		case *json.Value:
			n = N{"t": "val", "c": h.dumpValue(x, 0)}
		default:
			n = N{"t": "none"}
		}
	}); p != "" {
		n = N{"t": "panic"}
	}
	return n
}

func (h *hRun) content(x int) *C {
	if x == 0 {
		return &C{T: "null"}
	}
	return h.c.Cs[x-1]
}

// setAny puts the object of a slot into something, by one of the routes
func (h *hRun) refIntoMap(m *json.Map, k string, o any) {
	switch x := o.(type) {
	case nil:
		m.SetValue(k, nil)
	case *json.Value:
		m.SetValue(k, x)
	case *json.Map:
		switch h.r.n(6) {
		case 0:
			m.SetMapValue(k, *x)
		case 1:
			m.SetObjectForMap(k, x)
		case 2:
			m.SetObjectForMap(k, *x)
		case 3:
			m.SetValue(k, json.NewValue(x))
		default:
			m.SetMap(k, x)
		}
	case *json.Array:
		switch h.r.n(6) {
		case 0:
			m.SetArrayValue(k, *x)
		case 1:
			m.SetObjectForMap(k, x)
		case 2:
			m.SetObjectForMap(k, *x)
		case 3:
			m.SetValue(k, json.NewValue(x))
		default:
			m.SetArray(k, x)
		}
	}
}

func (h *hRun) refIntoArray(a *json.Array, o any) {
	switch x := o.(type) {
	case nil:
		a.AppendValue(nil)
	case *json.Value:
		if h.r.n(3) == 0 {
			a.AppendValueValue(*x)
		} else {
			a.AppendValue(x)
		}
	case *json.Map:
		switch h.r.n(4) {
		case 0:
			a.AppendMapValue(*x)
		case 1:
			a.AppendValue(json.NewValue(x))
		default:
			a.AppendMap(x)
		}
	case *json.Array:
		switch h.r.n(4) {
		case 0:
			a.AppendArrayValue(*x)
		case 1:
			a.AppendValue(json.NewValue(x))
		default:
			a.AppendArray(x)
		}
	}
}

// valueOf wraps a map or an array into a value; a value is itself
func (h *hRun) valueOf(o any) *json.Value {
	switch x := o.(type) {
	case *json.Value:
		return x
	case *json.Map:
		switch h.r.n(4) {
		case 0:
			return json.NewValue(*x)
		case 1:
			v := json.NewValueValue(x)
			return &v
		case 2:
			v := json.NewValue(nil)
			v.SetMap(x)
			return v
		}
		return json.NewValue(x)
	case *json.Array:
		switch h.r.n(4) {
		case 0:
			return json.NewValue(*x)
		case 1:
			v := json.NewValueValue(x)
			return &v
		case 2:
			v := json.NewValue(nil)
			v.SetArray(x)
			return v
		}
		return json.NewValue(x)
	}
	return nil
}

// an element of NewMapOfValues and NewArrayOfValues
func (h *hRun) elementOf(o any) any {
	switch x := o.(type) {
	case *json.Map:
		switch h.r.n(3) {
		case 0:
			return *x
		case 1:
			return h.valueOf(o)
		}
		return x
	case *json.Array:
		switch h.r.n(3) {
		case 0:
			return *x
		case 1:
			return h.valueOf(o)
		}
		return x
	case *json.Value:
		if h.r.n(2) == 0 {
			return *x
		}
		return x
	}
	return nil
}

func (h *hRun) setContent(v *json.Value, c *C) { setContent(v, c, h.r) }

// setContent gives a value that is in use another content.
func setContent(v *json.Value, c *C, r *rng) {
	if c.T == "null" {
		if c.K != "" && c.K != "Func" {
			invoke(v, "Set"+c.K, nil)
			return
		}
		switch r.n(3) {
		case 0:
			v.SetObject(nil)
		case 1:
			k := nullKinds[r.n(len(nullKinds))]
			if k == "Func" {
				k = "Bool"
			}
			invoke(v, "Set"+k, nil)
		default:
			v.SetNil()
		}
		return
	}
	switch c.T {
	case "map":
		m := buildMap(c, r)
		switch r.n(3) {
		case 0:
			v.SetMapValue(*m)
		case 1:
			v.SetObject(m)
		default:
			v.SetMap(m)
		}
		return
	case "arr":
		a := buildArray(c, r)
		switch r.n(3) {
		case 0:
			v.SetArrayValue(*a)
		case 1:
			v.SetObject(a)
		default:
			v.SetArray(a)
		}
		return
	}
	raw := goVal(c)
	if c.T == "func" {
		v.SetObject(ptrTo(raw))
		return
	}
	n := kindName(c)
	switch r.n(4) {
	case 0:
		v.SetObject(raw)
	case 1:
		if n != "" && has(v, "Set"+n) {
			invoke(v, "Set"+n, ptrTo(raw))
			return
		}
		v.SetObject(ptrTo(raw))
	default:
		if n != "" && has(v, "Set"+n+"Value") {
			invoke(v, "Set"+n+"Value", raw)
			return
		}
		v.SetObject(raw)
	}
}

func okErr(ok bool, err error) string {
	if ok && err == nil {
		return "true"
	}
	if !ok && err != nil {
		return "false"
	}
	return "odd"
}

// take puts what a getter returned into slot d
func (h *hRun) take(d int, o any, errs []error) string {
	if errs != nil {
		return "err"
	}
	if o == nil || reflect.ValueOf(o).IsNil() {
		h.slots[d-1] = nil
		return "nil"
	}
	h.slots[d-1] = o
	return "ok"
}

var badTexts = []string{"", "{", "}", "[]", `{"a"`, `{"a":`, `{"a":1`, `{"a":[1,{"b":"x"`, `{"a":1}}`, `{"a":1,}`, `{"a":tru}`, `{"a":01}`, `{"a":"x}`,
	`{"a":[1,2}`, `{"k1":{"k2":[1,"v",{"k3":nul}]}}`, `{a:1}`, `x`, `{"a":1}{"a":2}`}

func isQuery(name string) bool {
	for _, p := range []string{"Get", "Is", "Has", "To", "Values", "Len", "Clone"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var queryNames = map[reflect.Type][]string{}

func queriesOf(obj any) []string {
	t := reflect.TypeOf(obj).Elem()
	if l, ok := queryNames[t]; ok {
		return l
	}
	l := []string{}
	for i := 0; i < t.NumField(); i++ {
		if isQuery(t.Field(i).Name) {
			l = append(l, t.Field(i).Name)
		}
	}
	sort.Strings(l)
	queryNames[t] = l
	return l
}

// query calls n random queries of obj and drops what they return
func query(obj any, r *rng, keys []string, n int) {
	l := queriesOf(obj)
	for ; n > 0; n-- {
		name := l[r.n(len(l))]
		f := field(obj, name)
		t := f.Type()
		in := make([]reflect.Value, t.NumIn())
		for i := range in {
			switch t.In(i).String() {
			case "string":
				in[i] = reflect.ValueOf(keys[r.n(len(keys))])
			case "*string":
				k := keys[r.n(len(keys))]
				in[i] = reflect.ValueOf(&k)
			case "int":
				in[i] = reflect.ValueOf(r.n(8) - 1)
			case "*strings.Builder":
				in[i] = reflect.ValueOf(&strings.Builder{})
			default:
				in[i] = reflect.Zero(t.In(i))
			}
		}
		f.Call(in)
	}
}

func queryDeep(obj any, r *rng, keys []string, depth int) {
	query(obj, r, keys, 6)
	if depth == 0 {
		return
	}
	switch x := obj.(type) {
	case *json.Map:
		for _, k := range x.GetKeys() {
			if v := x.GetValue(k); v != nil && r.n(2) == 0 {
				queryDeep(v, r, keys, depth-1)
			}
		}
	case *json.Array:
		for _, v := range *x.GetValues() {
			if v != nil && r.n(2) == 0 {
				queryDeep(v, r, keys, depth-1)
			}
		}
	case *json.Value:
		if x.IsMap() {
			if m, _ := x.GetMap(); m != nil {
				queryDeep(m, r, keys, depth-1)
			}
		} else if x.IsArray() {
			if a, _ := x.GetArray(); a != nil {
				queryDeep(a, r, keys, depth-1)
			}
		}
	}
}

func (h *hRun) do(o hOp) (res string) {
	var sub any
	if o.S > 0 {
		sub = h.slots[o.S-1]
	}
	slot := func(x int) any {
		if x == 0 {
			return nil
		}
		return h.slots[x-1]
	}
	key := func() string { return h.keys[o.K-1] }
	r := h.r
	if p := call(func() {
		switch o.Op {
		case "newmap":
			h.slots[o.D-1] = buildMap(&C{T: "map"}, r)
			res = "ok"
		case "newarr":
			h.slots[o.D-1] = buildArray(&C{T: "arr"}, r)
			res = "ok"
		case "newval":
			h.slots[o.D-1] = buildValue(h.content(o.X), r, false)
			res = "ok"
		case "newref":
			v := h.valueOf(slot(o.X))
			h.slots[o.D-1] = v
			res = "ok"
		case "mapof":
			g := map[string]any{key(): h.elementOf(slot(o.X))}
			h.slots[o.D-1] = json.NewMapOfValues(&g)
			res = "ok"
		case "arrof":
			g := []any{h.elementOf(slot(o.X)), element(h.content(o.K), r)}
			h.slots[o.D-1] = json.NewArrayOfValues(&g)
			res = "ok"
		case "mset":
			putInMap(sub.(*json.Map), key(), h.content(o.X), r)
			res = "ok"
		case "mref":
			h.refIntoMap(sub.(*json.Map), key(), slot(o.X))
			res = "ok"
		case "mrem":
			res = okErr(sub.(*json.Map).RemoveKey(key()))
		case "mkeys":
			h.snaps = append(h.snaps, sub.(*json.Map).GetKeys())
			res = "ok"
		case "mvals":
			res = h.take(o.D, sub.(*json.Map).Values(), nil)
		case "mgetm":
			if o.Y == 1 {
				m, errs := sub.(*json.Map).GetMapValue(key())
				res = h.take(o.D, &m, errs)
			} else {
				m, errs := sub.(*json.Map).GetMap(key())
				res = h.take(o.D, m, errs)
			}
		case "mgeta":
			if o.Y == 1 {
				m, errs := sub.(*json.Map).GetArrayValue(key())
				res = h.take(o.D, &m, errs)
			} else {
				m, errs := sub.(*json.Map).GetArray(key())
				res = h.take(o.D, m, errs)
			}
		case "mgetv":
			res = h.take(o.D, sub.(*json.Map).GetValue(key()), nil)
		case "aapp":
			appendTo(sub.(*json.Array), h.content(o.X), r)
			res = "ok"
		case "aref":
			h.refIntoArray(sub.(*json.Array), slot(o.X))
			res = "ok"
		case "aset":
			res = okErr(sub.(*json.Array).SetValueAtIndex(o.K, h.valueOf(slot(o.X))))
		case "asetc":
			res = okErr(sub.(*json.Array).SetValueAtIndex(o.K, buildValue(h.content(o.X), r, true)))
		case "arem":
			res = okErr(sub.(*json.Array).RemoveValueAtIndex(o.K))
		case "agetm":
			m, errs := sub.(*json.Array).GetMap(o.K)
			res = h.take(o.D, m, errs)
		case "agetv":
			res = h.take(o.D, (*sub.(*json.Array).GetValues())[o.K], nil)
		case "aself":
			a, errs := sub.(*json.Array).GetArrayValue()
			res = h.take(o.D, &a, errs)
		case "vset":
			h.setContent(sub.(*json.Value), h.content(o.X))
			res = "ok"
		case "vref":
			v := sub.(*json.Value)
			switch x := slot(o.X).(type) {
			case *json.Map:
				switch r.n(4) {
				case 0:
					v.SetMapValue(*x)
				case 1:
					v.SetObject(x)
				default:
					v.SetMap(x)
				}
			case *json.Array:
				switch r.n(4) {
				case 0:
					v.SetArrayValue(*x)
				case 1:
					v.SetObject(x)
				default:
					v.SetArray(x)
				}
			}
			res = "ok"
		case "vgetm":
			if o.Y == 1 {
				m, errs := sub.(*json.Value).GetMapValue()
				res = h.take(o.D, &m, errs)
			} else {
				m, errs := sub.(*json.Value).GetMap()
				res = h.take(o.D, m, errs)
			}
		case "vgeta":
			if o.Y == 1 {
				m, errs := sub.(*json.Value).GetArrayValue()
				res = h.take(o.D, &m, errs)
			} else {
				m, errs := sub.(*json.Value).GetArray()
				res = h.take(o.D, m, errs)
			}
		case "clone":
			switch x := sub.(type) {
			case *json.Map:
				m, errs := x.Clone()
				res = h.take(o.D, m, errs)
			case *json.Array:
				m, errs := x.Clone()
				res = h.take(o.D, m, errs)
			case *json.Value:
				m, errs := x.Clone()
				res = h.take(o.D, m, errs)
			}
		case "reparse":
			var b strings.Builder
			if errs := sub.(*json.Map).ToJSONString(&b); errs != nil {
				res = "err"
				return
			}
			m, errs := json.Parse(b.String())
			res = h.take(o.D, m, errs)
		case "poke":
			if o.Y == 1 {
				h.pk = h.disturb(o.S - 1)
			} else {
				h.pk = h.poke(o.S - 1)
			}
			res = "ok"
		case "badparse":
			m, errs := json.Parse(badTexts[r.n(len(badTexts))])
			res = "ok"
			if m == nil && len(errs) > 0 {
				res = "err"
			}
		case "query":
			queryDeep(sub, r, append([]string{"no such key"}, h.keys...), 2)
			res = "ok"
		default:
			panic("driver: op " + o.Op)
		}
	}); p != "" {
		return "panic"
	}
	return res
}

// pointers collects the variables that a client finds behind the pointers in
// an object.
func (h *hRun) pointers(o any, out *[]reflect.Value, depth int) {
	if h.left--; h.left < 0 || depth > 100 {
		return
	}
	switch x := o.(type) {
	case *json.Map:
		if x != nil {
			for _, k := range x.GetKeys() {
				h.pointers(x.GetValue(k), out, depth+1)
			}
		}
	case json.Map:
		h.pointers(&x, out, depth)
	case *json.Array:
		if x != nil {
			for _, v := range *x.GetValues() {
				h.pointers(v, out, depth+1)
			}
		}
	case json.Array:
		h.pointers(&x, out, depth)
	case *json.Value:
		if x != nil {
			h.pointers(x.GetObject(), out, depth+1)
		}
	case nil:
	default:
		v := reflect.ValueOf(o)
		if v.Kind() == reflect.Pointer && !v.IsNil() {
			if _, isError := o.(error); isError {
				return
			}
			*out = append(*out, v.Elem())
			v = v.Elem()
		}
		if v.Kind() == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				*out = append(*out, v.Index(i))
			}
		}
	}
}

// other is a value that is not the one in v
func other(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Bool:
		n.SetBool(!v.Bool())
	case reflect.String:
		n.SetString(v.String() + "~")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n.SetInt(v.Int() ^ 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n.SetUint(v.Uint() ^ 1)
	case reflect.Float32, reflect.Float64:
		n.SetFloat(12345.5)
		if v.Float() == 12345.5 {
			n.SetFloat(1.5)
		}
	case reflect.Interface:
		if e, ok := v.Interface().(error); ok {
			n.Set(reflect.ValueOf(errOf(e.Error()+"~", "")))
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			n.Set(reflect.ValueOf(t.Add(time.Hour)))
		} else {
			return v
		}
	}
	return n
}

// objects collects the maps, arrays and values that a client finds in an
// object.
func (h *hRun) objects(o any, out *[]any, depth int) {
	if h.left--; h.left < 0 || depth > 100 {
		h.left = -1
		return
	}
	switch x := o.(type) {
	case *json.Map:
		if x != nil {
			*out = append(*out, x)
			for _, k := range x.GetKeys() {
				h.objects(x.GetValue(k), out, depth+1)
			}
		}
	case json.Map:
		h.objects(&x, out, depth)
	case *json.Array:
		if x != nil {
			*out = append(*out, x)
			for _, v := range *x.GetValues() {
				h.objects(v, out, depth+1)
			}
		}
	case json.Array:
		h.objects(&x, out, depth)
	case *json.Value:
		if x != nil {
			*out = append(*out, x)
			h.objects(x.GetObject(), out, depth+1)
		}
	}
}

// cloneOf clones an object just before it is changed: slot 0 of poke and
// disturb, which must not show anything.
func cloneOf(o any) any {
	if o == nil || reflect.ValueOf(o).IsNil() {
		return nil
	}
	switch x := o.(type) {
	case *json.Map:
		if c, errs := x.Clone(); errs == nil {
			return c
		}
	case *json.Array:
		if c, errs := x.Clone(); errs == nil {
			return c
		}
	case *json.Value:
		if c, errs := x.Clone(); errs == nil {
			return c
		}
	}
	return nil
}

func dumpClone(o any) any {
	if o == nil {
		return nil
	}
	return dumpAny(o, 0)
}

// disturb changes every object that is found in slot s, tells which slots show
// it, and undoes the changes. [-1]: too many objects, nothing done.
func (h *hRun) disturb(s int) []int {
	dumps := func() []string {
		r := []string{}
		for i := range h.slots {
			r = append(r, enc(h.dumpSlot(i)))
		}
		return r
	}
	before := dumps()
	witness := cloneOf(h.slots[s])
	seen := enc(dumpClone(witness))
	objs := []any{}
	h.left = 5000
	h.objects(h.slots[s], &objs, 0)
	if h.left < 0 {
		return []int{-1}
	}
	undo := []func(){}
	const fresh = "a key that no history uses"
	for _, o := range objs {
		switch x := o.(type) {
		case *json.Value:
			old := x.GetObject()
			x.SetObject("disturbed")
			undo = append(undo, func() { x.SetObject(old) })
		case *json.Array:
			x.AppendStringValue("disturbed")
			undo = append(undo, func() { x.RemoveValueAtIndex(x.Len() - 1) })
		case *json.Map:
			x.SetStringValue(fresh, "disturbed")
			undo = append(undo, func() { x.RemoveKey(fresh) })
		}
	}
	shown := []int{}
	for i, d := range dumps() {
		if d != before[i] {
			shown = append(shown, i+1)
		}
	}
	if enc(dumpClone(witness)) != seen {
		shown = append(shown, 0)
	}
	for i := len(undo) - 1; i >= 0; i-- {
		undo[i]()
	}
	return shown
}

// poke writes through all pointers of slot s, tells which slots show it, and
// writes back.
func (h *hRun) poke(s int) []int {
	dumps := func() []string {
		r := []string{}
		for i := range h.slots {
			r = append(r, enc(h.dumpSlot(i)))
		}
		return r
	}
	before := dumps()
	witness := cloneOf(h.slots[s])
	seen := enc(dumpClone(witness))
	vars := []reflect.Value{}
	h.left = 60000
	h.pointers(h.slots[s], &vars, 0)
	olds := []reflect.Value{}
	for _, v := range vars {
		old := reflect.New(v.Type()).Elem()
		old.Set(v)
		olds = append(olds, old)
		v.Set(other(v))
	}
	shown := []int{}
	for i, d := range dumps() {
		if d != before[i] {
			shown = append(shown, i+1)
		}
	}
	if enc(dumpClone(witness)) != seen {
		shown = append(shown, 0)
	}
	for i := len(vars) - 1; i >= 0; i-- {
		vars[i].Set(olds[i])
	}
	return shown
}

func init() {
	suites["H"] = func(raw []byte) N {
		var c hCase
		must(stdjson.Unmarshal(raw, &c))
		h := &hRun{c: &c, r: newRng(c.Rs), kidx: map[string]int{}, slots: make([]any, c.NS), tab: []N{}, tabi: map[string]int{}}
		for i, k := range c.Keys {
			h.keys = append(h.keys, ofCps(k))
			h.kidx[ofCps(k)] = i + 1
		}
		cs := []N{}
		for _, x := range c.Cs {
			cs = append(cs, dumpAny(goVal(x), 0))
		}
		steps := []N{}
		prev := make([]string, c.NS)
		for i := range prev {
			prev[i] = `{"t":"none"}`
		}
		for at, o := range c.Ops {
			h.pk = []int{}
			res := h.do(o)
			step := N{"op": o, "r": res, "pk": h.pk, "ob": 1}
			ch := []N{}
			if c.Look > 0 && (at+1)%c.Look != 0 && at != len(c.Ops)-1 && res != "panic" {
				step["ob"], step["ch"], step["sn"] = 0, ch, [][]int{}
				steps = append(steps, step)
				continue
			}
			for i := range h.slots {
				n := h.dumpSlot(i)
				b, err := stdjson.Marshal(n)
				must(err)
				if string(b) != prev[i] {
					prev[i] = string(b)
					ch = append(ch, N{"n": i + 1, "o": n})
				}
			}
			step["ch"] = ch
			sn := [][]int{}
			for _, s := range h.snaps {
				sn = append(sn, h.keyList(s))
			}
			step["sn"] = sn
			steps = append(steps, step)
			if res == "panic" {
				break
			}
		}
		return N{"id": c.ID, "ns": c.NS, "cs": cs, "tab": h.tab, "steps": steps, "nk": len(c.Keys), "late": min(c.Look, 1)}
	}
}
