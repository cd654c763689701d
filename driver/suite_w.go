package main

// Suite W: containers and values are serialised, and parsed again.

import (
	stdjson "encoding/json"
	"strings"

	"github.com/matehaxor03/holistic_json/json"
)

type wCase struct {
	ID   int    `json:"id"`
	Kind string `json:"kind"` // map, arr, val
	Doc  *C     `json:"doc"`  // built over the API, or
	Txt  []int  `json:"txt"`  // parsed
	Rs   int    `json:"rs"`
	Pre  []int  `json:"pre"`
	Cl   int    `json:"cl"` // cloned as well
}

func writeOnce(pre string, f func(b *strings.Builder) []error) (string, string) {
	var b strings.Builder
	b.WriteString(pre)
	var errs []error
	if p := call(func() { errs = f(&b) }); p != "" {
		return "panic", b.String()
	}
	if errs != nil {
		return "err", b.String()
	}
	return "ok", b.String()
}

// parts are the containers and value objects of a document, outermost first.
func parts(o any, found []any) []any {
	if len(found) > 300 {
		return found
	}
	found = append(found, o)
	below := func(v *json.Value) {
		if v == nil {
			return
		}
		found = append(found, v)
		if v.IsMap() {
			if m, errs := v.GetMap(); errs == nil && m != nil {
				found = parts(m, found)
			}
		} else if v.IsArray() {
			if a, errs := v.GetArray(); errs == nil && a != nil {
				found = parts(a, found)
			}
		}
	}
	switch x := o.(type) {
	case *json.Map:
		for _, k := range x.GetKeys() {
			below(x.GetValue(k))
		}
	case *json.Array:
		for _, v := range *x.GetValues() {
			below(v)
		}
	}
	return found
}

// wear uses a document before it is judged: it is written and cloned several
// times, with changes in between that are made through any part of it.
func wear(o any, r *rng) {
	for i := r.n(3); i >= 0; i-- {
		for k := r.n(5); k >= 0; k-- {
			var b strings.Builder
			switch x := o.(type) {
			case *json.Map:
				x.ToJSONString(&b)
				if r.n(3) == 0 {
					x.Clone()
				}
			case *json.Array:
				x.ToJSONString(&b)
				if r.n(3) == 0 {
					x.Clone()
				}
			}
		}
		all := parts(o, nil)
		switch x := all[r.n(len(all))].(type) {
		case *json.Map:
			keys := x.GetKeys()
			switch k := r.n(3); {
			case len(keys) > 0 && k == 0:
				x.RemoveKey(keys[r.n(len(keys))])
			case len(keys) > 0 && k == 1:
				putInMap(x, keys[r.n(len(keys))], passing(r), r)
			default:
				putInMap(x, "worn", passing(r), r)
			}
		case *json.Array:
			switch k := r.n(3); {
			case x.Len() > 0 && k == 0:
				x.RemoveValueAtIndex(r.n(x.Len()))
			case x.Len() > 0 && k == 1:
				x.SetValueAtIndex(r.n(x.Len()), buildValue(passing(r), r, true))
			default:
				appendTo(x, passing(r), r)
			}
		case *json.Value:
			setContent(x, passing(r), r)
		}
	}
}

func init() {
	suites["W"] = func(raw []byte) N {
		var c wCase
		must(stdjson.Unmarshal(raw, &c))
		none := N{"t": "none"}
		rec := N{"id": c.ID, "kind": c.Kind, "pre": c.Pre, "full": []int{}, "node": none, "after": none,
			"r": "none", "rp": "none", "rpn": none, "full2": []int{}, "r2": "none", "dep": 1, "rc": "none", "cn": none}
		if c.Pre == nil {
			rec["pre"] = []int{}
		}
		var write func(b *strings.Builder) []error
		var dump, copied func() N
		built := call(func() {
			if c.Txt != nil {
				m, errs := json.Parse(ofCps(c.Txt))
				if m == nil || errs != nil {
					rec["r"] = "noparse"
					return
				}
				if c.Rs%2 == 0 {
					wear(m, newRng(c.Rs))
				}
				write, dump = m.ToJSONString, func() N { return dumpMap(m, 0) }
				return
			}
			r := newRng(c.Rs)
			switch c.Kind {
			case "map":
				m := buildMap(c.Doc, r)
				if r.n(2) == 0 {
					wear(m, r)
				}
				write, dump = m.ToJSONString, func() N { return dumpMap(m, 0) }
				copied = func() N {
					c, errs := m.Clone()
					if errs != nil || c == nil {
						rec["rc"] = "err"
						return none
					}
					rec["rc"] = "ok"
					return dumpMap(c, 0)
				}
			case "arr":
				a := buildArray(c.Doc, r)
				if r.n(2) == 0 {
					wear(a, r)
				}
				write, dump = a.ToJSONString, func() N { return dumpArray(a, 0) }
				copied = func() N {
					c, errs := a.Clone()
					if errs != nil || c == nil {
						rec["rc"] = "err"
						return none
					}
					rec["rc"] = "ok"
					return dumpArray(c, 0)
				}
			default:
				v := buildAny(c.Doc, r)
				write = func(b *strings.Builder) []error { return json.ConvertInterfaceValueToJSONStringValue(b, v) }
				dump = func() N { return dumpAny(v, 0) }
			}
		})
		if built != "" {
			rec["r"] = "panic"
			return rec
		}
		if write == nil {
			return rec
		}
		if p := call(func() { rec["node"] = dump() }); p != "" {
			rec["r"] = "panic"
			return rec
		}
		pre := ofCps(c.Pre)
		r1, full := writeOnce(pre, write)
		rec["r"], rec["full"] = r1, cps(full)
		if p := call(func() { rec["after"] = dump() }); p != "" {
			rec["r"] = "panic"
			return rec
		}
		// the same thing again must give the same text
		if r1 == "ok" {
			if r3, full3 := writeOnce("", write); r3 != "ok" || !strings.HasPrefix(full, pre) || full3 != full[len(pre):] {
				rec["dep"] = 0
			}
		}
		if r1 == "ok" && c.Kind == "map" && strings.HasPrefix(full, pre) {
			rp, m := parseOnce(full[len(pre):], 0)
			rec["rp"] = rp["r"]
			if m != nil {
				rec["rpn"] = rp["node"]
				r2, full2 := writeOnce("", m.ToJSONString)
				rec["r2"], rec["full2"] = r2, cps(full2)
			}
		}
		if c.Cl == 1 && copied != nil {
			if p := call(func() { rec["cn"] = copied() }); p != "" {
				rec["rc"], rec["cn"] = "panic", none
			}
		}
		for _, k := range []string{"node", "after", "rpn", "cn"} {
			rec[k] = packed(rec[k].(N))
		}
		return rec
	}
}
