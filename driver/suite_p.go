package main

// Suite P: texts are parsed.

import (
	stdjson "encoding/json"
	"fmt"

	"github.com/matehaxor03/holistic_json/json"
)

type pCase struct {
	ID  int    `json:"id"`
	Fam string `json:"fam"`
	Txt []int  `json:"txt"`
	// the result is recorded as a sequence of events, not as a tree
	Flat int `json:"flat"`
}

// flatten walks o and emits its events in document order.
func flatten(v *json.Value, out *[]N, depth int) {
	if depth > 20000 {
		*out = append(*out, N{"e": "leaf", "v": N{"t": "other", "k": "too deep"}})
		return
	}
	if v != nil && v.IsMap() {
		m, errs := v.GetMap()
		if errs == nil && m != nil {
			flattenMap(m, out, depth)
			return
		}
	}
	if v != nil && v.IsArray() {
		a, errs := v.GetArray()
		if errs == nil && a != nil {
			*out = append(*out, N{"e": "arr"})
			for _, x := range *a.GetValues() {
				flatten(x, out, depth+1)
			}
			*out = append(*out, N{"e": "end"})
			return
		}
	}
	*out = append(*out, N{"e": "leaf", "v": dumpValue(v, 0)})
}

func flattenMap(m *json.Map, out *[]N, depth int) {
	*out = append(*out, N{"e": "map"})
	for _, k := range m.GetKeys() {
		*out = append(*out, N{"e": "key", "s": cps(k)})
		flatten(m.GetValue(k), out, depth+1)
	}
	*out = append(*out, N{"e": "end"})
}

// shape is what m holds, as a tree or as events
func shape(m *json.Map, flat int) any {
	if flat == 0 {
		return dumpMap(m, 0)
	}
	l := []N{}
	flattenMap(m, &l, 0)
	return l
}

func parseOnce(s string, flat int) (N, *json.Map) {
	var m *json.Map
	var errs []error
	if p := call(func() { m, errs = json.Parse(s) }); p != "" {
		return N{"r": "panic", "why": p}, nil
	}
	switch {
	case m != nil && len(errs) == 0 && errs == nil:
		var n any
		if p := call(func() { n = shape(m, flat) }); p != "" {
			return N{"r": "panic", "why": p}, nil
		}
		return N{"r": "ok", "node": n}, m
	case m == nil && len(errs) > 0:
		for _, e := range errs {
			if e == nil {
				return N{"r": "neither", "why": "nil error"}, nil
			}
		}
		return N{"r": "err"}, nil
	case m != nil:
		return N{"r": "both", "why": fmt.Sprint(errs)}, nil
	}
	return N{"r": "neither"}, nil
}

// scramble changes everything that can be reached from m.
func scramble(m *json.Map) {
	for _, k := range m.GetKeys() {
		scrambleValue(m.GetValue(k))
	}
	for _, k := range m.GetKeys() {
		m.RemoveKey(k)
	}
	m.SetStringValue("scrambled", "x")
}

func scrambleArray(a *json.Array) {
	vs := append([]*json.Value{}, *(a.GetValues())...)
	for _, v := range vs {
		scrambleValue(v)
	}
	a.AppendStringValue("scrambled")
	if a.Len() > 1 {
		a.RemoveValueAtIndex(0)
	}
}

func scrambleValue(v *json.Value) {
	if v == nil {
		return
	}
	if v.IsMap() {
		if c, e := v.GetMap(); e == nil && c != nil {
			scramble(c)
		}
	} else if v.IsArray() {
		if c, e := v.GetArray(); e == nil && c != nil {
			scrambleArray(c)
		}
	}
	v.SetStringValue("scrambled")
}

func enc(n any) string {
	b, err := stdjson.Marshal(n)
	must(err)
	return string(b)
}

func init() {
	suites["P"] = func(raw []byte) N {
		var c pCase
		must(stdjson.Unmarshal(raw, &c))
		s := ofCps(c.Txt)
		rec, m1 := parseOnce(s, c.Flat)
		rec["id"], rec["fam"], rec["txt"] = c.ID, c.Fam, cps(s)
		again, ind := 1, 1
		rec2, m2 := parseOnce(s, c.Flat)
		if rec2["r"] != rec["r"] {
			again = 0
		} else if rec["r"] == "ok" {
			d1 := enc(rec["node"])
			if enc(rec2["node"]) != d1 {
				again = 0
			}
			if p := call(func() { scramble(m1) }); p != "" {
				ind = 0
				rec["why"] = "scramble: " + p
			} else if p := call(func() {
				if enc(shape(m2, c.Flat)) != d1 {
					ind = 0
				}
				// and a third time, after the first result was changed
				rec3, _ := parseOnce(s, c.Flat)
				if rec3["r"] != "ok" || enc(rec3["node"]) != d1 {
					again = 0
				}
			}); p != "" {
				ind = 0
			}
		}
		rec["again"], rec["ind"] = again, ind
		if _, ok := rec["node"]; !ok {
			rec["node"] = N{"t": "none"}
		}
		rec["flat"] = []N{}
		if l, ok := rec["node"].([]N); ok {
			rec["flat"], rec["node"] = l, N{"t": "none"}
		}
		delete(rec, "why")
		return rec
	}
}
