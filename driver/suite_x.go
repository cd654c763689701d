package main

// Suite X: containers that contain each other in any way, also themselves.

import (
	stdjson "encoding/json"
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/matehaxor03/holistic_json/json"
)

type xCase struct {
	ID   int     `json:"id"`
	Kind []int   `json:"kind"` // of each container: 0 map, 1 array
	G    [][]int `json:"g"`    // what each contains
	Op   string  `json:"op"`   // write, clone, walk
}

func init() {
	suites["X"] = func(raw []byte) N {
		debug.SetMaxStack(4 << 20)
		var c xCase
		must(stdjson.Unmarshal(raw, &c))
		all := []any{}
		for _, k := range c.Kind {
			if k == 0 {
				all = append(all, json.NewMap())
			} else {
				all = append(all, json.NewArray())
			}
		}
		for i, l := range c.G {
			for j, n := range l {
				switch o := all[i].(type) {
				case *json.Map:
					switch x := all[n-1].(type) {
					case *json.Map:
						o.SetMap(fmt.Sprint("k", j), x)
					case *json.Array:
						o.SetArray(fmt.Sprint("k", j), x)
					}
				case *json.Array:
					switch x := all[n-1].(type) {
					case *json.Map:
						o.AppendMap(x)
					case *json.Array:
						o.AppendArray(x)
					}
				}
			}
		}
		r := "ok"
		if p := call(func() {
			var errs []error
			switch c.Op {
			case "write":
				var b strings.Builder
				switch o := all[0].(type) {
				case *json.Map:
					errs = o.ToJSONString(&b)
				case *json.Array:
					errs = o.ToJSONString(&b)
				}
			case "clone":
				switch o := all[0].(type) {
				case *json.Map:
					_, errs = o.Clone()
				case *json.Array:
					_, errs = o.Clone()
				}
			case "walk": // down the first element, many times
				at := all[0]
				for range 200 {
					switch o := at.(type) {
					case *json.Map:
						at = nil
						if m, e := o.GetMap("k0"); m != nil && e == nil {
							at = m
						} else if a, e := o.GetArray("k0"); a != nil && e == nil {
							at = a
						}
					case *json.Array:
						at = nil
						if vs := *o.GetValues(); len(vs) > 0 {
							if m, e := vs[0].GetMap(); m != nil && e == nil {
								at = m
							} else if a, e := vs[0].GetArray(); a != nil && e == nil {
								at = a
							}
						}
					}
				}
			}
			if errs != nil {
				r = "err"
			}
		}); p != "" {
			r = "panic"
		}
		return N{"id": c.ID, "g": c.G, "op": c.Op, "r": r}
	}
}
