package main

// Suite R: several goroutines use the library at the same time; nobody
// changes the document they share.

import (
	stdjson "encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/matehaxor03/holistic_json/json"
)

type rCall struct {
	Op   string  `json:"op"`
	Path []int   `json:"path"`
	Txt  []int   `json:"txt"`
	Doc  *C      `json:"doc"`
	Rs   int     `json:"rs"`
	Args [][]int `json:"args"`
}

type rCase struct {
	ID    int       `json:"id"`
	Doc   *C        `json:"doc"`
	Txt   []int     `json:"txt"`
	Rs    int       `json:"rs"`
	Progs [][]rCall `json:"progs"`
	Sched []int     `json:"sched"` // the order of the calls; empty: all at once
	Rep   int       `json:"rep"`
	Procs int       `json:"procs"`
}

func (c *rCase) build() *json.Map {
	if c.Txt != nil {
		m, errs := json.Parse(ofCps(c.Txt))
		if m == nil || errs != nil {
			return nil
		}
		return m
	}
	return buildMap(c.Doc, newRng(c.Rs))
}

// walk goes down from the root; path steps count modulo the number of children.
func walk(root *json.Map, path []int) (at any, owner *json.Map, key string) {
	at = root
	for _, p := range path {
		switch x := at.(type) {
		case *json.Map:
			ks := x.GetKeys()
			if len(ks) == 0 {
				return
			}
			owner, key = x, ks[p%len(ks)]
			v := x.GetValue(key)
			if v == nil {
				return x, x, key
			}
			at = v
		case *json.Value:
			var next *json.Value
			if x.IsMap() {
				m, _ := x.GetMap()
				if m == nil {
					return
				}
				ks := m.GetKeys()
				if len(ks) == 0 {
					return
				}
				owner, key = m, ks[p%len(ks)]
				next = m.GetValue(key)
			} else if x.IsArray() {
				a, _ := x.GetArray()
				if a == nil || a.Len() == 0 {
					return
				}
				owner = nil
				next = (*a.GetValues())[p%a.Len()]
			}
			if next == nil {
				return
			}
			at = next
		}
	}
	return
}

func class(errs []error) string {
	if errs != nil {
		return "err"
	}
	return "ok"
}

func (c *rCall) do(root *json.Map) (n N) {
	none := N{"t": "none"}
	n = N{"r": "ok", "s": []int{}, "node": none, "ks": [][]int{}, "x": ""}
	if p := call(func() { c.run(root, n) }); p != "" {
		return N{"r": "panic", "s": []int{}, "node": none, "ks": [][]int{}, "x": p}
	}
	return n
}

func (c *rCall) run(root *json.Map, n N) {
	var at any
	var owner *json.Map
	var key string
	switch c.Op {
	case "parse", "build":
	default:
		at, owner, key = walk(root, c.Path)
	}
	switch c.Op {
	case "parse":
		r, m := parseOnce(ofCps(c.Txt), 0)
		n["r"] = r["r"]
		if m != nil {
			n["node"] = r["node"]
			scramble(m)
		}
	case "build":
		m := buildMap(c.Doc, newRng(c.Rs))
		n["node"] = dumpMap(m, 0)
		var b strings.Builder
		n["r"] = class(m.ToJSONString(&b))
		n["s"] = cps(b.String())
		scramble(m)
	case "write":
		var b strings.Builder
		var errs []error
		switch x := at.(type) {
		case *json.Map:
			errs = x.ToJSONString(&b)
		case *json.Value:
			switch {
			case c.Rs%3 == 0 && x.IsMap():
				m, _ := x.GetMap()
				errs = m.ToJSONString(&b)
			case c.Rs%3 == 0 && x.IsArray():
				a, _ := x.GetArray()
				errs = a.ToJSONString(&b)
			case c.Rs%3 == 1:
				errs = json.ConvertInterfaceValueToJSONStringValue(&b, x.GetObject())
			default:
				errs = json.ConvertInterfaceValueToJSONStringValue(&b, x)
			}
		}
		n["r"] = class(errs)
		n["s"] = cps(b.String())
	case "clone":
		switch x := at.(type) {
		case *json.Map:
			m, errs := x.Clone()
			n["r"] = class(errs)
			if m != nil {
				n["node"] = dumpMap(m, 0)
				scramble(m)
			}
		case *json.Value:
			switch {
			case c.Rs%2 == 0 && x.IsMap():
				m, _ := x.GetMap()
				d, errs := m.Clone()
				n["r"] = class(errs)
				if d != nil {
					n["node"] = dumpMap(d, 0)
					scramble(d)
				}
			case c.Rs%2 == 0 && x.IsArray():
				a, _ := x.GetArray()
				d, errs := a.Clone()
				n["r"] = class(errs)
				if d != nil {
					n["node"] = dumpArray(d, 0)
					scrambleArray(d)
				}
			default:
				d, errs := x.Clone()
				n["r"] = class(errs)
				if d != nil {
					n["node"] = dumpValue(d, 0)
					scrambleValue(d)
				}
			}
		}
	case "dump":
		n["node"] = dumpAny(at, 0)
	case "keys":
		m := root
		if x, ok := at.(*json.Value); ok && x.IsMap() {
			m, _ = x.GetMap()
			n["x"] = "at"
		} else if at == any(root) {
			n["x"] = "at"
		}
		ks := m.GetKeys()
		l := [][]int{}
		for _, k := range ks {
			l = append(l, cps(k))
		}
		for i := range ks {
			ks[i] = "mine"
		}
		_ = append(ks, "mine")
		n["ks"] = l
		if m.Values() != nil {
			n["s"] = []int{len(l)}
		}
	case "ask":
		t := &nodeTable{[]N{}, map[string]int{}}
		x, ok := at.(*json.Value)
		if owner != nil {
			n["map"] = askMap(owner, key, t)
		} else {
			n["map"] = askMap(root, "absent", t)
		}
		if ok {
			n["value"] = askValue(x, t)
			if x.IsArray() {
				if a, _ := x.GetArray(); a != nil {
					n["array"], n["index"] = askArray(a, t)
				}
			}
		}
		n["tab"] = t.l
	case "text":
		if x, ok := at.(*json.Value); ok {
			n["txt"] = askText(map[string]any{"pointer to value": x, "value": *x, "object": x.GetObject()})
			n["eq"] = askEqual(x, c.Args, &nodeTable{[]N{}, map[string]int{}})
		}
	default:
		panic("driver: call " + c.Op)
	}
}

// what the race detector wrote since the last time
type raceLog struct {
	path string
	off  int64
}

func (l *raceLog) news() (int, string) {
	if l.path == "" {
		return 0, ""
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", l.path, os.Getpid()))
	if err != nil {
		return 0, ""
	}
	defer f.Close()
	st, err := f.Stat()
	must(err)
	b := make([]byte, st.Size()-l.off)
	_, err = f.ReadAt(b, l.off)
	if len(b) > 0 {
		must(err)
	}
	l.off = st.Size()
	s := string(b)
	k := 0
	first := ""
	for _, part := range strings.Split(s, "==================") {
		if strings.Contains(part, "WARNING: DATA RACE") {
			if !strings.Contains(part, "holistic_json/json") && !strings.Contains(part, "holistic_common") {
				panic("driver: data race in the driver: " + part)
			}
			k++
			if first == "" {
				first = part
			}
		}
	}
	if len(first) > 3000 {
		first = first[:3000]
	}
	return k, first
}

func init() {
	races := &raceLog{path: os.Getenv("HJ_RACELOG")}
	suites["R"] = func(raw []byte) N {
		var c rCase
		must(stdjson.Unmarshal(raw, &c))
		none := N{"t": "none"}
		rec := N{"id": c.ID, "r": "ok", "node": none, "after": none, "twin": none, "races": 0, "race": "", "tab": []N{}, "calls": []any{}, "alone": [][]int{}, "got": [][][]int{}}
		calls := []any{}
		for _, p := range c.Progs {
			l := []N{}
			for _, k := range p {
				t, q := k.Txt, k.Path
				if t == nil {
					t = []int{}
				} else {
					t = cps(ofCps(t))
				}
				if q == nil {
					q = []int{}
				}
				l = append(l, N{"op": k.Op, "path": q, "txt": t})
			}
			calls = append(calls, l)
		}
		rec["calls"] = calls
		var doc *json.Map
		if p := call(func() { doc = c.build() }); p != "" {
			rec["r"] = "panic"
			return rec
		}
		if doc == nil {
			rec["r"] = "noparse"
			return rec
		}
		old := 0
		if c.Procs > 0 {
			old = runtime.GOMAXPROCS(c.Procs)
		}
		races.news()
		rep := max(1, c.Rep)
		got := make([][][]N, len(c.Progs)) // goroutine, call, repetition
		for g, p := range c.Progs {
			got[g] = make([][]N, len(p))
			for k := range p {
				got[g][k] = make([]N, rep)
			}
		}
		var wg sync.WaitGroup
		if len(c.Sched) == 0 {
			start := make(chan struct{})
			for g := range c.Progs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for i := 0; i < rep; i++ {
						for k := range c.Progs[g] {
							got[g][k][i] = c.Progs[g][k].do(doc)
						}
					}
				}()
			}
			close(start)
		} else {
			turn := make([]chan bool, len(c.Progs))
			back := make(chan bool)
			for g := range c.Progs {
				turn[g] = make(chan bool)
				wg.Add(1)
				go func() {
					defer wg.Done()
					k := 0
					for range turn[g] {
						got[g][k][0] = c.Progs[g][k].do(doc)
						k++
						back <- true
					}
				}()
			}
			for _, g := range c.Sched {
				turn[g-1] <- true
				<-back
			}
			for g := range c.Progs {
				close(turn[g])
			}
		}
		wg.Wait()
		if old > 0 {
			runtime.GOMAXPROCS(old)
		}
		n, text := races.news()
		rec["races"], rec["race"] = n, text
		// the same calls, one after the other, on a document of its own
		var twin *json.Map
		alone := make([][]N, len(c.Progs))
		if p := call(func() {
			rec["after"] = dumpMap(doc, 0)
			twin = c.build()
			rec["node"] = dumpMap(twin, 0)
			for g, p := range c.Progs {
				for k := range p {
					alone[g] = append(alone[g], p[k].do(twin))
				}
			}
			rec["twin"] = dumpMap(twin, 0)
		}); p != "" {
			rec["r"] = "panic"
			return rec
		}
		tab := []N{}
		index := map[string]int{}
		of := func(n N) int {
			s := enc(n)
			if _, ok := index[s]; !ok {
				tab = append(tab, n)
				index[s] = len(tab)
			}
			return index[s]
		}
		ai := [][]int{}
		gi := [][][]int{}
		for g := range c.Progs {
			a, b := []int{}, [][]int{}
			for k := range c.Progs[g] {
				a = append(a, of(alone[g][k]))
				l := []int{}
				seen := map[int]bool{}
				for i := 0; i < rep; i++ {
					if x := of(got[g][k][i]); !seen[x] {
						seen[x] = true
						l = append(l, x)
					}
				}
				b = append(b, l)
			}
			ai, gi = append(ai, a), append(gi, b)
		}
		rec["alone"], rec["got"] = ai, gi
		// of the answers of accessors only the identity matters here
		slim := []N{}
		for _, n := range tab {
			slim = append(slim, N{"r": n["r"], "s": n["s"], "node": n["node"], "ks": n["ks"], "x": n["x"]})
		}
		rec["tab"] = slim
		return rec
	}
}
