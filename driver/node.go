package main

// Projection of library objects to content nodes (see spec/HJBase.tla), and
// construction of Go values from case nodes.

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"os/exec"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/matehaxor03/holistic_json/json"
)

type N map[string]any

const badByte = 0x110000

// the element of a list of errors that is nil
const nilElement = -1

func cps(s string) []int {
	r := make([]int, 0, len(s))
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && n <= 1 {
			r = append(r, badByte+int(s[i]))
			i++
		} else {
			r = append(r, int(c))
			i += n
		}
	}
	return r
}

func ofCps(a []int) string {
	var b strings.Builder
	for _, c := range a {
		if c >= badByte {
			b.WriteByte(byte(c - badByte))
		} else {
			b.WriteRune(rune(c))
		}
	}
	return b.String()
}

func digitsOf(s string) []int {
	s = strings.TrimLeft(s, "0")
	d := make([]int, len(s))
	for i := range s {
		d[i] = int(s[i] - '0')
	}
	return d
}

func intParts(s string) (int, []int) {
	if strings.HasPrefix(s, "-") {
		return 1, digitsOf(s[1:])
	}
	return 0, digitsOf(s)
}

func intNode(k string, s string) N {
	n, d := intParts(s)
	return N{"t": "int", "k": k, "n": n, "d": d}
}

// decimal of a text like 1.2345e+10 as 0.d1d2.. * 10^e
func decOf(s string) N {
	s = strings.TrimPrefix(s, "-")
	m, es, _ := strings.Cut(s, "e")
	e, _ := strconv.Atoi(es)
	ip, fp, _ := strings.Cut(m, ".")
	all := strings.TrimRight(ip+fp, "0")
	e -= len(fp)
	e += len(ip+fp) - len(all)
	t := strings.TrimLeft(all, "0")
	if t == "" {
		return N{"d": []int{}, "e": 0}
	}
	d := make([]int, len(t))
	for i := range t {
		d[i] = int(t[i] - '0')
	}
	return N{"d": d, "e": e + len(t)}
}

const boundDigits = 60

// a bound rounded away from the interval to boundDigits digits
func boundDec(x *big.Float, up bool) N {
	if x.Sign() == 0 {
		return N{"d": []int{}, "e": 0}
	}
	s := x.Text('e', 75)
	d := decOf(s)
	ds := d["d"].([]int)
	if len(ds) > boundDigits {
		cut := append([]int{}, ds[:boundDigits]...)
		e := d["e"].(int)
		if up {
			i := boundDigits - 1
			for ; i >= 0; i-- {
				if cut[i] == 9 {
					cut[i] = 0
				} else {
					cut[i]++
					break
				}
			}
			if i < 0 {
				cut = []int{1}
				e++
			}
		}
		for len(cut) > 0 && cut[len(cut)-1] == 0 {
			cut = cut[:len(cut)-1]
		}
		return N{"d": cut, "e": e}
	}
	return d
}

func bf(x float64) *big.Float { return new(big.Float).SetPrec(128).SetFloat64(x) }

func mid(a, b *big.Float) *big.Float {
	s := new(big.Float).SetPrec(128).Add(a, b)
	return s.Quo(s, bf(2))
}

// magnitudes that round to |w|
func interval64(w float64) (N, N) {
	w = math.Abs(w)
	if w == 0 {
		return boundDec(bf(0), false), boundDec(mid(bf(0), bf(math.SmallestNonzeroFloat64)), true)
	}
	lo := mid(bf(math.Nextafter(w, 0)), bf(w))
	var hi *big.Float
	if w == math.MaxFloat64 {
		top := new(big.Float).SetPrec(128).SetMantExp(bf(1), 1024)
		hi = mid(bf(w), top)
	} else {
		hi = mid(bf(w), bf(math.Nextafter(w, math.Inf(1))))
	}
	return boundDec(lo, false), boundDec(hi, true)
}

func interval32(w float32) (N, N) {
	if w < 0 {
		w = -w
	}
	if w == 0 {
		return boundDec(bf(0), false), boundDec(mid(bf(0), bf(float64(math.SmallestNonzeroFloat32))), true)
	}
	lo := mid(bf(float64(math.Nextafter32(w, 0))), bf(float64(w)))
	var hi *big.Float
	if w == math.MaxFloat32 {
		hi = mid(bf(float64(w)), new(big.Float).SetPrec(128).SetMantExp(bf(1), 128))
	} else {
		hi = mid(bf(float64(w)), bf(float64(math.Nextafter32(w, float32(math.Inf(1))))))
	}
	return boundDec(lo, false), boundDec(hi, true)
}

func fltNode(k string, v float64) N {
	if math.IsNaN(v) {
		return N{"t": "fltx", "k": k, "x": "nan"}
	}
	if math.IsInf(v, 0) {
		n := 0
		if v < 0 {
			n = 1
		}
		return N{"t": "fltx", "k": k, "x": "inf", "n": n}
	}
	bits := 64
	if k == "float32" {
		bits = 32
	}
	s := strconv.FormatFloat(v, 'e', -1, bits)
	d := decOf(s)
	n := 0
	if strings.HasPrefix(s, "-") && len(d["d"].([]int)) > 0 {
		n = 1
	}
	w := v
	if bits == 32 {
		w, _ = strconv.ParseFloat(s, 64)
	}
	r := N{"t": "flt", "k": k, "n": n, "d": d["d"], "e": d["e"], "z": 0}
	if v == 0 && math.Signbit(v) {
		r["z"] = 1
	}
	r["lo"], r["hi"] = interval64(w)
	if bits == 32 {
		r["l32"], r["h32"] = interval32(float32(v))
		// the exact value, as a 64 bit float
		x := decOf(strconv.FormatFloat(v, 'e', -1, 64))
		r["x"] = x
	} else {
		r["l32"], r["h32"] = r["lo"], r["hi"]
		r["x"] = N{"d": d["d"], "e": d["e"]}
	}
	return r
}

func timeNode(t time.Time) N {
	ns := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1000000000))
	ns.Add(ns, big.NewInt(int64(t.Nanosecond())))
	n, d := intParts(ns.String())
	_, off := t.Zone()
	return N{"t": "time", "s": cps(t.Format("2006-01-02 15:04:05.000000")), "f": cps(t.Format("2006-01-02 15:04:05.000000000")), "n": n, "d": d, "off": off}
}

const maxDepth = 3000

func dumpMap(m *json.Map, depth int) N {
	ks := [][]int{}
	vs := []N{}
	for _, k := range m.GetKeys() {
		ks = append(ks, cps(k))
		vs = append(vs, dumpValue(m.GetValue(k), depth+1))
	}
	return N{"t": "map", "ks": ks, "vs": vs}
}

func dumpArray(a *json.Array, depth int) N {
	vs := []N{}
	for _, v := range *(a.GetValues()) {
		vs = append(vs, dumpValue(v, depth+1))
	}
	return N{"t": "arr", "vs": vs}
}

func dumpValue(v *json.Value, depth int) N {
	if v == nil {
		return N{"t": "null"}
	}
	return dumpAny(v.GetObject(), depth)
}

func errNode(e error) N {
	if e == nil {
		return N{"t": "null"}
	}
	return N{"t": "err", "s": cps(e.Error())}
}

func strsNode(l []string) N {
	r := [][]int{}
	for _, s := range l {
		r = append(r, cps(s))
	}
	return N{"t": "strs", "l": r}
}

func errsNode(l []error) N {
	r := [][]int{}
	for _, e := range l {
		if e == nil {
			r = append(r, []int{nilElement})
			continue
		}
		r = append(r, cps(e.Error()))
	}
	return N{"t": "errs", "l": r}
}

func dumpAny(o any, depth int) N {
	if depth > maxDepth {
		return N{"t": "other", "k": "too deep"}
	}
	null := N{"t": "null"}
	switch x := o.(type) {
	case nil:
		return null
	case json.Map:
		return dumpMap(&x, depth)
	case *json.Map:
		if x == nil {
			return null
		}
		return dumpMap(x, depth)
	case json.Array:
		return dumpArray(&x, depth)
	case *json.Array:
		if x == nil {
			return null
		}
		return dumpArray(x, depth)
	case json.Value:
		return dumpValue(&x, depth)
	case *json.Value:
		return dumpValue(x, depth)
	case string:
		return N{"t": "str", "s": cps(x)}
	case *string:
		if x == nil {
			return null
		}
		return N{"t": "str", "s": cps(*x)}
	case bool:
		return boolNode(x)
	case *bool:
		if x == nil {
			return null
		}
		return boolNode(*x)
	case int:
		return intNode("int", strconv.FormatInt(int64(x), 10))
	case int8:
		return intNode("int8", strconv.FormatInt(int64(x), 10))
	case int16:
		return intNode("int16", strconv.FormatInt(int64(x), 10))
	case int32:
		return intNode("int32", strconv.FormatInt(int64(x), 10))
	case int64:
		return intNode("int64", strconv.FormatInt(int64(x), 10))
	case uint:
		return intNode("uint", strconv.FormatUint(uint64(x), 10))
	case uint8:
		return intNode("uint8", strconv.FormatUint(uint64(x), 10))
	case uint16:
		return intNode("uint16", strconv.FormatUint(uint64(x), 10))
	case uint32:
		return intNode("uint32", strconv.FormatUint(uint64(x), 10))
	case uint64:
		return intNode("uint64", strconv.FormatUint(uint64(x), 10))
	case *int:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case *int8:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case *int16:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case *int32:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case *int64:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case *uint:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case *uint8:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case *uint16:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case *uint32:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case *uint64:
		if x == nil {
			return null
		}
		return dumpAny(*x, depth)
	case float32:
		return fltNode("float32", float64(x))
	case *float32:
		if x == nil {
			return null
		}
		return fltNode("float32", float64(*x))
	case float64:
		return fltNode("float64", x)
	case *float64:
		if x == nil {
			return null
		}
		return fltNode("float64", *x)
	case time.Time:
		return timeNode(x)
	case *time.Time:
		if x == nil {
			return null
		}
		return timeNode(*x)
	case *error:
		if x == nil {
			return null
		}
		return errNode(*x)
	case []string:
		return strsNode(x)
	case *[]string:
		if x == nil {
			return null
		}
		return strsNode(*x)
	case []error:
		return errsNode(x)
	case *[]error:
		if x == nil {
			return null
		}
		return errsNode(*x)
	case func(string) []error:
		if x == nil {
			return null
		}
		return N{"t": "func"}
	case *func(string) []error:
		if x == nil || *x == nil {
			return null
		}
		return N{"t": "func"}
	case error:
		return errNode(x)
	}
	return N{"t": "other", "k": strings.TrimLeft(fmt.Sprintf("%T", o), "*")}
}

func boolNode(b bool) N {
	if b {
		return N{"t": "bool", "b": 1}
	}
	return N{"t": "bool", "b": 0}
}

// ---------------------------------------------------------------- case nodes

// C is a content node as written in a case: like N, but floats and times are
// given as text ("lit"), integers too.
type C struct {
	T   string  `json:"t"`
	B   int     `json:"b,omitempty"`
	S   []int   `json:"s,omitempty"`
	K   string  `json:"k,omitempty"`
	Lit string  `json:"lit,omitempty"`
	Ks  [][]int `json:"ks,omitempty"`
	Vs  []*C    `json:"vs,omitempty"`
	L   [][]int `json:"l,omitempty"`
}

var sharedFunc = func(s string) []error { return nil }

type plainError struct{ s string }

func (e plainError) Error() string { return e.s }

type pointerError struct{ s string }

func (e *pointerError) Error() string { return e.s }

var errKinds = []string{"", "fmt", "wrap", "url", "exit", "plain", "pointer", "join", "join1"}

// errOf is an error of one of the kinds a caller may have
func errOf(s, kind string) error {
	switch kind {
	case "fmt":
		return fmt.Errorf("%s", s)
	case "wrap":
		return fmt.Errorf("%w", errors.New(s))
	case "url":
		return &url.Error{Op: "Get", URL: "http://h/?q=\"x\"", Err: errors.New(s)}
	case "exit":
		return &exec.ExitError{Stderr: []byte(s)}
	case "plain":
		return plainError{s}
	case "pointer":
		return &pointerError{s}
	case "join":
		return errors.Join(errors.New(s), errors.New("second"))
	case "join1":
		return errors.Join(errors.New(s))
	}
	return errors.New(s)
}

// goVal gives the raw Go value of a scalar case node.
func goVal(c *C) any {
	switch c.T {
	case "null":
		return nil
	case "bool":
		return c.B == 1
	case "str":
		return ofCps(c.S)
	case "int":
		switch c.K {
		case "int", "int8", "int16", "int32", "int64":
			v, err := strconv.ParseInt(c.Lit, 10, 64)
			must(err)
			switch c.K {
			case "int":
				return int(v)
			case "int8":
				return int8(v)
			case "int16":
				return int16(v)
			case "int32":
				return int32(v)
			}
			return v
		}
		v, err := strconv.ParseUint(c.Lit, 10, 64)
		must(err)
		switch c.K {
		case "uint":
			return uint(v)
		case "uint8":
			return uint8(v)
		case "uint16":
			return uint16(v)
		case "uint32":
			return uint32(v)
		}
		return v
	case "flt":
		if c.K == "float32" {
			v, _ := strconv.ParseFloat(c.Lit, 32)
			return float32(v)
		}
		v, _ := strconv.ParseFloat(c.Lit, 64)
		return v
	case "time":
		// "…Z@3605": in a zone that is so many seconds east
		lit, zone, placed := strings.Cut(c.Lit, "@")
		t, err := time.Parse(time.RFC3339Nano, lit)
		must(err)
		if strings.HasSuffix(lit, "Z") {
			t = t.UTC()
		}
		if placed {
			east, err := strconv.Atoi(zone)
			must(err)
			t = t.In(time.FixedZone("", east))
		}
		return t
	case "err":
		return errOf(ofCps(c.S), c.K)
	case "strs":
		r := []string{}
		for _, s := range c.L {
			r = append(r, ofCps(s))
		}
		return r
	case "errs":
		r := []error{}
		for i, s := range c.L {
			if len(s) == 1 && s[0] == nilElement {
				r = append(r, nil)
				continue
			}
			k := c.K
			if k == "mix" {
				k = errKinds[i%len(errKinds)]
			}
			r = append(r, errOf(ofCps(s), k))
		}
		return r
	case "func":
		return sharedFunc
	case "other":
		return struct{ A int }{1}
	}
	panic("goVal " + c.T)
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("driver: %v", err))
	}
}

// packed is n itself, or, if it is nested too deeply for the reader of the
// specification, its events in document order (of a map with n under "").
func packed(n N) N {
	if nesting(n) <= 80 {
		return n
	}
	ev := []N{{"e": "map"}, {"e": "key", "s": []int{}}}
	events(n, &ev)
	return N{"t": "flat", "ev": append(ev, N{"e": "end"})}
}

func nesting(n N) int {
	d := 0
	if vs, ok := n["vs"].([]N); ok {
		for _, v := range vs {
			d = max(d, nesting(v))
		}
	}
	return d + 1
}

func events(n N, out *[]N) {
	vs, ok := n["vs"].([]N)
	if !ok {
		*out = append(*out, N{"e": "leaf", "v": n})
		return
	}
	*out = append(*out, N{"e": n["t"]})
	for i, v := range vs {
		if ks, ok := n["ks"].([][]int); ok {
			*out = append(*out, N{"e": "key", "s": ks[i]})
		}
		events(v, out)
	}
	*out = append(*out, N{"e": "end"})
}
