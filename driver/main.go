package main

// The conformance driver: reads cases (one JSON object per line), executes
// them on the real library and writes what happened (one JSON object per
// line). It judges nothing: TLC does, against the specification.

import (
	"bufio"
	stdjson "encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"time"
)

type suite func(raw []byte) N

var suites = map[string]suite{}

var caseTimeout = 60 * time.Second

// a case that makes the library allocate more than this does not end
const memoryLimit = 2 << 30

func main() {
	name := flag.String("suite", "", "suite")
	in := flag.String("cases", "", "cases")
	out := flag.String("out", "", "trace")
	skip := flag.Int("skip", 0, "cases to skip")
	tmo := flag.Int("timeout", 60, "seconds per case")
	flag.Parse()
	caseTimeout = time.Duration(*tmo) * time.Second
	debug.SetMaxStack(512 << 20)
	f, err := os.Open(*in)
	must(err)
	o, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	must(err)
	run, ok := suites[*name]
	if !ok {
		fmt.Fprintln(os.Stderr, "driver: no suite", *name)
		os.Exit(4)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	// The index of the running case and when it started: a case that does not
	// come back is reported as a hang, and the runner resumes after it.
	var started atomic.Int64
	var current atomic.Int64
	mem := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			s := started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > caseTimeout {
				fmt.Fprintf(os.Stderr, "HANG %d\n", current.Load())
				os.Exit(3)
			}
			metrics.Read(mem)
			if mem[0].Value.Uint64() > memoryLimit {
				fmt.Fprintf(os.Stderr, "HANG %d: memory\n", current.Load())
				os.Exit(3)
			}
		}
	}()
	i := 0
	for sc.Scan() {
		line := sc.Bytes()
		if len(line) == 0 {
			continue
		}
		if i < *skip {
			i++
			continue
		}
		current.Store(int64(i))
		started.Store(time.Now().UnixNano())
		rec := guard(run, line)
		took := time.Since(time.Unix(0, started.Load()))
		started.Store(0)
		if took > caseTimeout/5 {
			fmt.Fprintf(os.Stderr, "SLOW %d: %.1f s\n", i, took.Seconds())
		}
		b, err := stdjson.Marshal(rec)
		must(err)
		_, err = o.Write(append(b, '\n'))
		must(err)
		i++
	}
	must(sc.Err())
	must(o.Close())
	fmt.Fprintf(os.Stderr, "DONE %d\n", i)
}

func guard(run suite, line []byte) (rec N) {
	return run(line)
}

// call runs f; a panic of the library is an observation, not a crash.
func call(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
			if strings.HasPrefix(panicked, "driver:") {
				panic(r)
			}
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	f()
	return ""
}
