// Package lib is the scenario runner shared by all conformance drivers.
package lib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result is the verdict on one scenario.
type Result struct {
	I    int         `json:"i"`
	Ok   bool        `json:"ok"`
	Kind string      `json:"kind,omitempty"` // "safety": forbidden observation, "missing": expected observation absent
	Step int         `json:"step,omitempty"`
	Msg  string      `json:"msg,omitempty"`
	Obs  interface{} `json:"obs,omitempty"`
	Skip bool        `json:"skip,omitempty"`
}

var Slow = flag.Bool("slow", false, "generous time limits")
var Seed = flag.Int64("seed", 1, "")
var par = flag.Int("par", 0, "parallel scenarios")
var inFile = flag.String("in", "", "")
var outFile = flag.String("out", "", "")
var scnTimeout = flag.Duration("scn", 60*time.Second, "")
var maxBad = flag.Int("maxbad", 8, "stop after so many scenarios that differ")

// D scales a time limit in slow mode.
func D(d time.Duration) time.Duration {
	if *Slow {
		return 3 * d
	}
	return d
}

// Fail values are panicked by Bad/Missing and turned into results.
type fail struct{ r Result }

// Bad reports a forbidden observation.
func Bad(step int, format string, a ...interface{}) {
	panic(fail{Result{Kind: "safety", Step: step, Msg: fmt.Sprintf("step %d: ", step) + fmt.Sprintf(format, a...)}})
}

// Missing reports an expected observation that did not arrive in time.
func Missing(step int, format string, a ...interface{}) {
	panic(fail{Result{Kind: "missing", Step: step, Msg: fmt.Sprintf("step %d: ", step) + fmt.Sprintf(format, a...)}})
}

// Scratch returns a fresh directory inside the driver's scratch area.
func Scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	d, err := os.MkdirTemp(base, "s")
	if err != nil {
		panic(err)
	}
	return d
}

type item struct {
	I int             `json:"i"`
	S json.RawMessage `json:"s"`
}

// Main reads scenarios, runs each with f and writes results. f returns an observation (may be nil).
func Main(defaultPar int, f func(s json.RawMessage) interface{}) {
	flag.Parse()
	if *par > 0 {
		defaultPar = *par
	}
	in, err := os.Open(*inFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out, err := os.Create(*outFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var mu sync.Mutex
	emit := func(v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			b, _ = json.Marshal(Result{Msg: "marshal: " + err.Error()})
		}
		mu.Lock()
		out.Write(append(b, '\n'))
		mu.Unlock()
	}
	ch := make(chan item)
	var nbad int32
	var wg sync.WaitGroup
	for w := 0; w < defaultPar; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range ch {
				if atomic.LoadInt32(&nbad) >= int32(*maxBad) {
					emit(Result{I: it.I, Ok: true, Skip: true})
					continue
				}
				emit(map[string]interface{}{"i": it.I, "start": 1})
				r := one(it, f)
				r.I = it.I
				if !r.Ok {
					atomic.AddInt32(&nbad, 1)
				}
				emit(r)
			}
		}()
	}
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var it item
			if e := json.Unmarshal(line, &it); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(3)
			}
			ch <- it
		}
		if err != nil {
			break
		}
	}
	close(ch)
	wg.Wait()
	out.Close()
	os.Exit(0)
}

func one(it item, f func(s json.RawMessage) interface{}) (res Result) {
	done := make(chan Result, 1)
	go func() {
		var r Result
		defer func() { done <- r }()
		defer func() {
			if p := recover(); p != nil {
				if x, ok := p.(fail); ok {
					r = x.r
					return
				}
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i > 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				r = Result{Kind: "safety", Msg: fmt.Sprintf("panic: %v\n%s", p, st)}
			}
		}()
		o := f(it.S)
		r = Result{Ok: true, Obs: o}
	}()
	select {
	case r := <-done:
		return r
	case <-time.After(*scnTimeout):
		return Result{Kind: "missing", Msg: "scenario did not finish (hang)"}
	}
}

// Dec unmarshals or panics.
func Dec(s json.RawMessage, v interface{}) {
	if err := json.Unmarshal(s, v); err != nil {
		panic(fmt.Sprintf("bad scenario: %v: %.200s", err, s))
	}
}

// Bytes converts a JSON int array.
func Bytes(a []int) []byte {
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x)
	}
	return b
}

// Ints is the inverse of Bytes.
func Ints(b []byte) []int {
	a := make([]int, len(b))
	for i, x := range b {
		a[i] = int(x)
	}
	return a
}
