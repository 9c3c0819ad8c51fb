package main

// record IN OUT SKIP: run each call of IN (one JSON object {"d","s"} per line, the
// first SKIP lines left out) against the library and append to OUT one line
// {"d","x","o"} per call: the recorded trace. One line is written per finished call, so that
// after a crash of the process the number of lines tells which call crashed it.
// (exact: also the exact form of the results; light: without the text; bare: the outcome only; form: the JSON form).
// Exit: 0 all done; 3 a call did not return in time; 4 memory limit exceeded.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Input struct {
	D string `json:"d"`
	S string `json:"s"`
	B []byte `json:"b,omitempty"` // the text, if it is not valid UTF-8
}

func (in Input) text() string {
	if len(in.B) > 0 {
		return string(in.B)
	}
	return in.S
}

type Record struct {
	D string   `json:"d"`
	X []string `json:"x"`
	O Outcome  `json:"o"`
	J string   `json:"j,omitempty"` // exact: the JSON text of the tables and the Go syntax of the error
}

// for texts too large for the specification: number of newlines, and whether the near part
// of the error occurs in the text
type Light struct {
	D   string  `json:"d"`
	NL  int     `json:"nl"`
	Sub bool    `json:"sub"`
	O   Outcome `json:"o"`
}

var light, exact, bare, forms bool

func chars(s string) []string {
	r := []string{}
	for _, c := range s {
		r = append(r, string(c))
	}
	return r
}

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func readInputs(path string, each func(i int, in Input)) {
	f, err := os.Open(path)
	if err != nil {
		die(2, "%v", err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	i := 0
	for sc.Scan() {
		var in Input
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			die(2, "input %d: %v", i, err)
		}
		in.S = in.text()
		each(i, in)
		i++
	}
	if sc.Err() != nil {
		die(2, "%v", sc.Err())
	}
	f.Close()
}

const memLimit = 3 << 30

func record(inPath, outPath string, skip int, limit time.Duration) {
	out, err := os.OpenFile(outPath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		die(2, "%v", err)
	}
	w := bufio.NewWriterSize(out, 1<<16)
	var started atomic.Int64 // unix nanoseconds at which the current call began, 0 when none
	var size atomic.Int64
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if t := started.Load(); t != 0 {
				lim := limit + time.Duration(size.Load())*time.Millisecond/2
				if time.Since(time.Unix(0, t)) > lim {
					os.Exit(3)
				}
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > memLimit {
					os.Exit(4)
				}
			}
		}
	}()
	readInputs(inPath, func(i int, in Input) {
		if i < skip {
			return
		}
		size.Store(int64(len(in.S)))
		started.Store(time.Now().UnixNano())
		var fr FormRecord
		var o Outcome
		if forms {
			fr = form(in.D, in.S)
		} else {
			o = call(in.D, in.S)
		}
		if !exact {
			started.Store(0)
		}
		var b []byte
		var err error
		if forms {
			b, err = json.Marshal(fr)
		} else if light {
			sub := o.Near == "<EOF>" || strings.Contains(in.S, o.Near)
			o.Near = ""
			if o.K == "ok" {
				o.Tabs = []Table{}
			}
			b, err = json.Marshal(Light{in.D, strings.Count(in.S, "\n"), sub, o})
		} else if bare {
			b, err = json.Marshal(o)
		} else {
			r := Record{D: in.D, X: chars(in.S), O: o}
			if exact {
				r.J = exactly(in.D, in.S)
			}
			b, err = json.Marshal(r)
		}
		started.Store(0)
		if err != nil {
			die(2, "%v", err)
		}
		w.Write(b)
		w.WriteByte('\n')
		if err := w.Flush(); err != nil {
			die(2, "%v", err)
		}
	})
	if err := out.Close(); err != nil {
		die(2, "%v", err)
	}
}

func main() {
	debug.SetMaxStack(512 << 20)
	if len(os.Args) < 2 {
		die(2, "usage: harness record|light|session|solo ...")
	}
	switch os.Args[1] {
	case "record", "exact", "bare", "form":
		exact, bare, forms = os.Args[1] == "exact", os.Args[1] == "bare", os.Args[1] == "form"
		skip, _ := strconv.Atoi(os.Args[4])
		sec, _ := strconv.Atoi(os.Args[5])
		record(os.Args[2], os.Args[3], skip, time.Duration(sec)*time.Second)
	case "light":
		sec, _ := strconv.Atoi(os.Args[5])
		skip, _ := strconv.Atoi(os.Args[4])
		light = true
		record(os.Args[2], os.Args[3], skip, time.Duration(sec)*time.Second)
	case "session":
		sec, _ := strconv.Atoi(os.Args[4])
		runSession(os.Args[2], os.Args[3], time.Duration(sec)*time.Second)
	case "solo":
		solo()
	default:
		die(2, "unknown command %s", os.Args[1])
	}
}
