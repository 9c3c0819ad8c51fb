package main

// Sessions: several calls in one process, in sequence or concurrently.
//
// solo: one call in a fresh process; reads {"d","s"} from stdin, prints the digest of the outcome.
//
// session IN OUT: IN holds {"texts":[{"d","s"}...], "clients":[[op...]...], "shared": bool} with
// op = key (call texts[key]), -key-1 (overwrite everything in the last result of that key that this
// client holds) or times*burst+key (call texts[key] so many times and keep no result). Every client runs in its own goroutine. The events of the session are written to
// OUT. With "shared" the events are ordered by a lock around the log; without it every client keeps
// its own log, so that nothing but the library itself synchronises the calls (for the race detector),
// and the logs are written one after the other.

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/kodaimura/ddlparse"
)

func digest(o Outcome) string {
	b, err := json.Marshal(o)
	if err != nil {
		die(2, "%v", err)
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

type Session struct {
	Texts   []Input `json:"texts"`
	Clients [][]int `json:"clients"`
	Shared  bool    `json:"shared"`
}

type Event struct {
	Ev string `json:"ev"`
	C  int    `json:"c"`
	K  int    `json:"k"`
	I  int    `json:"i"` // number of the call within its client
	O  string `json:"o"`

	Os []string `json:"os,omitempty"` // burst: the different outcomes
}

const burst = 1000000

type kept struct {
	key     int
	tabs    []ddlparse.Table
	err     error
	spoiled bool
	panics  bool
}

// overwrite everything a caller can reach through a result
func spoil(ts []ddlparse.Table) {
	for i := range ts {
		t := &ts[i]
		for j := range t.Columns {
			c := &t.Columns[j]
			for k := range c.Constraint.References.ColumnNames {
				c.Constraint.References.ColumnNames[k] = "spoiled"
			}
			*c = ddlparse.Column{Name: "spoiled"}
		}
		for j := range t.Constraints.PrimaryKey {
			for k := range t.Constraints.PrimaryKey[j].ColumnNames {
				t.Constraints.PrimaryKey[j].ColumnNames[k] = "spoiled"
			}
			t.Constraints.PrimaryKey[j].Name = "spoiled"
		}
		for j := range t.Constraints.Unique {
			for k := range t.Constraints.Unique[j].ColumnNames {
				t.Constraints.Unique[j].ColumnNames[k] = "spoiled"
			}
			t.Constraints.Unique[j].Name = "spoiled"
		}
		for j := range t.Constraints.Check {
			t.Constraints.Check[j] = ddlparse.Check{Name: "spoiled", Expr: "spoiled"}
		}
		for j := range t.Constraints.ForeignKey {
			f := &t.Constraints.ForeignKey[j]
			for k := range f.ColumnNames {
				f.ColumnNames[k] = "spoiled"
			}
			for k := range f.References.ColumnNames {
				f.References.ColumnNames[k] = "spoiled"
			}
			f.Name = "spoiled"
		}
		t.Name, t.Schema = "spoiled", "spoiled"
		t.Columns = append(t.Columns, ddlparse.Column{Name: "extra"})
		t.Columns = append(t.Columns[:0], ddlparse.Column{Name: "spoiled"})
	}
	_ = append(ts[:0], ddlparse.Table{Name: "spoiled"})
}

func keep(d, text string, key int) (k *kept, o Outcome) {
	k = &kept{key: key}
	defer func() {
		if r := recover(); r != nil {
			k.panics = true
			o = Outcome{K: "panic", Tabs: []Table{}}
		}
	}()
	k.tabs, k.err = invoke(d, text)
	return k, project(k.tabs, k.err)
}

func runSession(inPath, outPath string, limit time.Duration) {
	b, err := os.ReadFile(inPath)
	if err != nil {
		die(2, "%v", err)
	}
	var s Session
	if err := json.Unmarshal(b, &s); err != nil {
		die(2, "%v", err)
	}
	go func() {
		for end := time.Now().Add(limit); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > memLimit {
				os.Exit(4)
			}
		}
		os.Exit(3)
	}()
	logs := make([][]Event, len(s.Clients))
	results := make([][]*kept, len(s.Clients))
	var mu sync.Mutex
	var order []Event
	emit := func(c int, e Event) {
		if s.Shared {
			mu.Lock()
			order = append(order, e)
			mu.Unlock()
		} else {
			logs[c] = append(logs[c], e)
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for c := range s.Clients {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			<-start
			for _, op := range s.Clients[c] {
				if op < 0 {
					for i := len(results[c]) - 1; i >= 0; i-- {
						r := results[c][i]
						if r.key == -op-1 && !r.spoiled && !r.panics {
							r.spoiled = true
							spoil(r.tabs)
							emit(c, Event{Ev: "spoil", C: c, K: r.key, I: i})
							break
						}
					}
					continue
				}
				if op >= burst {
					e := Event{Ev: "burst", C: c, K: op % burst, I: op / burst}
					seen := map[string]bool{}
					for n := 0; n < e.I; n++ {
						_, o := keep(s.Texts[e.K].D, s.Texts[e.K].text(), e.K)
						if h := digest(o); !seen[h] {
							seen[h] = true
							e.Os = append(e.Os, h)
						}
					}
					emit(c, e)
					continue
				}
				i := len(results[c])
				emit(c, Event{Ev: "begin", C: c, K: op, I: i})
				k, o := keep(s.Texts[op].D, s.Texts[op].text(), op)
				results[c] = append(results[c], k)
				emit(c, Event{Ev: "end", C: c, K: op, I: i, O: digest(o)})
			}
		}(c)
	}
	close(start)
	wg.Wait()
	for c := range results {
		for i, r := range results[c] {
			if r.spoiled || r.panics {
				continue
			}
			emit(c, Event{Ev: "reread", C: c, K: r.key, I: i, O: digest(project(r.tabs, r.err))})
		}
	}
	out, err := os.Create(outPath)
	if err != nil {
		die(2, "%v", err)
	}
	enc := json.NewEncoder(out)
	for _, l := range append(logs, order) {
		for _, e := range l {
			if err := enc.Encode(e); err != nil {
				die(2, "%v", err)
			}
		}
	}
	if err := out.Close(); err != nil {
		die(2, "%v", err)
	}
}

func solo() {
	var in Input
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		die(2, "%v", err)
	}
	go func() {
		time.Sleep(60 * time.Second)
		os.Exit(3)
	}()
	o := call(in.D, in.text())
	if o.K == "panic" {
		o.Near = ""
	}
	os.Stdout.WriteString(digest(o) + "\n")
}
