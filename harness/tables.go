package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
)

// Decision tables: each command executes the cases the specification listed,
// and random ones, and records what the real code did.

func (c *Ctx) cases() []M {
	if c.input == "" {
		return nil
	}
	b, err := os.ReadFile(c.input)
	must(err)
	var a []M
	must(json.Unmarshal(b, &a))
	return a
}

func (m M) str(k string) string {
	s, _ := m[k].(string)
	return s
}

func (m M) num(k string) int {
	f, _ := m[k].(float64)
	return int(f)
}

func (m M) yes(k string) bool {
	b, _ := m[k].(bool)
	return b
}

// text gets a text given as code points.
func (m M) text(k string) string { return textOf(m[k]) }

func textOf(v interface{}) string {
	a, _ := v.([]interface{})
	s := ""
	for _, x := range a {
		f, _ := x.(float64)
		if f < 0 {
			s += string([]byte{byte(-f)})
		} else {
			s += string(rune(int(f)))
		}
	}
	return s
}

func texts(a []string) [][]int {
	r := [][]int{}
	for _, s := range a {
		r = append(r, codePoints(s))
	}
	return r
}

// outcome runs f and records how it went.
func outcome(rec M, f func() error) bool {
	err, pn, hang := call(f)
	rec["ok"] = err == nil && pn == "" && !hang
	rec["panic"] = pn != "" || hang
	rec["err"] = ""
	if err != nil {
		rec["err"] = err.Error()
	}
	if pn != "" {
		rec["err"] = "PANIC " + pn
	}
	if hang {
		rec["err"] = "HANG"
	}
	return rec["ok"].(bool)
}

// explain adds the reasons an error names.
func explain(rec M) {
	rec["says"] = []string{}
	if s := rec.str("err"); s != "" && !rec.yes("panic") {
		rec["says"] = says(s)
	}
}

func (c *Ctx) table(f func(tr *Trace, r *rand.Rand)) {
	tr := NewTrace(filepath.Join(c.out, "trace.ndjson"))
	f(tr, c.rnd(77))
	tr.Close()
}

func rbytes(r *rand.Rand, n int) string {
	b := make([]byte, n)
	r.Read(b)
	return string(b)
}

var _ = fmt.Sprint
