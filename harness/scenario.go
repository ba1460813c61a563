package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
)

// Scripted histories.
var scenarios = map[string]func(c *Ctx, w *World, r *rand.Rand){
	// what bcrypt makes of passwords and keys longer than it looks at
	"known": func(c *Ctx, w *World, r *rand.Rand) {
		w.Open(nil, 0600)
		long := strings.Repeat("long-pass.", 7) + "ab"
		w.Do(&Op{Op: "AddUser", Un: "alice", Em: "alice@example.com", Pw: long + "-tail", Fn: "Smith, Alice"})
		w.Do(&Op{Op: "AuthenticateUser", Un: "alice", Pw: long + "-tail"})
		w.Do(&Op{Op: "AuthenticateUser", Un: "alice", Pw: long + "-else"})
		w.Do(&Op{Op: "AuthenticateUser", Un: "alice", Pw: long[:71]})
		for i := 0; i < 6; i++ {
			w.Do(&Op{Op: "AddAPIKey", Un: "alice", Em: "alice@example.com", Us: "api", Cm: fmt.Sprint("key ", i)})
		}
		for _, k := range w.issued {
			w.Do(&Op{Op: "LookupAPIKey", Payload: k.Key})
			w.Do(&Op{Op: "LookupAPIKey", Payload: k.Key[:72] + "x"})
			w.Do(&Op{Op: "LookupAPIKey", Payload: k.Key[:71] + "." + k.Key[72:]})
		}
	},
}

func cmdScenario(c *Ctx) {
	tr := NewTrace(filepath.Join(c.out, "trace.ndjson"))
	f, ok := scenarios[c.profile]
	if !ok {
		die("unknown scenario %s", c.profile)
	}
	r := c.rnd(1)
	w := NewWorld(c.in, tr, r, filepath.Join(c.scratch, "w"), c.keys, c.epoch)
	w.ep, w.scan = 1, true
	f(c, w, r)
	tr.Close()
	c.in.Export(filepath.Join(c.out, "texts.json"))
}
