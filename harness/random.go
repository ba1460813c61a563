package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

var makers = map[string]func() string{
	"GetRandomString":  func() string { return identity.GetRandomString(40) },
	"GetRandomString1": func() string { return identity.GetRandomString(1) },
	"FromRange":        func() string { return identity.GetRandomStringFromRange(72, 96) },
	"FromRangeSwapped": func() string { return identity.GetRandomStringFromRange(96, 72) },
	"NewRandomString":  func() string { return identity.NewRandomString(32) },
	"NewID":            identity.NewID,
}

// generate makes n values of each kind, half of them in several goroutines.
func generate(n int) map[string][]string {
	out := map[string][]string{}
	for kind, f := range makers {
		if kind == "GetRandomString1" {
			continue
		}
		for i := 0; i < n/2; i++ {
			out[kind] = append(out[kind], f())
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		for kind, f := range makers {
			if kind == "GetRandomString1" {
				continue
			}
			wg.Add(1)
			go func(kind string, f func() string) {
				defer wg.Done()
				a := []string{}
				for i := 0; i < n/8+1; i++ {
					a = append(a, f())
				}
				mu.Lock()
				out[kind] = append(out[kind], a...)
				mu.Unlock()
			}(kind, f)
		}
	}
	wg.Wait()
	return out
}

// populate makes a database, and returns what was generated for it: as handed
// out, and as found in it after a reload.
func populate(path string, keys []*TestKey, r *rand.Rand, n int) map[string][]string {
	out := map[string][]string{}
	add := func(kind, s string) { out[kind] = append(out[kind], s) }
	db, err := identity.NewDatabase(path)
	must(err)
	for i := 0; i < n; i++ {
		if i == n/2 {
			db, err = identity.NewDatabase(path)
			must(err)
		}
		q := requests.NewRequest()
		q.User.Username, q.User.Email, q.User.Password, q.User.FullName = fmt.Sprintf("user%d", i), fmt.Sprintf("user%d@x.org", i), "Pw-123456789", "Some Body"
		must(db.AddUser(q))
		for j := 0; j < 3; j++ {
			q.Key = requests.Key{Usage: "api", Comment: fmt.Sprint("k", j)}
			must(db.AddAPIKey(q))
			secret, _ := q.Response.Payload.(string)
			if len(secret) < 24 {
				secret += strings.Repeat(" ", 24)
			}
			add("secret", secret)
			add("prefix", secret[:24])
		}
		for _, k := range keys {
			if k.Kind == "rsa" {
				q.Key = requests.Key{Usage: "ssh", Payload: k.PEM}
				_ = db.AddPublicKey(q)
			}
		}
		for j := 0; j < 2; j++ {
			t := requests.NewRequest()
			t.User = q.User
			secret := rstr(r, 40)
			t.MfaToken = requests.MfaToken{Type: "totp", Comment: fmt.Sprint("t", j), Secret: secret, Algorithm: "sha1", Period: 300, Digits: 6,
				Passcode: rfc4226([]byte(secret), "sha1", 6, uint64(time.Now().Unix()/300))}
			must(db.AddMfaToken(t))
		}
	}
	db, err = identity.NewDatabase(path)
	must(err)
	for _, u := range db.Users {
		add("user", u.ID)
		for _, k := range u.APIKeys {
			add("api key", k.ID)
		}
		for _, k := range u.PublicKeys {
			add("public key", k.ID)
		}
		for _, k := range u.MfaTokens {
			add("token", k.ID)
		}
	}
	return out
}

// cmdIDs is a process that generates values once it is told to.
func cmdIDs(c *Ctx) {
	_, _ = io.ReadAll(os.Stdin)
	out := generate(c.steps)
	for k, v := range populate(filepath.Join(c.scratch, "users.json"), c.keys, c.rnd(5), c.worlds) {
		out[k] = append(out[k], v...)
	}
	writeJSON(filepath.Join(c.out, "ids.json"), out)
}

// cmdRandomStrings makes random strings of all lengths, and lots of them.
func cmdRandomStrings(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		base := func(k, f string, a, b int) M {
			return M{"k": k, "f": f, "a": a, "b": b, "s": []int{}, "at": [][]int{}, "lens": []int{}, "all": []string{}}
		}
		made := func(f string, a, b int) string {
			switch f {
			case "GetRandomString":
				return identity.GetRandomString(a)
			case "NewRandomString":
				return identity.NewRandomString(a)
			case "NewID":
				return identity.NewID()
			}
			return identity.GetRandomStringFromRange(a, b)
		}
		for _, m := range c.cases() {
			rec := base("one", m.str("f"), m.num("a"), m.num("b"))
			s := ""
			if outcome(rec, func() error { s = made(m.str("f"), m.num("a"), m.num("b")); return nil }) {
				rec["s"] = codePoints(s)
			}
			tr.Emit(rec)
		}
		for i := 0; i < c.steps; i++ {
			a, b := r.Intn(400), r.Intn(400)
			f := []string{"GetRandomString", "NewRandomString", "FromRange"}[r.Intn(3)]
			rec := base("one", f, a, b)
			s := ""
			if outcome(rec, func() error { s = made(f, a, b); return nil }) {
				rec["s"] = codePoints(s)
			}
			tr.Emit(rec)
		}
		set := func(m map[int]bool) []int {
			o := []int{}
			for x := range m {
				o = append(o, x)
			}
			sort.Ints(o)
			return o
		}
		// many values of a kind: which characters each position took
		kinds := []string{}
		for k := range makers {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		for _, k := range kinds {
			rec := base("many", k, 0, 0)
			at := []map[int]bool{}
			lens := map[int]bool{}
			for i := 0; i < 4000; i++ {
				s := codePoints(makers[k]())
				lens[len(s)] = true
				for p, x := range s {
					if p == len(at) {
						at = append(at, map[int]bool{})
					}
					at[p][x] = true
				}
			}
			ats := [][]int{}
			for _, m := range at {
				ats = append(ats, set(m))
			}
			rec["ok"], rec["panic"], rec["err"], rec["at"], rec["lens"] = true, false, "", ats, set(lens)
			tr.Emit(rec)
		}
		// several processes, started at the same time
		all := map[string][]string{}
		type proc struct {
			cmd *exec.Cmd
			in  io.WriteCloser
			dir string
			err bytes.Buffer
		}
		ps := []*proc{}
		for i := 0; i < 8; i++ {
			d := filepath.Join(c.scratch, fmt.Sprint("p", i))
			must(os.MkdirAll(filepath.Join(d, "s"), 0700))
			p := &proc{dir: d, cmd: exec.Command(os.Args[0], "ids", "-seed", fmt.Sprint(c.seed), "-out", d, "-scratch", filepath.Join(d, "s"), "-steps", "100", "-worlds", "16")}
			p.cmd.Stderr = &p.err
			var err error
			p.in, err = p.cmd.StdinPipe()
			must(err)
			must(p.cmd.Start())
			ps = append(ps, p)
		}
		for _, p := range ps {
			_ = p.in.Close()
		}
		for _, p := range ps {
			if err := p.cmd.Wait(); err != nil {
				rec := base("processes", "process", 0, 0)
				rec["ok"], rec["panic"], rec["err"] = false, true, p.err.String()
				tr.Emit(rec)
				continue
			}
			b, err := os.ReadFile(filepath.Join(p.dir, "ids.json"))
			must(err)
			m := map[string][]string{}
			must(json.Unmarshal(b, &m))
			for k, v := range m {
				all[k] = append(all[k], v...)
			}
		}
		for k, v := range all {
			rec := base("processes", k, 0, 0)
			rec["ok"], rec["panic"], rec["err"], rec["all"] = true, false, "", v
			rec["a"] = len(v)
			// all characters, and those of each position
			at := []map[int]bool{{}}
			lens := map[int]bool{}
			for _, s := range v {
				cp := codePoints(s)
				lens[len(cp)] = true
				for i, x := range cp {
					if i+1 == len(at) {
						at = append(at, map[int]bool{})
					}
					at[0][x], at[i+1][x] = true, true
				}
			}
			ats := [][]int{}
			for _, m := range at {
				ats = append(ats, set(m))
			}
			rec["at"], rec["lens"] = ats, set(lens)
			tr.Emit(rec)
		}
	})
}
