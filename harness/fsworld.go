//go:build linux && amd64

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"

	identity "github.com/greenpau/go-identity"
)

// mark tells the tracer something; it says whether a call was made to fail.
func mark(s string) bool {
	b := append([]byte("/verif-mark/"+s), 0)
	_, _, e := syscall.RawSyscall(syscall.SYS_ACCESS, uintptr(unsafe.Pointer(&b[0])), 0, 0)
	return e == 0
}

// cmdFsWorld runs histories under the tracer. In the mode with faults, each
// call of the library is first made with the first of its file-system calls
// failing, then the second one, and so on.
func cmdFsWorld(c *Ctx) {
	tr := NewTrace(filepath.Join(c.out, "trace.ndjson"))
	from := map[string]int{} // the last call made to fail, by operation
	for i := 0; i < c.worlds; i++ {
		r := c.rnd(int64(i))
		w := NewWorld(c.in, tr, r, filepath.Join(c.scratch, fmt.Sprintf("w%d", i)), c.keys, c.epoch)
		w.ep, w.marks = i+1, true
		f := fsLayout(c, w, r, i)
		if f == nil {
			fsCreate(c, w)
		}
		w.Open(f, modes[r.Intn(len(modes))])
		g := NewGen(w, r, c.profile, 0)
		for k := 0; k < 3 && f == nil; k++ {
			w.Do(&Op{Op: "AddUser", Un: userPool[k], Em: mailPool[k], Pw: "Pw-" + rstr(r, 10), Fn: fullNames[2+k], Roles: []string{"admin", "corp/user"}})
		}
		for s := 0; s < c.steps && !w.dead; s++ {
			o := g.Next()
			for k := 0; k < 8 && c.faults > 0 && !strings.Contains("AddUser ChangeUserPassword AddAPIKey DeleteAPIKey AddPublicKey DeletePublicKey AddMfaToken DeleteMfaToken Save Copy Reload", o.Op); k++ {
				o = g.Next()
			}
			if c.faults == 0 {
				w.Do(o)
				continue
			}
			for !w.dead {
				from[o.Op]++
				o.Trap = fmt.Sprint([]string{"e", "e", "e", "s", "i"}[r.Intn(5)], from[o.Op])
				rec := w.Do(o)
				if rec == nil {
					break
				}
				o.Retry = rec["may"].(bool)
				if !o.Retry && rec["r"].(M)["ok"].(bool) {
					from[o.Op] = 0 // that was all of them
				} else if !o.Retry {
					from[o.Op]--
				}
				if !o.Retry || rec["r"].(M)["ok"].(bool) {
					break
				}
			}
		}
		os.RemoveAll(w.dir)
	}
	tr.Close()
	c.in.Export(filepath.Join(c.out, "texts.json"))
}

// fsLayout places the database of a world.
func fsLayout(c *Ctx, w *World, r *rand.Rand, i int) *Fixture {
	switch i % 5 {
	case 0: // a new file, in directories that do not exist
		w.sub = filepath.Join(w.dir, "data", "a", "b")
		w.path = filepath.Join(w.sub, "users.json")
		return nil
	case 2: // a link to the file
		must(os.MkdirAll(filepath.Join(w.dir, "real"), 0700))
		must(os.WriteFile(filepath.Join(w.dir, "real", "db.json"), []byte("{}"), 0600))
		must(os.Symlink("../real/db.json", w.path))
	case 3: // a link to the directory
		must(os.MkdirAll(filepath.Join(w.dir, "real"), 0700))
		must(os.Remove(w.sub))
		must(os.Symlink("real", w.sub))
	case 4: // a file that is migrated as it is loaded
		f := RichFixture(r, c.keys, nil)
		f.Doc["policy"] = M{"password": M{}, "user": M{}}
		return f
	}
	return RichFixture(r, c.keys, policies[r.Intn(len(policies))])
}

// fsCreate attempts to create the database, with each call failing.
func fsCreate(c *Ctx, w *World) {
	if c.faults == 0 {
		return
	}
	for k := 1; k < 100; k++ {
		_, _, _, fired := w.within("Open", fmt.Sprint("e", k), []string{w.path}, func() error {
			_, err := identity.NewDatabase(w.path)
			return err
		})
		must(os.RemoveAll(filepath.Join(w.dir, "data")))
		if !fired {
			return
		}
	}
}

// cmdImages loads the images the tracer kept, as they are and with the leftovers
// of interrupted writes damaged, and goes on with them.
func cmdImages(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		b, err := os.ReadFile(c.input)
		must(err)
		var shots []struct {
			Dir, Op, Ev string
			N           int
			Targets     []struct {
				Path, Old, New string
				Main           bool
			}
		}
		must(json.Unmarshal(b, &shots))
		loads := map[string]bool{"": false}
		isDB := func(path string) bool {
			is, ok := loads[path]
			if !ok {
				p := filepath.Join(c.scratch, "probe.json")
				must(copyFile(path, p))
				_, err := identity.NewDatabase(p)
				is = err == nil
				loads[path] = is
				must(os.Remove(p))
			}
			return is
		}
		for n, s := range shots {
			variants := []string{"as it is", "damaged leftovers"}
			for _, v := range variants {
				for _, t := range s.Targets {
					dir := filepath.Join(c.scratch, fmt.Sprint("i", n))
					copyTree(s.Dir, dir)
					path := filepath.Join(dir, t.Path)
					if v == "damaged leftovers" {
						spare := map[string]bool{}
						for _, t := range s.Targets {
							if p, err := filepath.EvalSymlinks(filepath.Join(dir, t.Path)); err == nil {
								spare[p] = true
							}
						}
						_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
							if err == nil && fi.Mode().IsRegular() && !spare[p] {
								b, _ := os.ReadFile(p)
								for k := range b {
									if k >= len(b)/2 {
										b[k] = 0
									}
								}
								if r.Intn(2) == 0 {
									b = nil
								}
								must(os.WriteFile(p, b, fi.Mode().Perm()))
							}
							return nil
						})
					}
					rec := M{"op": s.Op, "ev": s.Ev, "n": s.N, "main": t.Main, "variant": v, "olddb": isDB(t.Old), "hadold": t.Old != "", "there": false,
						"loads": false, "goes": false, "count": 0, "after": 0, "err": "", "panic": false, "ok": false}
					if fi, err := os.Stat(path); err == nil && !fi.IsDir() {
						rec["there"] = true
					}
					// the bytes of the file
					same := func(a, b string) bool {
						x, e1 := os.ReadFile(a)
						y, e2 := os.ReadFile(b)
						return e1 == nil && e2 == nil && string(x) == string(y)
					}
					rec["sameold"], rec["samenew"] = same(path, t.Old), same(path, t.New)
					outcome(rec, func() error {
						db, err := identity.NewDatabase(path)
						if err != nil {
							return err
						}
						rec["loads"], rec["count"] = true, len(db.Users)
						if err := db.Save(); err != nil {
							return err
						}
						d := c.in.Dig(db)
						if db, err = identity.NewDatabase(path); err != nil {
							return err
						}
						rec["goes"], rec["after"] = c.in.Dig(db) == d, len(db.Users)
						return nil
					})
					tr.Emit(rec)
					must(os.RemoveAll(dir))
				}
			}
			must(os.RemoveAll(s.Dir))
		}
	})
}
