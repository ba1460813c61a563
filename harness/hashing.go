package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

const hashPw = "Right-Password-1"

// workOf gives the costs of the hashes a call computes.
func workOf(f func() error) (work []int, err error, pn string, hang bool) {
	work = []int{}
	onBcrypt(func(kind string, cost int) { work = append(work, cost) })
	err, pn, hang = call(f)
	onBcrypt(nil)
	return
}

func wrongPassword(r *rand.Rand, how, hash string) string {
	n := 0
	switch how {
	case "other":
		return "Other-" + rstr(r, 10)
	case "blank":
		return " "
	case "spaces":
		return "     "
	case "tab":
		return "\t"
	case "newline":
		return "\r\n"
	case "one":
		return "x"
	case "nul":
		return "\x00"
	case "bytes":
		return "\xff\xfe" + rbytes(r, 20)
	case "upper":
		return strings.ToUpper(hashPw)
	case "right and more":
		return hashPw + " "
	case "less":
		return hashPw[1:]
	case "nbsp":
		return "\u00a0\u2003"
	case "hash":
		return hash
	case "quote":
		return "' or \"1\"=\"1"
	}
	if _, err := fmt.Sscan(how, &n); err != nil || n == 0 {
		die("unknown password %s", how)
	}
	return rstr(r, n)
}

func loginName(how string) string {
	switch how {
	case "name":
		return "jsmith"
	case "NAME":
		return "JSMITH"
	case "mail":
		return "jsmith@x.org"
	case "Mail":
		return "JSmith@X.org"
	case "other":
		return "somebody"
	case "other mail":
		return "somebody@x.org"
	case "":
		return ""
	case "short":
		return "a"
	case "at":
		return "@"
	case "blank before":
		return " jsmith"
	case "blank after":
		return "jsmith@x.org "
	case "long":
		return strings.Repeat("jsmith", 200)
	case "bytes":
		return "\xff\x00jsmith"
	case "deleted":
		return "gone"
	}
	die("unknown name %s", how)
	return ""
}

// cmdHashing observes the hashing, at its real cost.
func cmdHashing(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		base := func(k string) M {
			return M{"k": k, "panic": false, "err": "", "ok1": false, "ok2": false, "code1": 0, "code2": 0, "work1": []int{}, "work2": []int{}, "known": "", "unknown": "", "pw": "",
				"what": "", "costs": []int{}, "salts": []string{}, "match": []bool{}, "n": 0, "leaks": 0}
		}
		fail := func(rec M, err error, pn string, hang bool) bool {
			if pn != "" || hang {
				rec["panic"], rec["err"] = true, fmt.Sprint("PANIC ", pn, hang)
			} else if err != nil {
				rec["err"] = err.Error()
			}
			return pn != "" || hang
		}
		d := filepath.Join(c.scratch, "login")
		must(os.MkdirAll(d, 0700))
		db, err := identity.NewDatabase(filepath.Join(d, "users.json"))
		must(err)
		add := func(db *identity.Database, un, pw string) error {
			q := requests.NewRequest()
			q.User.Username, q.User.Email, q.User.Password, q.User.FullName = un, un+"@x.org", pw, "Some Body"
			return db.AddUser(q)
		}
		_ = add(db, "jsmith", hashPw)
		hash := ""
		if len(db.Users) == 1 && len(db.Users[0].Passwords) == 1 {
			hash = db.Users[0].Passwords[0].Hash
		}
		for _, m := range c.cases() {
			rec := base("login")
			rec["known"], rec["unknown"], rec["pw"] = m.str("known"), m.str("unknown"), m.str("pw")
			pw := wrongPassword(r, m.str("pw"), hash)
			one := func(n, name string) {
				q := requests.NewRequest()
				q.User.Username, q.User.Password = loginName(name), pw
				work, err, pn, hang := workOf(func() error { return db.AuthenticateUser(q) })
				fail(rec, err, pn, hang)
				rec["ok"+n], rec["code"+n], rec["work"+n] = err == nil, q.Response.Code, work
			}
			one("1", m.str("known"))
			one("2", m.str("unknown"))
			tr.Emit(rec)
		}
		// what is stored, by histories of equal and of different secrets
		for i := 0; i < c.steps; i++ {
			rec := base("stored")
			d := filepath.Join(c.scratch, fmt.Sprint("stored", i))
			must(os.MkdirAll(d, 0700))
			path := filepath.Join(d, "users.json")
			long := strings.Repeat("q", 101+r.Intn(28))
			pws := []string{hashPw, "Pw-" + rstr(r, 8), "Pä-" + rbytes(r, 9), strings.Repeat("p", 72), strings.Repeat("q", 73+r.Intn(28)), long}
			var plain []string
			n := 0
			err, pn, hang := call(func() error {
				db, err := identity.NewDatabase(path)
				if err != nil {
					return err
				}
				for u := 0; u < 4; u++ {
					un := fmt.Sprintf("user%d", u)
					pw := pws[0]
					if u == 2 {
						pw = long
					} else if u > 2 {
						pw = pws[r.Intn(len(pws))]
					}
					if err := add(db, un, pw); err != nil {
						continue
					}
					n++
					plain = append(plain, pw)
					q := requests.NewRequest()
					q.User.Username, q.User.Email = un, un+"@x.org"
					if r.Intn(2) == 0 {
						q.User.OldPassword, q.User.Password = pw, pws[r.Intn(len(pws))]
						if db.ChangeUserPassword(q) == nil {
							n++
							plain = append(plain, q.User.Password)
						}
					}
					for k := 0; k < 2; k++ {
						q.Key = requests.Key{Usage: "api", Comment: "c"}
						if db.AddAPIKey(q) == nil {
							n++
							s, _ := q.Response.Payload.(string)
							plain = append(plain, s)
						}
					}
				}
				return nil
			})
			rec["what"] = fmt.Sprint("history ", i)
			if !fail(rec, err, pn, hang) && err == nil {
				w := &World{dir: d, secrets: plain}
				rec["leaks"] = w.leaks()
				costs, salts, match := []int{}, []string{}, []bool{}
				look := func(h string) {
					cost, err := bcrypt.Cost([]byte(h))
					if err != nil {
						cost = 0
					}
					costs = append(costs, cost)
					if len(h) > 29 {
						salts = append(salts, h[:29])
					}
					ok := false
					for _, p := range plain {
						if bcrypt.CompareHashAndPassword([]byte(h), []byte(p)) == nil {
							ok = true
							break
						}
					}
					match = append(match, ok)
				}
				db, err := identity.NewDatabase(path)
				if err == nil {
					for _, u := range db.Users {
						for _, p := range u.Passwords {
							look(p.Hash)
						}
						for _, k := range u.APIKeys {
							look(k.Payload)
						}
					}
				}
				rec["costs"], rec["salts"], rec["match"], rec["n"] = costs, salts, match, n
			}
			tr.Emit(rec)
		}
	})
}
