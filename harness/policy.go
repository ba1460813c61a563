package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func policyOf(p *identity.Policy) M {
	w, u := p.Password, p.User
	return M{"pmin": w.MinLength, "pmax": w.MaxLength, "umin": u.MinLength, "umax": u.MaxLength, "kv": w.KeepVersions, "upper": u.AllowUppercase, "nonan": u.AllowNonAlphaNumeric,
		"rup": w.RequireUppercase, "rlow": w.RequireLowercase, "rnum": w.RequireNumber, "rna": w.RequireNonAlphaNumeric, "reuse": w.BlockReuse, "block": w.BlockPasswordChange}
}

// policyDoc writes a policy to a document; what is zero is left out in some of
// the cases.
func policyDoc(r *rand.Rand, m M) M {
	names := map[string]string{"pmin": "min_length", "pmax": "max_length", "umin": "min_length", "umax": "max_length", "kv": "keep_versions",
		"upper": "allow_uppercase", "nonan": "allow_non_alpha_numeric", "rup": "require_uppercase", "rlow": "require_lowercase",
		"rnum": "require_number", "rna": "require_non_alpha_numeric", "reuse": "block_reuse", "block": "block_password_change"}
	pw, us := M{}, M{}
	for k, n := range names {
		d := pw
		if k == "umin" || k == "umax" || k == "upper" || k == "nonan" {
			d = us
		}
		zero := m[k] == false || m[k] == float64(0) || m[k] == 0
		if zero && r.Intn(2) == 0 {
			continue
		}
		d[n] = m[k]
	}
	p := M{}
	if len(pw) > 0 || r.Intn(2) == 0 {
		p["password"] = pw
	}
	if len(us) > 0 || r.Intn(2) == 0 {
		p["user"] = us
	}
	return p
}

func policyTexts(db *identity.Database) M {
	return M{"us": db.GetUsernamePolicySummary(), "ur": db.GetUsernamePolicyRegex(), "ps": db.GetPasswordPolicySummary(), "pr": db.GetPasswordPolicyRegex()}
}

// ofBytes makes a text of n bytes; with wide characters when wide, and with
// white space around it when padded.
func ofBytes(n int, wide string, salt string) string {
	if n < 0 {
		n = 0
	}
	s := salt
	switch wide {
	case "padded":
		if n > len(s)+1 {
			return ofBytes(n-1, "", s) + " "
		}
	case "blanks":
		if n > len(s)+3 {
			return "\t" + s + strings.Repeat(" ", n-len(s)-1)
		}
	}
	if wide == "wide" && len(s)+3 <= n {
		s += strings.Repeat("€", (n-len(s))/3)
	}
	if len(s) < n {
		s += strings.Repeat("x", n-len(s))
	}
	return s[:n]
}

func cmdPolicy(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		cs := c.cases()
		for i := 0; i < c.steps; i++ {
			z := func(n int) float64 {
				if r.Intn(5) == 0 {
					return 0
				}
				return float64(1 + r.Intn(n))
			}
			m := M{"pmin": z(20), "pmax": z(200), "umin": z(10), "umax": z(100), "kv": z(20), "try": r.Intn(2) == 0}
			if r.Intn(6) == 0 { // far above what is usual
				k := pick(r, []string{"pmin", "pmax", "umin", "umax"})
				m[k] = float64(pick2(r, []int{255, 256, 1000, 1023, 4095, 4096, 5000, 8192, 65535, 65536, 70000}))
				if k == "pmin" {
					m["pmax"] = m[k].(float64) * 2
				}
				if k == "umin" {
					m["umax"] = m[k].(float64) * 2
				}
			}
			for _, k := range []string{"upper", "nonan", "rup", "rlow", "rnum", "rna", "reuse", "block"} {
				m[k] = r.Intn(2) == 0
			}
			if m.yes("try") {
				m["block"] = false
				m["reuse"] = false
			}
			cs = append(cs, m)
		}
		for i, m := range cs {
			c.policyCase(tr, r, m, filepath.Join(c.scratch, fmt.Sprint("p", i)))
		}
	})
}

func (c *Ctx) policyCase(tr *Trace, r *rand.Rand, m M, dir string) {
	must(os.MkdirAll(dir, 0700))
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "u.json")
	f := NewFixture()
	f.Doc["policy"] = policyDoc(r, m)
	// a user to change the password of
	u := f.user(r, "root", []string{"root@example.com"}, "", "", nil)
	u["passwords"] = []M{f.password("current-password", false, false)}
	f.Doc["users"] = []M{u}
	f.Write(path, 0600)
	var db *identity.Database
	rec := M{"c": m, "pol": []M{}, "txt": []M{}, "tries": []M{}}
	if outcome(rec, func() (e error) { db, e = identity.NewDatabase(path); return }) {
		pol, txt := []M{policyOf(&db.Policy)}, []M{policyTexts(db)}
		if m.yes("try") {
			tries := []M{}
			cur := "current-password"
			p := db.Policy
			n := 0
			add := func(ul, pl int, wide string) {
				n++
				q := requests.NewRequest()
				q.User.Username = ofBytes(ul, wide, strings.ToLower(fmt.Sprint("u", n)))
				if len(q.User.Username) < 3 { // too short for a number
					q.User.Username = ofBytes(ul, "", string(rune('!'+n%64))+string(rune('!'+n/7%64)))
				}
				q.User.Email = fmt.Sprintf("n%d@example.com", n)
				q.User.Password = ofBytes(pl, wide, "p")
				q.User.FullName = "A, B"
				t := M{"k": "add", "un": len(q.User.Username), "pw": len(q.User.Password)}
				if outcome(t, func() error { return db.AddUser(q) }) {
					// out of the way of the next attempts, which may have the same short name
				}
				tries = append(tries, t)
			}
			mid := func(a, b int) int {
				if b < a {
					return a
				}
				return (a + b) / 2
			}
			for _, wide := range []string{"", "wide", "padded", "blanks"} {
				for _, d := range []int{p.User.MinLength - 1, p.User.MinLength, p.User.MinLength + 1, p.User.MaxLength - 1, p.User.MaxLength, p.User.MaxLength + 1, p.User.MaxLength * 2} {
					add(d, mid(p.Password.MinLength, p.Password.MaxLength), wide)
				}
				for _, d := range []int{p.Password.MinLength - 1, p.Password.MinLength, p.Password.MinLength + 1, p.Password.MaxLength - 1, p.Password.MaxLength, p.Password.MaxLength + 1, p.Password.MaxLength * 2} {
					add(mid(p.User.MinLength, p.User.MaxLength), d, wide)
					q := requests.NewRequest()
					q.User.Username, q.User.Email = "root", "root@example.com"
					q.User.OldPassword, q.User.Password = cur, ofBytes(d, wide, fmt.Sprint(n%10))
					t := M{"k": "change", "un": 0, "pw": len(q.User.Password)}
					if outcome(t, func() error { return db.ChangeUserPassword(q) }) {
						cur = q.User.Password
					}
					tries = append(tries, t)
				}
			}
			rec["tries"] = tries
		}
		must(db.Save())
		pol, txt = append(pol, policyOf(&db.Policy)), append(txt, policyTexts(db))
		if db, err := identity.NewDatabase(path); err == nil {
			pol, txt = append(pol, policyOf(&db.Policy)), append(txt, policyTexts(db))
		}
		var doc struct {
			Policy identity.Policy `json:"policy"`
		}
		b, err := os.ReadFile(path)
		must(err)
		if json.Unmarshal(b, &doc) == nil {
			pol = append(pol, policyOf(&doc.Policy))
		}
		rec["pol"], rec["txt"] = pol, txt
	}
	tr.Emit(rec)
}
