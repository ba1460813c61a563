package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func cmdLexical(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		cs := c.cases()
		for _, m := range cs {
			lexicalCase(tr, m)
		}
		for i := 0; i < c.steps; i++ {
			k := []string{"role", "name", "mail"}[i%3]
			s := rtext(r, r.Intn(24))
			if k == "mail" {
				s = rmail(r)
			}
			if k == "name" {
				s = trimmed(s)
			}
			lexicalCase(tr, M{"k": k, "s": floats(s)})
		}
		// users registered with such, by way of the database
		db, err := identity.NewDatabase(filepath.Join(c.scratch, "lex", "u.json"))
		must(err)
		n := 0
		for i := 0; i < c.steps/3; i++ {
			n++
			m := rmail(r)
			if r.Intn(4) != 0 || n%3 == 0 {
				m = fmt.Sprintf("%s%d@ex-%d.org", pick(r, []string{"a", "B.c", "x+y", "'q'"}), n, n)
			}
			name := pick(r, []string{"", "  ", "Jon Doe", "Doe, Jon", "Doe,Jon", " Jon  Doe", "Jon", ", Jon", "Doe,", "a,b,c", "A B C", "van der X, Y", "\tJon Doe\n", rtext(r, 6)})
			rl := []string{}
			for k := r.Intn(4); k > 0; k-- {
				rl = append(rl, pick(r, []string{"admin", " admin ", "corp/admin", "corp/net/admin", "Admin", "/x/y", "corp/", "админ", "a b", "\u00a0r\u00a0", " ", "", rtext(r, 5)}))
			}
			rec := M{"k": "whole", "m": codePoints(m), "n": codePoints(name), "a": texts(rl), "rl": [][]int{}, "em": []int{}, "fn": []int{}}
			q := requests.NewRequest()
			q.User.Username, q.User.Email, q.User.Password, q.User.FullName, q.User.Roles = fmt.Sprint("user-", n), m, "password-1", name, append([]string{}, rl...)
			if outcome(rec, func() error { return db.AddUser(q) }) {
				q := requests.NewRequest()
				q.User.Username = fmt.Sprint("user-", n)
				if n%2 == 0 {
					q.User.Username = m
				}
				must(db.IdentifyUser(q))
				rec["rl"], rec["em"], rec["fn"] = texts(q.User.Roles), codePoints(q.User.Email), codePoints(q.User.FullName)
			}
			tr.Emit(rec)
		}
	})
}

func floats(s string) []interface{} {
	r := []interface{}{}
	for _, c := range codePoints(s) {
		r = append(r, float64(c))
	}
	return r
}

func trimmed(s string) string {
	q := M{"s": floats(s)}
	a := q["s"].([]interface{})
	sp := func(x interface{}) bool {
		f := x.(float64)
		return f >= 9 && f <= 13 || f == 32 || f == 133 || f == 160 || f == 5760 || f >= 8192 && f <= 8202 || f == 8232 || f == 8233 || f == 8239 || f == 8287 || f == 12288
	}
	for len(a) > 0 && sp(a[0]) {
		a = a[1:]
	}
	for len(a) > 0 && sp(a[len(a)-1]) {
		a = a[:len(a)-1]
	}
	return textOf(a)
}

func rmail(r *rand.Rand) string {
	al := "aZ09.!#$%&'*+/=?^_`{|}~-@, (é\n"
	s := ""
	for i := 1 + r.Intn(8); i > 0; i-- {
		s += string([]rune(al)[r.Intn(len([]rune(al)))])
		if r.Intn(3) > 0 {
			s = s[:len(s)-1] + "b"
		}
	}
	s += "@"
	dom := "ab1-.-."
	for i := 1 + r.Intn(10); i > 0; i-- {
		s += string(dom[r.Intn(len(dom))])
	}
	if r.Intn(8) == 0 {
		s += pick(r, []string{"\n", " ", ".", "-", "_", "é"})
	}
	return s
}

func lexicalCase(tr *Trace, m M) {
	s := textOf(m["s"])
	rec := M{"k": m.str("k"), "s": codePoints(s), "x": []int{}, "y": []int{}, "t": []int{}}
	switch m.str("k") {
	case "role":
		var v *identity.Role
		if outcome(rec, func() (e error) { v, e = identity.NewRole(s); return }) {
			rec["x"], rec["y"], rec["t"] = codePoints(v.Organization), codePoints(v.Name), codePoints(v.String())
		}
		explain(rec)

	case "name":
		var v *identity.Name
		if outcome(rec, func() (e error) { v, e = identity.ParseName(s); return }) {
			rec["x"], rec["y"], rec["t"] = codePoints(v.First), codePoints(v.Last), codePoints(v.GetFullName())
			if v.ToString() != v.GetFullName() || v.GetNameClaim() != v.GetFullName() {
				rec["t"] = []int{}
			}
		}
		explain(rec)

	case "mail":
		var v *identity.EmailAddress
		if outcome(rec, func() (e error) { v, e = identity.NewEmailAddress(s); return }) {
			rec["x"], rec["y"], rec["t"] = codePoints(v.Address), codePoints(v.Domain), codePoints(v.ToString())
		}
		explain(rec)

	default:
		a := []string{}
		for _, x := range m["a"].([]interface{}) {
			a = append(a, textOf(x))
		}
		rec["a"] = texts(a)
		u := identity.NewUser("u")
		got, first, ch := []string{}, "", []bool{}
		outcome(rec, func() error {
			for _, x := range a {
				before, err := json.Marshal(u)
				must(err)
				switch m.str("k") {
				case "roles":
					if err := u.AddRole(x); err != nil {
						return err
					}
				case "mails":
					if err := u.AddEmailAddress(x); err != nil {
						return err
					}
				case "names":
					n, err := identity.ParseName(x)
					if err != nil {
						return err
					}
					if err := u.AddName(n); err != nil {
						return err
					}
				}
				after, err := json.Marshal(u)
				must(err)
				ch = append(ch, string(before) != string(after))
			}
			switch m.str("k") {
			case "roles":
				got = u.GetRolesClaim()
				rec["has"], rec["any"] = u.HasRole(s), u.HasRoles()
			case "mails":
				for _, e := range u.EmailAddresses {
					got = append(got, e.Address)
				}
				first = u.GetMailClaim()
			case "names":
				for _, e := range u.Names {
					got = append(got, e.GetFullName())
				}
				first = u.GetNameClaim()
				if u.GetFullName() != first {
					first = ""
				}
			}
			return nil
		})
		rec["got"], rec["first"] = texts(got), codePoints(first)
		rec["ch"] = ch
	}
	tr.Emit(rec)
}
