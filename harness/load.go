package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// treeOf makes the tree of a document.
func treeOf(v interface{}, key string) M {
	switch x := v.(type) {
	case nil:
		return M{"t": "z"}
	case string:
		m := M{"t": "s", "v": x, "n": len(x)}
		if key == "username" || key == "address" {
			m["c"] = codePoints(x)
		}
		return m
	case bool:
		return M{"t": "b", "v": x}
	case json.Number:
		i, ok := new(big.Int).SetString(x.String(), 10)
		m := M{"t": "n", "v": x.String(), "int": ok, "neg": false, "bits": 0}
		if ok {
			m["neg"], m["bits"] = i.Sign() < 0, i.BitLen()
		}
		return m
	case []interface{}:
		e := []M{}
		for _, y := range x {
			e = append(e, treeOf(y, key))
		}
		return M{"t": "l", "e": e}
	case map[string]interface{}:
		m := M{}
		for k, y := range x {
			m[k] = treeOf(y, k)
		}
		return M{"t": "o", "m": m}
	}
	die("unexpected %T", v)
	return nil
}

// dump makes the tree of a value of the library.
func dump(v reflect.Value) M {
	if v.Type() == timeType {
		return M{"t": "s", "v": strings.Trim(canon(v, nil), `"`)}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return M{"t": "z"}
		}
		return dump(v.Elem())
	case reflect.String:
		return M{"t": "s", "v": v.String()}
	case reflect.Bool:
		return M{"t": "b", "v": v.Bool()}
	case reflect.Slice:
		e := []M{}
		for i := 0; i < v.Len(); i++ {
			e = append(e, dump(v.Index(i)))
		}
		return M{"t": "l", "e": e}
	case reflect.Map:
		m := M{}
		for _, k := range v.MapKeys() {
			m[k.String()] = dump(v.MapIndex(k))
		}
		return M{"t": "o", "m": m}
	case reflect.Struct:
		m := M{}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				m[f.Name] = dump(v.Field(i))
			}
		}
		return M{"t": "o", "m": m}
	}
	return M{"t": "n", "v": fmt.Sprint(v.Interface())}
}

func parse(b []byte) (interface{}, bool) {
	if !json.Valid(b) {
		return nil, false
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return nil, false
	}
	return v, true
}

// ----------------------------------------------------------------- documents

func loadBase(r *rand.Rand, keys []*TestKey) (*Fixture, []byte) {
	f := NewFixture()
	au := NewAuthenticator(r, "cred-1", "example.com")
	a := f.user(r, "Root", []string{"root@example.com", "Root.2@example.org"}, "Ro", "Ot", [][2]string{{"", "superuser"}, {"corp", "net/admin"}})
	a["passwords"] = []M{f.password("root-password", false, false), f.password("old-password", true, true)}
	a["api_keys"] = []M{f.apikey(r, "k1", false, false), f.apikey(r, "k2", true, false)}
	a["public_keys"] = []M{f.pubkey(r, keys[0], "ssh", "p1", false, false)}
	a["mfa_tokens"] = []M{f.totp(r, "t1", "secret-"+rstr(r, 8), false, false), f.u2f(r, au, "u1", "chal-1", false, false)}
	a["title"], a["human"] = "Dr.", true
	org := M{"id": 7, "name": "Corp", "aliases": []string{"c"}}
	a["organization"], a["organizations"] = org, []M{org, {"id": 8, "name": "Other"}}
	a["street_address"] = []M{{"street": "1 Way", "city": "Town", "state": "ST", "zip_code": "01234", "confirmed": true, "current": true, "domicile": true, "residential": true, "commercial": true}}
	a["lockout"] = M{"enabled": false, "start_time": oldTime, "end_time": "2031-01-02T03:04:05Z"}
	a["avatar"] = M{"title": "me", "body": "AAAA", "path": "/a.png"}
	n := a["name"].(M)
	for k, v := range (M{"middle": "Mid", "preferred": "R", "nickname": true, "confirmed": true, "primary": true, "legal": true, "alias": true}) {
		n[k] = v
	}
	tok := a["mfa_tokens"].([]M)[1]
	tok["device"] = M{"name": "Key", "vendor": "Acme", "type": "usb"}
	b := f.user(r, "guest", []string{"guest@example.com"}, "", "", [][2]string{{"", "viewer"}})
	b["passwords"] = []M{f.password("guest-password", false, false)}
	b["api_keys"] = []M{f.apikey(r, "g1", false, false)}
	b["mfa_tokens"] = []M{f.totp(r, "t1", "secret-"+rstr(r, 8), true, false)}
	c := f.user(r, "svc", nil, "", "", nil)
	c["passwords"] = []M{f.password("svc-password", false, false)}
	c["last_modified"] = "1999-12-31T23:59:59Z"
	f.Doc["users"] = []M{a, b, c}
	f.Doc["policy"] = M{"password": M{"keep_versions": 3, "min_length": 6, "max_length": 99, "require_uppercase": true, "require_lowercase": false, "require_number": true,
		"require_non_alpha_numeric": false, "block_reuse": true, "block_password_change": false}, "user": M{"min_length": 2, "max_length": 44, "allow_non_alpha_numeric": true, "allow_uppercase": true}}
	out, err := json.Marshal(f.Doc)
	must(err)
	return f, out
}

// mutation changes a document in one place.
type mutation struct {
	name string
	f    func(doc map[string]interface{})
}

// places lists where a document can be changed.
func places(v interface{}, path []interface{}, out *[][]interface{}) {
	p := append([]interface{}{}, path...)
	if len(p) > 0 {
		*out = append(*out, p)
	}
	switch x := v.(type) {
	case []interface{}:
		for i, y := range x {
			places(y, append(p, i), out)
		}
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			places(x[k], append(p, k), out)
		}
	}
}

func pathText(p []interface{}) string {
	s := ""
	for _, x := range p {
		s += fmt.Sprint(".", x)
	}
	return s[1:]
}

// set changes the value at a path, when it is still there.
func set(doc interface{}, p []interface{}, f func(old interface{}) (interface{}, bool)) {
	for i, k := range p {
		last := i == len(p)-1
		switch x := doc.(type) {
		case []interface{}:
			n, ok := k.(int)
			if !ok || n >= len(x) {
				return
			}
			if last {
				if v, keep := f(x[n]); keep {
					x[n] = v
				}
				return
			}
			doc = x[n]
		case map[string]interface{}:
			n, ok := k.(string)
			if !ok {
				return
			}
			if last {
				if v, keep := f(x[n]); keep {
					x[n] = v
				} else {
					delete(x, n)
				}
				return
			}
			doc = x[n]
		default:
			return
		}
	}
}

func mutations(doc interface{}) (all, special []mutation) {
	ps := [][]interface{}{}
	places(doc, nil, &ps)
	num := func(s string) interface{} { return json.Number(s) }
	plain := map[string]func(old interface{}) interface{}{
		"null": func(interface{}) interface{} { return nil }, "string": func(interface{}) interface{} { return "text" }, "empty string": func(interface{}) interface{} { return "" },
		"number": func(interface{}) interface{} { return num("5") }, "zero": func(interface{}) interface{} { return num("0") }, "minus": func(interface{}) interface{} { return num("-1") },
		"fraction": func(interface{}) interface{} { return num("1.5") }, "exponent": func(interface{}) interface{} { return num("1e3") }, "big": func(interface{}) interface{} { return num("4294967296") },
		"huge": func(interface{}) interface{} { return num("18446744073709551616") }, "true": func(interface{}) interface{} { return true }, "list": func(interface{}) interface{} { return []interface{}{} },
		"list of null": func(interface{}) interface{} { return []interface{}{nil} }, "list of object": func(interface{}) interface{} { return []interface{}{map[string]interface{}{}} },
		"list of list": func(interface{}) interface{} { return []interface{}{[]interface{}{}} }, "object": func(interface{}) interface{} { return map[string]interface{}{} },
		"object with junk": func(interface{}) interface{} { return map[string]interface{}{"junk": []interface{}{nil}} },
		"wrapped":          func(old interface{}) interface{} { return []interface{}{old} },
	}
	names := []string{}
	for k := range plain {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, p := range ps {
		p := p
		t := pathText(p)
		if strings.Contains(t, "aliases") { // of a list of strings, what null entries mean is open
			continue
		}
		for _, k := range names {
			k := k
			all = append(all, mutation{t + "=" + k, func(doc map[string]interface{}) {
				set(doc, p, func(old interface{}) (interface{}, bool) { return plain[k](old), true })
			}})
		}
		if _, isIndex := p[len(p)-1].(int); !isIndex {
			all = append(all, mutation{t + " missing", func(doc map[string]interface{}) {
				set(doc, p, func(interface{}) (interface{}, bool) { return nil, false })
			}})
		}
	}
	user := func(doc map[string]interface{}, i int) map[string]interface{} {
		us, _ := doc["users"].([]interface{})
		if i < len(us) {
			u, _ := us[i].(map[string]interface{})
			return u
		}
		return nil
	}
	list := func(u map[string]interface{}, k string) []interface{} {
		if u == nil {
			return nil
		}
		l, _ := u[k].([]interface{})
		return l
	}
	entry := func(u map[string]interface{}, k string, i int) map[string]interface{} {
		l := list(u, k)
		if i < len(l) {
			m, _ := l[i].(map[string]interface{})
			return m
		}
		return nil
	}
	sp := func(name string, f func(doc map[string]interface{})) { special = append(special, mutation{name, f}) }
	put := func(name string, i int, k string, v interface{}) {
		sp(name, func(doc map[string]interface{}) {
			if u := user(doc, i); u != nil {
				u[k] = v
			}
		})
	}
	for i := 0; i < 3; i++ {
		i := i
		sp(fmt.Sprint("null user ", i), func(doc map[string]interface{}) {
			if us, ok := doc["users"].([]interface{}); ok && i < len(us) {
				us[i] = nil
			}
		})
		sp(fmt.Sprint("null after user ", i), func(doc map[string]interface{}) {
			if us, ok := doc["users"].([]interface{}); ok && i < len(us) {
				doc["users"] = append(append(append([]interface{}{}, us[:i+1]...), nil), us[i+1:]...)
			}
		})
		for _, k := range []string{"names", "organizations", "street_address", "email_addresses", "passwords", "public_keys", "api_keys", "mfa_tokens", "roles"} {
			k := k
			put(fmt.Sprint(k, " null of ", i), i, k, []interface{}{nil})
			put(fmt.Sprint(k, " none of ", i), i, k, []interface{}{})
			sp(fmt.Sprint(k, " trailing null of ", i), func(doc map[string]interface{}) {
				if u := user(doc, i); u != nil {
					u[k] = append(append([]interface{}{}, list(u, k)...), nil)
				}
			})
			sp(fmt.Sprint(k, " leading null of ", i), func(doc map[string]interface{}) {
				if u := user(doc, i); u != nil {
					u[k] = append([]interface{}{nil}, list(u, k)...)
				}
			})
			sp(fmt.Sprint(k, " blank of ", i), func(doc map[string]interface{}) {
				if u := user(doc, i); u != nil {
					u[k] = append(append([]interface{}{}, list(u, k)...), map[string]interface{}{})
				}
			})
		}
		put(fmt.Sprint("id of 35 of ", i), i, "id", "01234567-0123-4123-8123-0123456789a")
		put(fmt.Sprint("id of 37 of ", i), i, "id", "01234567-0123-4123-8123-0123456789abc")
		put(fmt.Sprint("other id of ", i), i, "id", "01234567-0123-4123-8123-0123456789ab")
		put(fmt.Sprint("id not a uuid of ", i), i, "id", strings.Repeat("x", 36))
		put(fmt.Sprint("blank id of ", i), i, "id", strings.Repeat(" ", 36))
		put(fmt.Sprint("id of 36 wide characters of ", i), i, "id", strings.Repeat("ж", 36))
		put(fmt.Sprint("id of 18 wide characters of ", i), i, "id", strings.Repeat("ж", 18))
		put(fmt.Sprint("padded id of ", i), i, "id", " 01234567-0123-4123-8123-0123456789a ")
		for _, un := range []string{"ROOT", "root", "Root ", "roo", "Guest", "SVC", "guest@example.com", "жук", "ЖУК", "tést", "TÉST"} {
			put(fmt.Sprint("username ", un, " of ", i), i, "username", un)
		}
		for _, em := range []string{"ROOT@example.com", "root.2@EXAMPLE.ORG", "guest@example.com", "free@example.com", "", "no at"} {
			em := em
			sp(fmt.Sprint("email ", em, " added to ", i), func(doc map[string]interface{}) {
				if u := user(doc, i); u != nil {
					u["email_addresses"] = append(append([]interface{}{}, list(u, "email_addresses")...), map[string]interface{}{"address": em})
				}
			})
			put(fmt.Sprint("email ", em, " only, of ", i), i, "email_addresses", []interface{}{map[string]interface{}{"address": em, "domain": "example.com"}})
			put(fmt.Sprint("primary email ", em, " of ", i), i, "email_address", map[string]interface{}{"address": em})
		}
		for j := 0; j < 3; j++ {
			j := j
			if i != j {
				sp(fmt.Sprint("id of ", i, " to ", j), func(doc map[string]interface{}) {
					if u, v := user(doc, i), user(doc, j); u != nil && v != nil {
						v["id"] = u["id"]
					}
				})
				sp(fmt.Sprint("id of ", i, " to ", j, " in other case"), func(doc map[string]interface{}) {
					if u, v := user(doc, i), user(doc, j); u != nil && v != nil {
						u["id"], v["id"] = "01234567-0123-4123-8123-0123456789ab", "01234567-0123-4123-8123-0123456789AB"
					}
				})
				// alike, but for a part of them
				for _, n := range []int{8, 12, 16, 20, 24, 32, 64, 128, 255, 300} {
					if i != 0 || j != 1 {
						break
					}
					a := strings.Repeat("abcdefgh", 40)[:n]
					for how, two := range map[string][2]string{"ends": {a + "x", a + "y"}, "starts": {"x" + a, "y" + a}, "length": {a, a + "a"}, "middle": {a[:n/2] + "x" + a[n/2:], a[:n/2] + "y" + a[n/2:]}} {
						two := two
						both := func(doc map[string]interface{}, f func(u map[string]interface{}, s string)) {
							if u, v := user(doc, i), user(doc, j); u != nil && v != nil {
								f(u, two[0])
								f(v, two[1])
							}
						}
						what := fmt.Sprint(" of ", i, " and ", j, " with other ", how, " ", n)
						sp("usernames"+what, func(doc map[string]interface{}) {
							both(doc, func(u map[string]interface{}, s string) { u["username"] = s })
						})
						sp("email addresses"+what, func(doc map[string]interface{}) {
							both(doc, func(u map[string]interface{}, s string) {
								u["email_addresses"] = append(append([]interface{}{}, list(u, "email_addresses")...), map[string]interface{}{"address": s + "@example.com"})
							})
						})
						sp("hosts"+what, func(doc map[string]interface{}) {
							both(doc, func(u map[string]interface{}, s string) {
								u["email_addresses"] = append(append([]interface{}{}, list(u, "email_addresses")...), map[string]interface{}{"address": "a@" + s + ".com"})
							})
						})
						sp("prefixes"+what, func(doc map[string]interface{}) {
							both(doc, func(u map[string]interface{}, s string) {
								u["api_keys"] = append(append([]interface{}{}, list(u, "api_keys")...), map[string]interface{}{"id": "x", "prefix": s, "usage": "api", "payload": "$2a$10$x"})
							})
						})
						if n == 20 || n == 32 {
							sp("ids"+what, func(doc map[string]interface{}) {
								both(doc, func(u map[string]interface{}, s string) {
									if how == "starts" {
										s = s[:1] + strings.Repeat("0", 36-len(s)) + s[1:]
									}
									u["id"] = s + strings.Repeat("0", 36-len(s))
								})
							})
						}
					}
				}
				sp(fmt.Sprint("swapped ", i, j), func(doc map[string]interface{}) {
					if us, ok := doc["users"].([]interface{}); ok && i < len(us) && j < len(us) {
						us[i], us[j] = us[j], us[i]
					}
				})
			}
			for _, k := range []string{"api_keys", "mfa_tokens", "public_keys", "passwords", "roles", "names"} {
				k := k
				sp(fmt.Sprint("first of ", k, " of ", i, " to ", j), func(doc map[string]interface{}) {
					u, v := user(doc, i), user(doc, j)
					if e := entry(u, k, 0); e != nil && v != nil {
						v[k] = append(append([]interface{}{}, list(v, k)...), e)
					}
				})
			}
			sp(fmt.Sprint("prefix of ", i, " to a key of ", j), func(doc map[string]interface{}) {
				u, v := user(doc, i), user(doc, j)
				if e := entry(u, "api_keys", 0); e != nil && v != nil {
					v["api_keys"] = append(append([]interface{}{}, list(v, "api_keys")...), map[string]interface{}{"id": "x" + fmt.Sprint(j), "prefix": e["prefix"], "usage": "api", "payload": "$2a$10$x", "disabled": true})
				}
			})
		}
		sp(fmt.Sprint("user twice ", i), func(doc map[string]interface{}) {
			if us, ok := doc["users"].([]interface{}); ok && i < len(us) {
				doc["users"] = append(append([]interface{}{}, us...), us[i])
			}
		})
		sp(fmt.Sprint("unknown members of ", i), func(doc map[string]interface{}) {
			if u := user(doc, i); u != nil {
				u["unknown"] = []interface{}{nil, map[string]interface{}{"users": nil}}
			}
		})
		for _, h := range []string{"", "$2a$10$", "$2a$99$abcdefghijklmnopqrstuuabcdefghijklmnopqrstuvwxyzabcde", "plain", "$2b$04$" + strings.Repeat("x", 53), strings.Repeat("$", 500)} {
			h := h
			sp(fmt.Sprintf("hash %.9s of %d", h, i), func(doc map[string]interface{}) {
				if e := entry(user(doc, i), "passwords", 0); e != nil {
					e["hash"] = h
				}
				if e := entry(user(doc, i), "api_keys", 0); e != nil {
					e["payload"] = h
				}
			})
		}
		for _, k := range []string{"curve_xcoord", "curve_ycoord", "key_algo", "key_type", "u2f_id", "rp_id_hash", "*"} {
			for _, v := range []interface{}{nil, "", "AAAA", "###", "es256", "ec2", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA="} {
				k, v := k, v
				if i == 0 {
					sp(fmt.Sprint("parameter ", k, " ", v), func(doc map[string]interface{}) {
						e := entry(user(doc, i), "mfa_tokens", 1)
						if e == nil {
							return
						}
						m, _ := e["parameters"].(map[string]interface{})
						if m == nil || k == "*" {
							delete(e, "parameters")
							return
						}
						if v == nil {
							delete(m, k)
						} else {
							m[k] = v
						}
					})
				}
			}
		}
	}
	return
}

// sweep calls every operation; it returns what panicked.
func (c *Ctx) sweep(db *identity.Database, r *rand.Rand, dir string) string {
	out := ""
	try := func(name string, f func()) {
		_, pn, hang := call(func() error { f(); return nil })
		if pn != "" || hang {
			out += name + ": " + pn + "; "
		}
	}
	q := func(u, m string) *requests.Request { return as(u, m) }
	us := append([]*identity.User{}, db.Users...)
	keys := []string{rstr(r, 80), "", "x"}
	for i, u := range us {
		un := u.Username
		ms := []string{un, "none@example.com", strings.ToUpper(un)}
		for _, e := range u.EmailAddresses {
			ms = append(ms, e.Address)
		}
		for _, k := range u.APIKeys {
			keys = append(keys, k.Prefix+rstr(r, 60), k.Prefix, k.Payload)
		}
		for _, m := range ms {
			for _, pw := range []string{"root-password", "guest-password", "svc-password", ""} {
				try("AuthenticateUser", func() { x := q(m, ""); x.User.Password = pw; db.AuthenticateUser(x) })
			}
			try("IdentifyUser", func() { x := q(m, ""); x.Flags.Enabled = true; db.IdentifyUser(x) })
			try("GetUser", func() { db.GetUser(q(un, m)) })
			for _, us := range []string{"", "ssh", "gpg", "api"} {
				try("GetPublicKeys", func() { x := q(un, m); x.Key.Usage = us; db.GetPublicKeys(x) })
				try("GetAPIKeys", func() { x := q(un, m); x.Key.Usage = us; db.GetAPIKeys(x) })
			}
			try("GetMfaTokens", func() { db.GetMfaTokens(q(un, m)) })
		}
		em := ms[len(ms)-1]
		for _, t := range u.MfaTokens {
			au := NewAuthenticator(r, t.Parameters["u2f_id"], "example.com")
			try("WebAuthn", func() {
				x := q(un, em)
				x.WebAuthn.Challenge = "c"
				x.WebAuthn.Request = enc(au.Encode(r, au.Good("c")))
				db.AuthenticateUser(x)
			})
			try("ValidateCode", func() { t.ValidateCode("123456"); t.ValidateCode("") })
		}
		try("AddAPIKey", func() {
			x := q(un, em)
			x.Key.Usage, x.Key.Comment = "api", "c"
			db.AddAPIKey(x)
			if x.Response.Payload != nil {
				keys = append(keys, fmt.Sprint(x.Response.Payload))
			}
		})
		try("AddPublicKey", func() {
			x := q(un, em)
			x.Key.Usage, x.Key.Payload = "ssh", c.keys[i%len(c.keys)].Render("ssh", "")
			db.AddPublicKey(x)
		})
		try("AddMfaToken", func() {
			x := q(un, em)
			au := NewAuthenticator(r, rstr(r, 30), "example.com")
			x.MfaToken.Type, x.MfaToken.Comment = "u2f", "added"
			x.WebAuthn.Register, x.WebAuthn.Challenge = enc(au.Registration()), rstr(r, 9)
			db.AddMfaToken(x)
		})
		for _, id := range []string{"", "none"} {
			try("Delete", func() {
				x := q(un, em)
				x.Key.ID, x.MfaToken.ID = id, id
				db.DeleteAPIKey(x)
				db.DeletePublicKey(x)
				db.DeleteMfaToken(x)
			})
		}
		for _, k := range append([]*identity.APIKey{}, u.APIKeys...) {
			try("DeleteAPIKey", func() { x := q(un, em); x.Key.ID = k.ID; db.DeleteAPIKey(x) })
		}
		for _, k := range append([]*identity.PublicKey{}, u.PublicKeys...) {
			try("DeletePublicKey", func() { x := q(un, em); x.Key.ID = k.ID; db.DeletePublicKey(x) })
		}
		for _, k := range append([]*identity.MfaToken{}, u.MfaTokens...) {
			try("DeleteMfaToken", func() { x := q(un, em); x.MfaToken.ID = k.ID; db.DeleteMfaToken(x) })
		}
		for _, pw := range []string{"root-password", "guest-password", "svc-password"} {
			try("ChangeUserPassword", func() {
				x := q(un, em)
				x.User.OldPassword, x.User.Password = pw, pw+"-2"
				db.ChangeUserPassword(x)
			})
		}
		try("user", func() {
			u.HasEmailAddresses()
			u.HasRoles()
			u.HasRole("superuser")
			u.HasRole("corp/net/admin")
			u.GetMailClaim()
			u.GetNameClaim()
			u.GetFullName()
			u.GetRolesClaim()
			u.GetFlags(q(un, em))
			u.GetMetadata()
			u.GetChallenges()
			u.Valid()
		})
		try("AddName", func() { u.AddName(&identity.Name{First: "New", Last: "Name"}) })
		try("AddRole", func() { u.AddRole("new/role"); u.AddRoles([]string{"a", "a"}) })
		try("AddEmailAddress", func() { u.AddEmailAddress("new@example.net") })
	}
	for _, k := range keys {
		try("LookupAPIKey", func() { x := requests.NewRequest(); x.Key.Payload = k; db.LookupAPIKey(x) })
	}
	try("AddUser", func() {
		x := q("newcomer", "newcomer@example.com")
		x.User.Password, x.User.FullName, x.User.Roles = "newcomer-password", "New Comer", []string{"a"}
		db.AddUser(x)
	})
	try("DeleteUser", func() { db.DeleteUser(q("newcomer", "newcomer@example.com")) })
	try("GetUsers", func() {
		if len(us) > 0 && len(us[0].EmailAddresses) > 0 {
			db.GetUsers(q(us[0].Username, us[0].EmailAddresses[0].Address))
		}
	})
	try("policy", func() { policyTexts(db); db.GetUserCount(); db.GetPath() })
	try("Save", func() { db.Save() })
	try("Copy", func() { db.Copy(filepath.Join(dir, "copy.json")) })
	return out
}

func cmdLoad(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		_, base := loadBase(r, c.keys)
		v, _ := parse(base)
		all, special := mutations(v)
		fresh := func() map[string]interface{} {
			v, _ := parse(base)
			return v.(map[string]interface{})
		}
		limits := []mutation{{"no policy", func(doc map[string]interface{}) { delete(doc, "policy") }}}
		for _, p := range [][]interface{}{{"policy", "password"}, {"policy", "user"}, {"policy", "password", "min_length"}, {"policy", "password", "max_length"},
			{"policy", "password", "keep_versions"}, {"policy", "user", "min_length"}, {"policy", "user", "max_length"}} {
			p := p
			limits = append(limits, mutation{"no " + pathText(p), func(doc map[string]interface{}) {
				set(doc, p, func(interface{}) (interface{}, bool) { return nil, false })
			}})
		}
		type doc struct {
			what string
			b    []byte
		}
		docs := []doc{{"base", base}}
		add := func(ms ...mutation) {
			d := fresh()
			what := ""
			for _, m := range ms {
				m.f(d)
				what += m.name + "; "
			}
			b, err := json.Marshal(d)
			must(err)
			docs = append(docs, doc{what, b})
		}
		for _, m := range append(append([]mutation{}, all...), special...) {
			add(m)
		}
		// of the limits, some are missing
		for i, m := range special {
			add(m, limits[i%len(limits)])
		}
		for i := 0; i < c.steps; i++ {
			ms := []mutation{}
			for n := 2 + r.Intn(2); n > 0; n-- {
				if r.Intn(3) == 0 {
					ms = append(ms, all[r.Intn(len(all))])
				} else {
					ms = append(ms, special[r.Intn(len(special))])
				}
			}
			add(ms...)
		}
		raw := func(what string, b []byte) { docs = append(docs, doc{what, b}) }
		for _, n := range []int{0, 1, 2, len(base) / 2, len(base) - 2, len(base) - 1} {
			raw(fmt.Sprint("first bytes: ", n), base[:n])
		}
		for i := 0; i < 40; i++ {
			raw("truncated", base[:r.Intn(len(base))])
		}
		raw("white space", []byte(" \n\t "))
		raw("in white space", []byte("\n\t "+string(base)+"\r\n \n"))
		raw("trailing text", append(append([]byte{}, base...), 'x'))
		raw("trailing brace", append(append([]byte{}, base...), '}'))
		raw("trailing NUL", append(append([]byte{}, base...), 0))
		raw("twice", append(append([]byte{}, base...), base...))
		raw("byte order mark", append([]byte("\xef\xbb\xbf"), base...))
		raw("array", []byte("["+string(base)+"]"))
		raw("string", []byte(js(string(base))))
		raw("number", []byte("12"))
		raw("true", []byte("true"))
		raw("empty array", []byte("[]"))
		raw("deep", []byte(strings.Repeat("[", 20000)))
		raw("deep object", []byte(strings.Repeat(`{"users":`, 20000)))
		raw("empty object", []byte("{}"))
		raw("only users", []byte(`{"users":[]}`))
		raw("garbage", []byte(rbytes(r, 500)))
		raw("NULs", make([]byte, 4096))
		raw("HTML", []byte("<html></html>"))
		raw("YAML", []byte("version: 1.0.0\nusers: []\n"))
		recs := make([]M, len(docs))
		var wg sync.WaitGroup
		next := make(chan int)
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range next {
					recs[i] = c.loadCase(docs[i].what, docs[i].b, filepath.Join(c.scratch, fmt.Sprint("l", i)), c.rnd(int64(9000+i)))
				}
			}()
		}
		for i := range docs {
			next <- i
		}
		close(next)
		wg.Wait()
		for _, m := range recs {
			tr.Emit(m)
		}
	})
}

func (c *Ctx) loadCase(what string, b []byte, dir string, r *rand.Rand) M {
	must(os.MkdirAll(dir, 0700))
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "u.json")
	must(os.WriteFile(path, b, 0600))
	v, ok := parse(b)
	rec := M{"what": what, "json": ok, "doc": M{"t": "z"}, "db": M{"t": "z"}, "again": true, "sweep": "", "kind": "", "says": []string{}}
	if ok {
		rec["doc"] = treeOf(v, "")
	}
	var db *identity.Database
	if outcome(rec, func() (e error) { db, e = identity.NewDatabase(path); rec["cause"] = e; return }) {
		d := dump(reflect.ValueOf(db))
		// what matters is what the file had
		rec["db"] = d
		db2, err := identity.NewDatabase(path)
		rec["again"] = err == nil && canon(reflect.ValueOf(*db), map[string]bool{"Revision": true, "LastModified": true}) == canon(reflect.ValueOf(*db2), map[string]bool{"Revision": true, "LastModified": true})
		same(rec, path, b)
		rec["sweep"] = c.sweep(db, r, dir)
	} else {
		same(rec, path, b)
		rec["kind"], rec["says"] = openingKind(rec["cause"])
	}
	delete(rec, "cause")
	return rec
}

func same(rec M, path string, b []byte) {
	now, err := os.ReadFile(path)
	rec["same"] = err == nil && bytes.Equal(now, b)
}
