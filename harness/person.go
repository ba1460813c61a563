package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// Lives of user objects without a database.

var lifeTexts = []string{"p1", "p2", "P1", "p1 ", " "}
var lifeRoles = []string{"admin", " admin ", "acme/admin", "acme/admin  ", "Admin", "acme/team/lead", "/admin", " ", "", "acme", "lead", "team/lead"}

type life struct {
	in   *Interner
	u    *identity.User
	p    *Proj
	r    *rand.Rand
	keys map[string]*TestKey
	t0   time.Time
	meth map[string]string // of the secrets of API keys
}

func lifeText(s string) string {
	if s == "blanks" {
		return "\t\n "
	}
	return s
}

func lifeSecret(n int) (prefix, key string) {
	key = fmt.Sprintf("%024d", n) + fmt.Sprintf("-the-secret-of-key-%d", n)
	return key[:24], key
}

var lifeHashes sync.Map

func lifeHash(key string) string {
	if h, ok := lifeHashes.Load(key); ok {
		return h.(string)
	}
	h := cheapHash(key)
	lifeHashes.Store(key, h)
	return h
}

func (l *life) now(ts ...time.Time) bool {
	t1 := time.Now()
	for _, t := range ts {
		if t.Before(l.t0) || t.After(t1) {
			return false
		}
	}
	return true
}

// view gives what can be seen of the user.
func (l *life) view() M {
	u := l.u
	marks := func(x interface{}, dis, exp bool, disAt, expAt time.Time) M {
		// when made by adding a disabled one, there is no time of expiry
		now := l.now(disAt)
		if exp {
			now = now && l.now(expAt)
		}
		return M{"dis": dis, "exp": exp, "now": now, "dat": !disAt.IsZero(), "eat": !expAt.IsZero(), "d": l.in.Dig(x), "m": l.in.Dig(x, "Disabled", "DisabledAt", "Expired", "ExpiredAt")}
	}
	pws, keys, apis, toks := []M{}, []M{}, []M{}, []M{}
	for _, x := range u.Passwords {
		m := marks(x, x.Disabled, x.Expired, x.DisabledAt, x.ExpiredAt)
		m["t"] = "?"
		for _, t := range lifeTexts {
			if x.Match(lifeText(t)) {
				if m["t"] != "?" {
					m["t"] = "several"
				} else {
					m["t"] = t
				}
			}
		}
		pws = append(pws, m)
	}
	for _, x := range u.PublicKeys {
		m := marks(x, x.Disabled, x.Expired, x.DisabledAt, x.ExpiredAt)
		m["k"] = "?"
		for n, k := range l.keys {
			if k.Matches(x) {
				m["k"] = n
			}
		}
		keys = append(keys, m)
	}
	for _, x := range u.APIKeys {
		m := marks(x, x.Disabled, x.Expired, x.DisabledAt, x.ExpiredAt)
		m["n"] = 0
		for n := 1; n <= 4; n++ {
			if p, s := lifeSecret(n); x.Prefix == p && x.Match(s) {
				m["n"] = n
			}
		}
		apis = append(apis, m)
	}
	for _, x := range u.MfaTokens {
		m := marks(x, x.Disabled, x.Expired, x.DisabledAt, x.ExpiredAt)
		m["ty"], m["s"], m["c"] = x.Type, x.Secret, x.Comment
		toks = append(toks, m)
	}
	mails, names, roles := []string{}, [][]string{}, [][]string{}
	for _, x := range u.EmailAddresses {
		mails = append(mails, x.Address)
	}
	for _, x := range u.Names {
		names = append(names, []string{x.Last, x.First})
	}
	for _, x := range u.Roles {
		roles = append(roles, []string{x.Organization, x.Name})
	}
	v := M{"pws": pws, "keys": keys, "apis": apis, "toks": toks, "mails": mails, "names": names, "roles": roles, "un": u.Username,
		"rev": u.Revision, "lmnow": l.now(u.LastModified), "all": l.in.Dig(u),
		"rest": l.in.Dig(u, "Passwords", "PublicKeys", "APIKeys", "MfaTokens", "Revision", "LastModified", "EmailAddress", "EmailAddresses", "Name", "Names", "Roles")}
	all := v["all"]
	acc, live, has := []string{}, []int{}, []string{}
	for _, t := range lifeTexts {
		if u.VerifyPassword(lifeText(t)) == nil {
			acc = append(acc, t)
		}
	}
	for n := 1; n <= 4; n++ {
		q := requests.NewRequest()
		q.Key.Prefix, q.Key.Payload = lifeSecret(n)
		if u.LookupAPIKey(q) == nil {
			live = append(live, n)
		}
		q.Key.Payload += "x"
		if u.LookupAPIKey(q) == nil {
			live = append(live, -n)
		}
	}
	for _, s := range lifeRoles {
		if u.HasRole(s) {
			has = append(has, s)
		}
	}
	q := requests.NewRequest()
	u.GetFlags(q)
	m := u.GetMetadata()
	rolec := u.GetRolesClaim()
	if rolec == nil {
		rolec = []string{}
	}
	v["acc"], v["live"], v["has"] = acc, live, has
	v["flags"] = []bool{q.Flags.MfaConfigured, q.Flags.MfaApp, q.Flags.MfaUniversal}
	v["chal"], v["mail"], v["name"], v["full"], v["rolec"] = u.GetChallenges(), u.GetMailClaim(), u.GetNameClaim(), u.GetFullName(), rolec
	v["hasmail"], v["hasroles"], v["valid"] = u.HasEmailAddresses(), u.HasRoles(), u.Valid() == nil
	v["memail"], v["mname"] = m.Email, m.Name
	v["meta"] = m.ID == u.ID && m.Username == u.Username && m.Enabled == u.Enabled && m.Title == u.Title && m.Revision == u.Revision &&
		m.Created.Equal(u.Created) && m.LastModified.Equal(u.LastModified) && m.Avatar == ""
	if u.Avatar != nil {
		v["meta"] = m.Avatar == u.Avatar.Path
	}
	if l.in.Dig(u) != all { // looking changes nothing
		v["meta"] = false
	}
	return v
}

func (l *life) do(o M) error {
	u, a, b, n, i := l.u, o.str("a"), o.str("b"), o.num("n"), o.num("i")
	q := requests.NewRequest()
	q.User.Username = u.Username
	id := func(k int, f func(k int) string) string {
		if i < 1 || i > k {
			return "none"
		}
		return f(i - 1)
	}
	switch o.str("op") {
	case "AddPassword":
		return u.AddPassword(lifeText(a), n)
	case "ChangePassword":
		q.User.Password, q.User.OldPassword = lifeText(a), lifeText(b)
		return u.ChangePassword(q, n)
	case "VerifyPassword":
		return u.VerifyPassword(lifeText(a))
	case "AddEmailAddress":
		return u.AddEmailAddress(a)
	case "AddName":
		return u.AddName(&identity.Name{Last: a, First: b})
	case "AddRole":
		return u.AddRole(a)
	case "AddRoles":
		return u.AddRoles([]string{a, b})
	case "AddPublicKey":
		q.Key.Usage, q.Key.Comment, q.Key.Disabled = b, "key", o.str("c") == "off"
		if k, ok := l.keys[a]; ok {
			q.Key.Payload = k.PGP
			if k.Kind == "rsa" {
				q.Key.Payload = k.PEM
				if l.r.Intn(2) == 0 {
					q.Key.Payload = "ssh-rsa " + k.SSH + " me@host"
				}
			}
		}
		return u.AddPublicKey(q)
	case "AddAPIKey":
		q.Key.Usage, q.Key.Comment, q.Key.Disabled = a, b, o.str("c") == "off"
		p, s := lifeSecret(n)
		q.Key.Prefix, q.Key.Payload = p, lifeHash(s)
		return u.AddAPIKey(q)
	case "AddMfaToken":
		q.MfaToken.Comment, q.MfaToken.Disabled = b, o.str("c") == "off"
		if o.str("c") == "u2f" {
			au := NewAuthenticator(l.r, "cred-"+rstr(l.r, 5), "example.com")
			q.MfaToken.Type = "u2f"
			q.WebAuthn.Register, q.WebAuthn.Challenge = enc(au.Registration()), a
			return u.AddMfaToken(q)
		}
		t := time.Now().Unix()
		q.MfaToken.Type, q.MfaToken.Secret, q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = "totp", a, "sha1", 300, 6
		q.MfaToken.Passcode = rfc4226([]byte(a), "sha1", 6, uint64(t/300))
		if o.str("c") == "wrong code" {
			q.MfaToken.Passcode = rfc4226([]byte(a), "sha1", 6, uint64(t/300)+4)
		}
		return u.AddMfaToken(q)
	case "DeletePublicKey":
		q.Key.ID = id(len(u.PublicKeys), func(k int) string { return u.PublicKeys[k].ID })
		return u.DeletePublicKey(q)
	case "DeleteAPIKey":
		q.Key.ID = id(len(u.APIKeys), func(k int) string { return u.APIKeys[k].ID })
		return u.DeleteAPIKey(q)
	case "DeleteMfaToken":
		q.MfaToken.ID = id(len(u.MfaTokens), func(k int) string { return u.MfaTokens[k].ID })
		return u.DeleteMfaToken(q)
	case "LookupAPIKey":
		q.Key.Prefix, q.Key.Payload = lifeSecret(n)
		return u.LookupAPIKey(q)
	case "Disable", "Expire":
		exp := o.str("op") == "Expire"
		switch {
		case a == "pws" && i <= len(u.Passwords):
			x := u.Passwords[i-1]
			if exp {
				x.Expired, x.ExpiredAt = true, time.Now().UTC()
			} else {
				x.Disable()
			}
		case a == "apis" && i <= len(u.APIKeys):
			x := u.APIKeys[i-1]
			if exp {
				x.Expired, x.ExpiredAt = true, time.Now().UTC()
			} else {
				x.Disable()
			}
		case a == "keys" && i <= len(u.PublicKeys):
			u.PublicKeys[i-1].Disable()
		case a == "toks" && i <= len(u.MfaTokens):
			u.MfaTokens[i-1].Disable()
		}
		return nil
	case "Revise":
		u.Revise()
		return nil
	}
	die("unknown operation %s", o.str("op"))
	return nil
}

func (c *Ctx) life(r *rand.Rand, m M) M {
	l := &life{in: NewInterner(), r: r, keys: map[string]*TestKey{}}
	for _, k := range c.keys {
		for n := 1; n <= 2; n++ {
			if name := fmt.Sprint(k.Kind, n); l.keys[name] == nil && (k.Kind == "rsa" || k.Kind == "pgp") {
				if k.Kind == "pgp" && k.raw == nil {
					break
				}
				l.keys[name] = k
				break
			}
		}
	}
	rec := M{"k": m["k"], "start": m["start"], "h": m["h"], "un": m["un"], "pw": m["pw"], "mail": m["mail"], "name": m["name"], "roles": m["roles"]}
	ss, vs := []M{}, []M{}
	defer func() { rec["s"], rec["v"] = ss, vs }()
	l.t0 = time.Now()
	if m.str("k") == "new" {
		roles := []string{}
		if a, ok := m["roles"].([]interface{}); ok {
			for _, x := range a {
				roles = append(roles, x.(string))
			}
		}
		s := M{}
		outcome(s, func() (err error) {
			l.u, err = identity.NewUserWithRoles(m.str("un"), lifeText(m.str("pw")), m.str("mail"), m.str("name"), roles)
			return err
		})
		ss = append(ss, s)
		if s["ok"] == true {
			vs = append(vs, l.view())
		}
		return rec
	}
	switch m.str("start") {
	case "made":
		u, err := identity.NewUserWithRoles("ann", "p1", "ann@example.com", "Ann Lee", []string{"admin"})
		if err != nil {
			u = identity.NewUser("ann")
		}
		u.Title, u.Avatar, u.Enabled = "Dr.", &identity.Image{Path: "/a.png"}, true
		l.u = u
	default:
		l.u = identity.NewUser("ann")
	}
	vs = append(vs, l.view())
	h, _ := m["h"].([]interface{})
	for _, x := range h {
		o := M(x.(map[string]interface{}))
		s := M{}
		if o.str("op") == "AddMfaToken" {
			waitAwayFromBoundary(300)
		}
		l.t0 = time.Now()
		outcome(s, func() error { return l.do(o) })
		ss = append(ss, s)
		vs = append(vs, l.view())
		if s["panic"] == true {
			rec["h"] = h[:len(ss)]
			return rec
		}
	}
	return rec
}

func cmdPerson(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		cs := c.cases()
		var ops []interface{}
		seen := map[string]bool{}
		for _, m := range cs {
			if h, ok := m["h"].([]interface{}); ok {
				for _, o := range h {
					if k := fmt.Sprint(o); !seen[k] {
						seen[k] = true
						ops = append(ops, o)
					}
				}
			}
		}
		for i := 0; i < c.steps; i++ {
			h := []interface{}{}
			for n := 4 + r.Intn(12); n > 0; n-- {
				h = append(h, ops[r.Intn(len(ops))])
			}
			cs = append(cs, M{"k": "life", "start": pick(r, []string{"bare", "made"}), "h": h, "un": "", "pw": "", "mail": "", "name": "", "roles": []string{}})
		}
		recs := make([]M, len(cs))
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(c.seed*100 + int64(w)))
				for i := w; i < len(cs); i += 8 {
					recs[i] = c.life(r, cs[i])
				}
			}(w)
		}
		wg.Wait()
		for _, m := range recs {
			tr.Emit(m)
		}
	})
}
