package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

var objectTexts = map[string]string{
	"none": "", "blank": " ", "tabs": "\t \t", "newline": "\r\n", "nbsp": "\u00a0", "wide blank": "\u3000 ",
	"plain": "correct horse", "padded": "  Pass word\t", "72": strings.Repeat("ab", 36), "bytes": "\xff\xfepass\x80", "wide": "пароль-密碼", "one": "x",
	"hash": "$2a$10$N9qo8uLOickgx2ZMRZoMyeIjZAgcfl7p92ldGxad68LJZdL17lhWy", "zero": "pass\x00word",
}

// others lists texts that are not s, and that bcrypt tells apart from it.
func otherTexts(s string) []string {
	r := []string{}
	for _, t := range []string{"", " ", s + "x", s + " ", " " + s, s[:len(s)-1], s[1:], strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace(s), "nothing alike", "y" + s[1:]} {
		if t != s && !(len(t) >= 72 && t[:72] == s) {
			r = append(r, t)
		}
	}
	return r
}

type passwordState struct {
	dis, exp     bool
	disAt, expAt time.Time
	rest         identity.Password
}

func statePassword(p *identity.Password) passwordState {
	s := passwordState{p.Disabled, p.Expired, p.DisabledAt, p.ExpiredAt, *p}
	s.rest.Disabled, s.rest.Expired, s.rest.DisabledAt, s.rest.ExpiredAt = false, false, time.Time{}, time.Time{}
	return s
}

func within(t, a, b time.Time) bool { return !t.Before(a) && !t.After(b) }

func objectPassword(m M) M {
	rec := M{}
	text := objectTexts[m.str("text")]
	var params map[string]interface{}
	if m.num("cost") != -99 {
		params = map[string]interface{}{"cost": m.num("cost")}
	}
	rec["nothing"], rec["hashcost"], rec["saidcost"], rec["saidpurpose"], rec["saidalgo"] = true, 0, 0, "", ""
	rec["match"], rec["others"], rec["off"], rec["now"], rec["disabled"] = false, []string{}, false, false, false
	outcome(rec, func() error {
		t0 := time.Now()
		p, err := identity.NewPasswordWithOptions(text, m.str("purpose"), m.str("algo"), params)
		t1 := time.Now()
		rec["nothing"] = p == nil
		if err != nil {
			return err
		}
		rec["hashcost"], _ = bcrypt.Cost([]byte(p.Hash))
		rec["saidcost"], rec["saidpurpose"], rec["saidalgo"] = p.Cost, p.Purpose, p.Algorithm
		rec["match"] = p.Match(text)
		others := []string{}
		if m.str("purpose") == "generic" {
			for _, t := range otherTexts(text) {
				if p.Match(t) {
					others = append(others, t)
				}
			}
		}
		rec["others"] = others
		a := statePassword(p)
		rec["off"] = a.dis || a.exp || !a.disAt.IsZero() || !a.expAt.IsZero()
		rec["now"] = within(p.CreatedAt, t0, t1)
		t0 = time.Now()
		p.Disable()
		t1 = time.Now()
		b := statePassword(p)
		rec["disabled"] = b.dis && b.exp && within(b.disAt, t0, t1) && within(b.expAt, t0, t1) && a.rest == b.rest
		return nil
	})
	return rec
}

func objectCard(r *rand.Rand, m M) M {
	rec := M{"got": 0, "before": 0, "rest": false, "texts": []string{}, "lower": []string{}}
	ownIssuers, ownAssociations := identity.CreditCardIssuers, identity.CreditCardAssociations
	defer func() { identity.CreditCardIssuers, identity.CreditCardAssociations = ownIssuers, ownAssociations }()
	var issuers []*identity.CreditCardIssuer
	var associations []*identity.CreditCardAssociation
	texts, lower := []string{}, []string{}
	note := func(s string) {
		texts, lower = append(texts, s), append(lower, strings.ToLower(s))
	}
	cat, _ := m["cat"].([]interface{})
	for _, x := range cat {
		e := M(x.(map[string]interface{}))
		al := []string{}
		for _, a := range e["aliases"].([]interface{}) {
			al = append(al, a.(string))
			note(a.(string))
		}
		note(e.str("name"))
		i := identity.NewCreditCardIssuer()
		i.Name, i.Aliases = e.str("name"), al
		issuers = append(issuers, i)
		a := identity.NewCreditCardAssociation()
		a.Name, a.Aliases = e.str("name"), al
		associations = append(associations, a)
	}
	rec["texts"], rec["lower"] = texts, lower
	identity.CreditCardIssuers, identity.CreditCardAssociations = issuers, associations
	cc := identity.NewCreditCard()
	cc.Number, cc.Code = "4111", "123"
	n := len(issuers)
	if n > 0 && r.Intn(2) == 0 {
		cc.Issuer, cc.Association = issuers[n-1], associations[n-1]
	}
	where := func() int {
		if m.str("of") == "issuer" {
			for i, x := range issuers {
				if cc.Issuer == x {
					return i + 1
				}
			}
			if cc.Issuer != nil {
				return -1
			}
		} else {
			for i, x := range associations {
				if cc.Association == x {
					return i + 1
				}
			}
			if cc.Association != nil {
				return -1
			}
		}
		return 0
	}
	rest := func() identity.CreditCard {
		x := *cc
		if m.str("of") == "issuer" {
			x.Issuer = nil
		} else {
			x.Association = nil
		}
		return x
	}
	before := rest()
	rec["before"] = where()
	outcome(rec, func() error {
		if m.str("of") == "issuer" {
			return cc.AddIssuer(m.str("q"))
		}
		return cc.AddAssociation(m.str("q"))
	})
	rec["got"] = where()
	rec["rest"] = rest() == before && len(identity.CreditCardIssuers) == n && len(identity.CreditCardAssociations) == n
	return rec
}

func objectDefault(m M) M {
	rec := M{"name": "", "digits": 0}
	cc := identity.NewCreditCard()
	outcome(rec, func() error { return cc.AddAssociation(m.str("q")) })
	if a := cc.Association; a != nil {
		rec["name"], rec["digits"] = a.Name, strings.Count(a.CodeFormat, "N")
	}
	return rec
}

func objectBundle(m M) M {
	sizes, got := []int{}, []int{}
	rec := M{"sizes": sizes, "got": got}
	n := m.num("size")
	outcome(rec, func() error {
		switch m.str("of") {
		case "api":
			b := identity.NewAPIKeyBundle()
			sizes = append(sizes, b.Size())
			of := map[*identity.APIKey]int{}
			for i := 1; i <= n; i++ {
				x := &identity.APIKey{}
				of[x] = i
				b.Add(x)
				sizes = append(sizes, b.Size())
			}
			for _, x := range b.Get() {
				got = append(got, of[x])
			}
		case "public":
			b := identity.NewPublicKeyBundle()
			sizes = append(sizes, b.Size())
			of := map[*identity.PublicKey]int{}
			for i := 1; i <= n; i++ {
				x := &identity.PublicKey{}
				of[x] = i
				b.Add(x)
				sizes = append(sizes, b.Size())
			}
			for _, x := range b.Get() {
				got = append(got, of[x])
			}
		case "mfa":
			b := identity.NewMfaTokenBundle()
			sizes = append(sizes, b.Size())
			of := map[*identity.MfaToken]int{}
			for i := 1; i <= n; i++ {
				x := &identity.MfaToken{}
				of[x] = i
				b.Add(x)
				sizes = append(sizes, b.Size())
			}
			for _, x := range b.Get() {
				got = append(got, of[x])
			}
		case "users":
			b := identity.NewUserMetadataBundle()
			sizes = append(sizes, b.Size())
			of := map[*identity.UserMetadata]int{}
			for i := 1; i <= n; i++ {
				x := &identity.UserMetadata{}
				of[x] = i
				b.Add(x)
				sizes = append(sizes, b.Size())
			}
			for _, x := range b.Get() {
				got = append(got, of[x])
			}
		}
		return nil
	})
	rec["sizes"], rec["got"] = sizes, got
	return rec
}

func objectNew(m M) M {
	rec := M{"zero": false, "apart": false}
	outcome(rec, func() error {
		make := func() interface{} {
			switch m.str("of") {
			case "request":
				return requests.NewRequest()
			case "name":
				return identity.NewName()
			case "handle":
				return identity.NewHandle()
			case "image":
				return identity.NewImage()
			case "location":
				return identity.NewLocation()
			case "lockout":
				return identity.NewLockoutState()
			case "organization":
				return identity.NewOrganization()
			case "card":
				return identity.NewCreditCard()
			case "issuer":
				return identity.NewCreditCardIssuer()
			case "association":
				return identity.NewCreditCardAssociation()
			}
			return qr.NewCode()
		}
		a, b := make(), make()
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		rec["zero"] = va.Elem().IsZero() && vb.Elem().IsZero()
		rec["apart"] = va.Pointer() != vb.Pointer()
		return nil
	})
	return rec
}

func objectMade(m M) M {
	rec := M{"right": false, "now": false}
	outcome(rec, func() error {
		t0 := time.Now()
		u := identity.NewUser(m.str("name"))
		t1 := time.Now()
		if m.str("of") == "user" {
			x := *u
			rec["right"] = len(x.ID) == 36 && x.Username == m.str("name")
			rec["now"] = within(x.Created, t0, t1) && within(x.LastModified, t0, t1)
			x.ID, x.Username, x.Created, x.LastModified = "", "", time.Time{}, time.Time{}
			rec["right"] = rec.yes("right") && reflect.ValueOf(x).IsZero()
			return nil
		}
		before := fmt.Sprint(*u)
		t0 = time.Now()
		g := identity.NewRegistration(u)
		t1 = time.Now()
		x := *g
		rec["now"] = within(x.Created, t0, t1)
		rec["right"] = x.User == u && fmt.Sprint(*u) == before
		x.User, x.Created = nil, time.Time{}
		rec["right"] = rec.yes("right") && reflect.ValueOf(x).IsZero()
		return nil
	})
	return rec
}

// cmdObjects makes and uses objects without a database.
func cmdObjects(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		for _, m := range c.cases() {
			var rec M
			switch m.str("k") {
			case "password":
				rec = objectPassword(m)
			case "card":
				rec = objectCard(r, m)
			case "default":
				rec = objectDefault(m)
			case "bundle":
				rec = objectBundle(m)
			case "new":
				rec = objectNew(m)
			case "made":
				rec = objectMade(m)
			}
			for k, v := range m {
				rec[k] = v
			}
			tr.Emit(rec)
		}
	})
}
