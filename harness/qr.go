package main

import (
	"encoding/base32"
	"math/rand"
	"net/url"
	"strconv"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
)

type qrReq struct {
	ty, la, is, se, al string
	di, pe, co         int
}

func (q *qrReq) fill(c *qr.Code) {
	c.Type, c.Label, c.Issuer, c.Secret, c.Algorithm, c.Digits, c.Period, c.Counter = q.ty, q.la, q.is, q.se, q.al, q.di, q.pe, q.co
}

var qrSecrets = map[string]string{"": "", "n5": "12345", "n6": "foobar", "n7": "foobar7", "u6": "клю", "n8": "12345678", "n9": "123456789", "n10": "1234567890", "n64": strings.Repeat("secret+/", 8)}

func cmdQr(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		var last *qr.Code
		for _, m := range c.cases() {
			x := M(m["r"].(map[string]interface{}))
			q := &qrReq{ty: "totp", la: "app token", is: "Self", se: "foobar-secret"}
			if m.str("k") == "combo" {
				q = &qrReq{ty: x.str("ty"), la: map[string]string{"": "", "l": "label", "sp": "my app: one", "long": strings.Repeat("label ", 50)}[x.str("la")],
					se: qrSecrets[x.str("se")], al: x.str("al"), di: x.num("di"), pe: x.num("pe"), co: x.num("co"), is: map[string]string{"": "", "i": "Self & Co"}[x.str("is")]}
			} else {
				ch := textOf([]interface{}{x["c"]})
				s := ch
				if x.num("n") == 2 {
					s = "a" + ch + "b" + ch + ch
				}
				switch x.str("at") {
				case "la":
					q.la = s
				case "is":
					q.is = s
				case "se":
					q.se = "sec" + s + "ret"
					if x.num("n") == 1 {
						q.se = strings.Repeat(s, 6)
					}
				}
			}
			last = qrCase(tr, r, q, last)
		}
		for i := 0; i < c.steps; i++ {
			q := &qrReq{ty: pick(r, []string{"totp", "hotp"}), la: rtext(r, r.Intn(20)), is: rtext(r, r.Intn(20)), se: rbytes(r, r.Intn(40)),
				al: pick(r, []string{"", "sha1", "SHA1", "sha256", "sha512", "Sha512"}), di: []int{0, 4, 5, 6, 7, 8}[r.Intn(6)], pe: []int{0, 30 + r.Intn(151)}[r.Intn(2)], co: r.Intn(50)}
			last = qrCase(tr, r, q, last)
		}
	})
}

const textAlphabet = "abcXYZ019 \t\n+&=?#%/\\:;,.@!$'\"()[]{}<>|^~`*_-\x00\x7f\x80\xffäßЖ中€\U0001f600\u2028 "

func rtext(r *rand.Rand, n int) string {
	rs := []rune(textAlphabet)
	s := ""
	for i := 0; i < n; i++ {
		if r.Intn(12) == 0 {
			s += string([]byte{byte(r.Intn(256))})
		} else {
			s += string(rs[r.Intn(len(rs))])
		}
	}
	return s
}

// qrCase builds a code, in one half of the cases with an instance used before.
func qrCase(tr *Trace, r *rand.Rand, q *qrReq, used *qr.Code) *qr.Code {
	k := qr.NewCode()
	if used != nil && r.Intn(2) == 0 {
		k = used
	}
	q.fill(k)
	rec := M{"q": M{"ty": codePoints(q.ty), "la": codePoints(q.la), "is": codePoints(q.is), "se": codePoints(q.se), "al": codePoints(q.al), "di": q.di, "pe": q.pe, "co": q.co}}
	outcome(rec, k.Build)
	rec["uri"], rec["enc"] = codePoints(k.Get()), codePoints(k.GetEncoded())
	rec["again"], rec["app"] = codePoints(k.Get()), true
	if rec["ok"].(bool) {
		rec["app"] = appAgrees(r, q, k.Get())
		u := k.Get()
		if k.Build() == nil && k.Get() != u {
			rec["again"] = codePoints(k.Get())
		}
	}
	tr.Emit(rec)
	return k
}

// appAgrees is an authenticator app that got the URI, and a token with the
// requested parameters.
func appAgrees(r *rand.Rand, q *qrReq, uri string) bool {
	u, err := url.Parse(uri)
	if err != nil || u.Scheme != "otpauth" {
		return false
	}
	v := u.Query()
	sec, err := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(strings.TrimRight(v.Get("secret"), "="))
	if err != nil {
		return false
	}
	num := func(s string, d int) int {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
		return d
	}
	di, pe := num(v.Get("digits"), 6), num(v.Get("period"), 30)
	if pe < 1 {
		return false
	}
	p := &identity.MfaToken{Type: "totp", Secret: q.se, Algorithm: strings.ToLower(q.al), Digits: q.di, Period: q.pe}
	if p.Algorithm == "" {
		p.Algorithm = "sha1"
	}
	if p.Digits == 0 {
		p.Digits = 6
	}
	if p.Period == 0 {
		p.Period = 30
	}
	for i := 0; i < 3; i++ {
		t := int64(r.Intn(2000000000))
		if p.ValidateCodeWithTime(rfc4226(sec, v.Get("algorithm"), di, uint64(t/int64(pe))), time.Unix(t, 0)) != nil {
			return false
		}
	}
	return true
}
