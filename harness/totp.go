package main

import (
	"math/rand"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func genCodes(secret, alg string, digits, period int, c int64) []M {
	g := []M{}
	if period < 1 || digits < 1 || digits > 10 {
		return g
	}
	for k := c - 6; k <= c+6; k++ {
		if k < 0 {
			continue
		}
		if s := rfc4226([]byte(secret), alg, digits, uint64(k)); s != "" {
			g = append(g, M{"c": k, "code": codePoints(s)})
		}
	}
	return g
}

// writeCode gives a code in some way.
func writeCode(r *rand.Rand, how, secret, alg string, digits, period int, c int64) string {
	f := func(secret, alg string, digits int, c int64) string {
		if c < 0 {
			c = 0
		}
		return rfc4226([]byte(secret), alg, digits, uint64(c))
	}
	s := f(secret, alg, digits, c)
	switch how {
	case "space before":
		return " \t" + s
	case "space after":
		return s + "  "
	case "newline":
		return "\n" + s + "\r\n"
	case "nbsp":
		return "\u00a0" + s + "\u2003"
	case "inner space":
		return s[:1] + " " + s[1:]
	case "longer":
		return s + "0"
	case "shorter":
		return s[:len(s)-1]
	case "zero before":
		return "0" + s
	case "fullwidth":
		o := ""
		for _, x := range s {
			o += string(x - '0' + 0xff10)
		}
		return o
	case "plus":
		return "+" + s[1:]
	case "minus":
		return "-" + s
	case "other secret":
		return f(secret+"x", alg, digits, c)
	case "other algorithm":
		o := map[string]string{"": "sha256", "sha1": "sha512", "sha256": "sha1", "sha512": "sha256"}[strings.ToLower(alg)]
		return f(secret, o, digits, c)
	case "other digits":
		return f(secret, alg, 4+(digits-4+1+r.Intn(4))%5, c)
	case "other period":
		return f(secret, alg, digits, c*int64(period)/int64(period+7))
	case "empty":
		return ""
	case "blank":
		return " \n"
	case "upper":
		return strings.Repeat("A", digits)
	}
	return s
}

var totpSecrets = []string{"12345678901234567890", "abcdef", "s", strings.Repeat("0123456789", 7), strings.Repeat("key", 70), "пароль-ключ", "MZXW6YTBOI======"}

func cmdTotp(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		cs := c.cases()
		for i, m := range cs {
			secret := totpSecrets[i%len(totpSecrets)]
			c.totpCase(tr, r, m, secret)
		}
		for i := 0; i < c.steps; i++ {
			algs := []string{"sha1", "sha256", "sha512"}
			m := M{"k": "val", "al": pick(r, algs), "di": float64(4 + r.Intn(5)), "pe": float64(30 + r.Intn(271)), "off": float64(r.Intn(9) - 4),
				"pos": "rand", "how": "plain", "ty": "totp"}
			c.totpCase(tr, r, m, rbytes(r, 1+r.Intn(80)))
		}
	})
}

func (c *Ctx) totpCase(tr *Trace, r *rand.Rand, m M, secret string) {
	al, di, pe := m.str("al"), m.num("di"), m.num("pe")
	rec := M{"k": m.str("k"), "ty": m.str("ty"), "pe": pe, "di": di, "how": m.str("how"), "al": al}
	p := &identity.MfaToken{Type: m.str("ty"), Algorithm: al, Period: pe, Digits: di, Secret: secret, Parameters: map[string]string{}, Flags: map[string]bool{}}
	switch m.str("k") {
	case "vector":
		p.Secret = map[string]string{"sha1": "12345678901234567890", "sha256": "12345678901234567890123456789012",
			"sha512": "1234567890123456789012345678901234567890123456789012345678901234"}[al]
		t := int64(m.num("t"))
		rec["code"], rec["t0"], rec["t1"] = codePoints(m.str("how")), t, t
		rec["gen"] = genCodes(p.Secret, al, di, pe, t/int64(pe))
		outcome(rec, func() error { return p.ValidateCodeWithTime(m.str("how"), time.Unix(t, 0)) })
		explain(rec)
	case "val":
		n := int64(1+r.Intn(2000000000)) / int64(pe)
		if r.Intn(8) == 0 {
			n = int64(r.Intn(4))
		}
		// times past the year 2038, 2106, or 6053; the table is about periods from there
		far := int64(0)
		if r.Intn(3) == 0 {
			far = []int64{1 << 31, 1 << 32, 1 << 37}[r.Intn(3)] / int64(pe)
		}
		t := n * int64(pe)
		nano := int64(0)
		switch m.str("pos") {
		case "mid":
			t += int64(pe / 2)
		case "last":
			t += int64(pe) - 1
			nano = 999999999
		case "rand":
			t += int64(r.Intn(pe))
			nano = int64(r.Intn(1000000000))
		}
		code := writeCode(r, m.str("how"), secret, al, di, pe, far+n+int64(m.num("off")))
		rec["code"], rec["t0"], rec["t1"] = codePoints(code), t, t
		gen := genCodes(secret, al, di, pe, far+n)
		for _, g := range gen {
			g["c"] = g["c"].(int64) - far
		}
		rec["gen"] = gen
		ts := time.Unix(t+far*int64(pe), nano)
		if r.Intn(2) == 0 {
			ts = ts.In(time.FixedZone("x", 19800))
		}
		outcome(rec, func() error { return p.ValidateCodeWithTime(code, ts) })
		explain(rec)
	case "now":
		waitAwayFromBoundary(pe)
		t := time.Now().Unix()
		code := writeCode(r, m.str("how"), secret, al, di, pe, t/int64(pe)+int64(m.num("off")))
		rec["gen"] = genCodes(secret, al, di, pe, t/int64(pe))
		rec["code"], rec["t0"] = codePoints(code), t
		outcome(rec, func() error { return p.ValidateCode(code) })
		explain(rec)
		rec["t1"] = time.Now().Unix()
	case "enroll":
		d := di
		if d == 0 {
			d = 6
		}
		pp := pe
		if pp < 1 {
			pp = 30
		}
		dd := d
		if dd < 1 || dd > 10 {
			dd = 6
		}
		waitAwayFromBoundary(pp)
		t := time.Now().Unix()
		oracle := al
		if rfc4226(nil, al, 6, 0) == "" {
			oracle = "sha1"
		}
		code := writeCode(r, m.str("how"), secret, oracle, dd, pp, t/int64(pp)+int64(m.num("off")))
		rec["alt"] = codePoints(al)
		rec["gen"] = genCodes(secret, oracle, dd, pp, t/int64(pp))
		rec["code"], rec["t0"] = codePoints(code), t
		q := requests.NewRequest()
		q.MfaToken.Type, q.MfaToken.Secret, q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits, q.MfaToken.Passcode = "totp", secret, al, pe, di, code
		var k *identity.MfaToken
		if outcome(rec, func() (e error) { k, e = identity.NewMfaToken(q); return }) {
			rec["tok"] = M{"al": codePoints(k.Algorithm), "pe": k.Period, "di": k.Digits, "se": k.Secret == secret && k.Type == "totp"}
		}
		explain(rec)
		rec["t1"] = time.Now().Unix()
	}
	tr.Emit(rec)
}
