package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net/url"
	"strconv"
	"strings"

	"github.com/greenpau/go-identity/pkg/requests"
)

type member struct{ k, v string } // a member of an object: name and JSON

func object(ms []member) []byte {
	var b bytes.Buffer
	b.WriteString("{")
	for i, m := range ms {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, "%q:%s", m.k, m.v)
	}
	b.WriteString("}")
	return b.Bytes()
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// login is a login by an assertion in the making.
type login struct {
	user, issued string
	doc          map[string]interface{}
	client       []member
	challenge    string
	rp           string
	flags        byte
	counter      uint32
	ext          []byte
	signer       *Authenticator
	form         string
	auth, cdata  string // deviations of the parts as a whole
	sig          string
}

func (l *login) member(k string, v interface{}) {
	for i := range l.client {
		if l.client[i].k == k {
			l.client[i].v = js(v)
			return
		}
	}
}

func (l *login) without(k string) {
	out := []member{}
	for _, m := range l.client {
		if m.k != k {
			out = append(out, m)
		}
	}
	l.client = out
}

// deviates gives a member of the client data its deviation.
func (l *login) deviates(k, v string, special map[string]interface{}) {
	if x, ok := special[v]; ok {
		l.member(k, x)
		return
	}
	m := map[string]interface{}{}
	if !plainly(m, k, v) {
		die("unknown deviation %s=%s", k, v)
	}
	if x, ok := m[k]; ok {
		l.member(k, x)
	} else {
		l.without(k)
	}
}

// people are the users and tokens of the table.
type people struct {
	first, second, off, guest *Authenticator
	stored                    map[string]*Authenticator // those of the tokens with a deviation
}

// odd stores a token with a deviation.
func (p *people) odd(f *Fixture, r *rand.Rand, v string) M {
	au := NewAuthenticator(r, "Odd-"+rstr(r, 20), "example.com")
	p.stored[v] = au
	t := f.u2f(r, au, "odd "+v, "odd-"+rstr(r, 9), false, false)
	ps := t["parameters"].(M)
	x, y := ps["curve_xcoord"], ps["curve_ycoord"]
	set := func(k string, v interface{}) { ps[k] = v }
	switch v {
	case "as it is":
	case "no u2f_id", "no key_type", "no key_algo", "no curve_xcoord", "no curve_ycoord", "no rp_id_hash", "no curve_type":
		delete(ps, v[3:])
	case "no transports":
		delete(ps, "u2f_transports")
	case "no parameters":
		delete(t, "parameters")
	case "no flags":
		delete(t, "flags")
	case "no secret":
		delete(t, "secret")
	case "no comment":
		delete(t, "comment")
	case "with a device":
		t["device"] = M{"name": "key", "vendor": "somebody", "type": "usb"}
	case "more parameters":
		set("origin", "https://example.com")
	case "x empty":
		set("curve_xcoord", "")
	case "y empty":
		set("curve_ycoord", "")
	case "x not base64":
		set("curve_xcoord", "*"+x.(string))
	case "y not base64":
		set("curve_ycoord", y.(string)+"*")
	case "x short":
		set("curve_xcoord", b64of(make([]byte, 31)))
	case "y short":
		set("curve_ycoord", "AAAA")
	case "x long":
		b, _ := base64.StdEncoding.DecodeString(x.(string))
		set("curve_xcoord", b64of(append([]byte{0}, b...)))
	case "y long":
		b, _ := base64.StdEncoding.DecodeString(y.(string))
		set("curve_ycoord", b64of(append(b, 0)))
	case "x and y swapped":
		set("curve_xcoord", y)
		set("curve_ycoord", x)
	case "x of another":
		ox, _ := p.second.XY()
		set("curve_xcoord", ox)
	case "off the curve":
		b, _ := base64.StdEncoding.DecodeString(y.(string))
		b[31] ^= 1
		set("curve_ycoord", b64of(b))
	case "zeros":
		set("curve_xcoord", b64of(make([]byte, 32)))
		set("curve_ycoord", b64of(make([]byte, 32)))
	case "key_type rsa":
		set("key_type", "rsa")
	case "key_type upper":
		set("key_type", "EC2")
	case "key_algo rs256":
		set("key_algo", "rs256")
	case "key_algo upper":
		set("key_algo", "ES256")
	case "key_algo empty":
		set("key_algo", "")
	case "type totp":
		t["type"] = "totp"
	case "type upper":
		t["type"] = "U2F"
	case "type empty":
		t["type"] = ""
	default:
		die("unknown stored token %s", v)
	}
	return t
}

func (p *people) start(r *rand.Rand, au *Authenticator) *login {
	l := &login{user: "root", challenge: "Challenge-" + rstr(r, 14), rp: au.RP, flags: 1, counter: 7, signer: au, doc: map[string]interface{}{"id": au.Cred, "type": "public-key"}}
	l.issued = l.challenge
	l.client = []member{{"type", js("webauthn.get")}, {"challenge", js(l.challenge)}, {"origin", js("https://" + au.RP)}, {"crossOrigin", "false"}}
	return l
}

func (l *login) deviate(r *rand.Rand, p *people, d deviation) {
	switch d.p {
	case "whole":
		l.form = d.v
	case "id":
		from := map[string]*Authenticator{"of a disabled token": p.off, "of another user": p.guest, "of the second token": p.second}
		if a, ok := from[d.v]; ok {
			l.doc["id"], l.signer, l.rp = a.Cred, a, a.RP
			return
		}
		special := map[string]interface{}{"unknown": "nobody-has-this", "upper case": strings.ToUpper(l.signer.Cred), "with space": l.signer.Cred + " ",
			"prefix": l.signer.Cred[:len(l.signer.Cred)-1], "longer": l.signer.Cred + "x", "in a list": []string{l.signer.Cred}}
		if v, ok := special[d.v]; ok {
			l.doc["id"] = v
		} else {
			plainly(l.doc, "id", d.v)
		}
	case "type":
		if d.v == "other" {
			l.doc["type"] = "private-key"
		} else {
			plainly(l.doc, "type", d.v)
		}
	case "auth":
		l.auth = d.v
	case "client":
		l.cdata = d.v
	case "ctype":
		l.deviates("type", d.v, map[string]interface{}{"create": "webauthn.create", "upper case": "WEBAUTHN.GET", "with space": "webauthn.get ", "prefix": "webauthn.ge", "longer": "webauthn.get2", "in a list": []string{"webauthn.get"}})
	case "cross":
		l.deviates("crossOrigin", d.v, map[string]interface{}{"string": "true"})
	case "challenge":
		l.deviates("challenge", d.v, map[string]interface{}{"other": "Challenge-" + rstr(r, 14), "in a list": []string{l.challenge}, "prefix": l.challenge[:len(l.challenge)-1], "longer": l.challenge + "x",
			"upper case": strings.ToUpper(l.challenge), "with space": " " + l.challenge, "base64": b64of([]byte(l.challenge)),
			"padded": l.challenge + "=", "newline": l.challenge + "\n", "zero": l.challenge + "\x00", "escaped": url.QueryEscape(l.challenge + "+"), "swapped": l.challenge[1:] + l.challenge[:1],
			"tail": l.challenge[1:], "doubled": l.challenge + l.challenge, "with BOM": "\ufeff" + l.challenge, "quoted": "\"" + l.challenge + "\""})
	case "origin":
		l.deviates("origin", d.v, map[string]interface{}{"other": "https://evil.example"})
	case "rp":
		l.rp = map[string]string{"other": "evil.example", "flipped": "=flipped", "zeros": "=zeros", "of another token": p.second.RP}[d.v]
	case "flags":
		l.flags = map[string]byte{"all": 255, "UP and UV": 5, "UP and RFU": 35, "UP and ED": 129, "UP and AT": 65, "none": 0, "all but UP": 254, "UV only": 4, "AT only": 64}[d.v]
	case "counter":
		n, err := strconv.ParseUint(d.v, 10, 32)
		must(err)
		l.counter = uint32(n)
	case "ext":
		l.ext = map[string][]byte{"one byte": {0}, "many bytes": []byte(rbytes(r, 700)), "cbor": {0xa1, 0x61, 0x61, 0xf5}}[d.v]
	case "signature":
		l.sig = d.v
	case "misleading":
		switch d.v {
		case "auth_data same":
			l.doc["auth_data"] = M{"rpIdHash": l.signer.RPHash(), "flags": M{"UP": true}, "signatureCounter": 7}
		case "client_data same":
			l.doc["client_data"] = M{"type": "webauthn.get", "challenge": l.challenge}
		case "signature":
			l.doc["signature"] = "AAAA"
		case "auth_data empty":
			l.doc["auth_data"] = M{}
		case "client_data null":
			l.doc["client_data"] = nil
		}
	case "misleading auth":
		l.flags = 0
		l.doc["auth_data"] = M{"rpIdHash": l.signer.RPHash(), "flags": M{"UP": true}, "signatureCounter": 7}
	case "misleading client":
		l.doc["client_data"] = M{"type": "webauthn.get", "challenge": l.challenge, "crossOrigin": false}
		switch d.v {
		case "type":
			l.member("type", "webauthn.create")
		case "challenge":
			l.member("challenge", "Challenge-"+rstr(r, 14))
		case "cross":
			l.member("crossOrigin", true)
		}
	case "issued":
		l.issued = map[string]string{"another challenge": "Challenge-" + rstr(r, 14), "empty": "", "padded": l.challenge + "=", "shorter": l.challenge[:12], "upper case": strings.ToUpper(l.challenge)}[d.v]
	case "odd challenge": // as issued, so be it
		l.issued = map[string]string{"base64": b64of([]byte(rbytes(r, 32))), "base64url": strings.NewReplacer("+", "-", "/", "_").Replace(b64of([]byte(rbytes(r, 32)))), "with spaces": " a b ", "padded": rstr(r, 9) + "==",
			"wide": "вызов-☃-" + rstr(r, 9), "quotes": "\"<&>\\" + rstr(r, 9), "long": rstr(r, 3000), "short": "x", "percent": "%41%20+" + rstr(r, 4), "newline": rstr(r, 9) + "\n"}[d.v]
		l.member("challenge", l.issued)
	case "stored":
		l.signer = p.stored[d.v]
		l.doc["id"], l.user = l.signer.Cred, "odd"
	case "user":
		l.user = map[string]string{"unknown": "nobody-at-all", "another": "guest", "without tokens": "plain", "empty": "", "by email": "root@example.com", "in upper case": "ROOT"}[d.v]
	default:
		die("unknown deviation %s=%s", d.p, d.v)
	}
}

// parts makes the authenticator data, client data and signature.
func (l *login) parts(r *rand.Rand, p *people) (ad, cd, sig []byte) {
	ad = authData(l.rp, l.flags, l.counter, l.ext)
	switch l.rp {
	case "=flipped":
		ad = authData(l.signer.RP, l.flags, l.counter, l.ext)
		ad[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	case "=zeros":
		copy(ad, make([]byte, 32))
	}
	if n, err := strconv.Atoi(l.auth); err == nil {
		ad = ad[:n]
	}
	ms := append([]member{}, l.client...)
	if l.cdata == "unknown members" {
		ms = append(ms, member{"hashAlgorithm", js("SHA-256")}, member{"other_keys_can_be_added_here", js(M{"a": []int{1}})})
	}
	if l.cdata == "reordered" {
		r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	}
	cd = object(ms)
	switch l.cdata {
	case "white space":
		var b bytes.Buffer
		must(json.Indent(&b, cd, " ", "\t"))
		cd = append([]byte("\r\n "), append(b.Bytes(), '\n')...)
	case "escaped":
		cd = bytes.Replace(cd, []byte("webauthn.get"), []byte(`\u0077ebauthn\u002eget`), 1)
	case "not json":
		cd = []byte("webauthn.get")
	case "json array":
		cd = []byte("[" + string(cd) + "]")
	case "json null":
		cd = []byte("null")
	case "json string":
		cd = []byte(js(string(cd)))
	case "empty object":
		cd = []byte("{}")
	case "truncated":
		cd = cd[:len(cd)-1]
	case "twice":
		cd = append(append([]byte{}, cd...), cd...)
	}
	h := sha256.Sum256(cd)
	both := func(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }
	data, signer := both(ad, h[:]), l.signer
	switch l.sig {
	case "by another key":
		signer = NewAuthenticator(r, "x", "x")
	case "by the key of another token":
		signer = p.second
		if l.signer == p.second {
			signer = p.first
		}
	case "over authenticator data only":
		data = ad
	case "over client data only":
		data = h[:]
	case "over client data hash first":
		data = both(h[:], ad)
	case "over unhashed client data":
		data = both(ad, cd)
	case "over other authenticator data":
		data = both(authData(l.signer.RP, 1, l.counter+1, l.ext), h[:])
	case "over other client data":
		h2 := sha256.Sum256(append([]byte(" "), cd...))
		data = both(ad, h2[:])
	case "of nothing":
		data = nil
	}
	sig = signer.Sign(r, data)
	var rs struct{ R, S *big.Int }
	_, err := asn1.Unmarshal(sig, &rs)
	must(err)
	switch l.sig {
	case "garbage":
		sig = []byte(rbytes(r, 70))
	case "zeros":
		sig, _ = asn1.Marshal(struct{ R, S *big.Int }{big.NewInt(0), big.NewInt(0)})
	case "truncated":
		sig = sig[:len(sig)-1]
	case "trailing byte":
		sig = append(sig, 0)
	case "raw form":
		sig = both(pad32(rs.R), pad32(rs.S))
	case "swapped":
		sig, _ = asn1.Marshal(struct{ R, S *big.Int }{rs.S, rs.R})
	}
	return
}

// document makes the document of the three parts.
func (l *login) document(ad, cd, sig []byte) string {
	doc := map[string]interface{}{}
	for k, v := range l.doc {
		doc[k] = v
	}
	put := func(k, v string, b []byte) {
		doc[k] = b64of(b)
		switch v {
		case "blank":
			doc[k] = "  "
		case "not base64":
			doc[k] = "*" + b64of(b)
		case "no bytes":
			doc[k] = "\n"
		case "in a list":
			doc[k] = []string{b64of(b)}
		case "hex":
			doc[k] = fmt.Sprintf("%x", b)
		case "missing", "null", "empty", "number", "array", "object":
			plainly(doc, k, v)
		}
	}
	put("auth_data_encoded", l.auth, ad)
	put("client_data_encoded", l.cdata, cd)
	put("signature_encoded", l.sig, sig)
	return whole(doc, l.form)
}

func cmdAssertion(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		f := NewFixture()
		p := &people{first: NewAuthenticator(r, "Cred-1-"+rstr(r, 20), "example.com"), second: NewAuthenticator(r, "Cred-2-"+rstr(r, 20), "auth.example.org"),
			off: NewAuthenticator(r, "Cred-3-"+rstr(r, 20), "example.com"), guest: NewAuthenticator(r, "Cred-4-"+rstr(r, 20), "example.com")}
		root := f.user(r, "root", []string{"root@example.com"}, "", "", nil)
		root["passwords"] = []M{f.password("root-password", false, false)}
		root["mfa_tokens"] = []M{f.u2f(r, p.off, "off", "c-off", true, false), f.totp(r, "t1", "secret-"+rstr(r, 8), false, false), f.u2f(r, p.first, "first", "c-1", false, false), f.u2f(r, p.second, "second", "c-2", false, false)}
		guest := f.user(r, "guest", []string{"guest@example.com"}, "", "", nil)
		guest["passwords"] = []M{f.password("guest-password", false, false)}
		guest["mfa_tokens"] = []M{f.u2f(r, p.guest, "g", "c-g", false, false)}
		plain := f.user(r, "plain", []string{"plain@example.com"}, "", "", nil)
		plain["passwords"] = []M{f.password("plain-password", false, false)}
		odd := f.user(r, "odd", []string{"odd@example.com"}, "", "", nil)
		odd["passwords"] = []M{f.password("odd-password", false, false)}
		p.stored = map[string]*Authenticator{}
		odds := []M{}
		for _, m := range c.cases() {
			for _, d := range deviations(m) {
				if d.p == "stored" && p.stored[d.v] == nil {
					odds = append(odds, p.odd(f, r, d.v))
				}
			}
		}
		odd["mfa_tokens"] = odds
		f.Doc["users"] = []M{root, guest, plain, odd}
		s := newSmall(c, "as", f)
		n := 0
		try := func(rec M, l *login, doc string) {
			q := requests.NewRequest()
			q.User.Username = l.user
			q.WebAuthn.Request, q.WebAuthn.Challenge = doc, l.issued
			outcome(rec, func() error { return s.db.AuthenticateUser(q) })
			rec["code"] = q.Response.Code
			// what each of the tokens makes of it, whosever it is
			rec["tokens"], rec["died"] = 0, ""
			for _, u := range s.db.Users {
				for _, t := range u.MfaTokens {
					err, pn, hang := call(func() error { _, err := t.WebAuthnRequest(doc); return err })
					if pn != "" || hang {
						rec["died"] = "direct " + pn
					} else if err == nil {
						rec["tokens"] = rec["tokens"].(int) + 1
					}
				}
			}
			rec["same"] = true
			if n++; n%16 == 0 || n < 400 { // what changed is found at the next look
				rec["same"] = s.same()
				s.mark()
			}
			tr.Emit(rec)
		}
		one := func(rec M, l *login) { try(rec, l, l.document(l.parts(r, p))) }
		for _, m := range c.cases() {
			l := p.start(r, p.first)
			ds := deviations(m)
			for _, d := range ds {
				if d.p == "id" { // the rest is relative to the token
					l.deviate(r, p, d)
				}
			}
			for _, d := range ds {
				if d.p != "id" {
					l.deviate(r, p, d)
				}
			}
			rec := M{"k": "doc", "d": m["d"], "n": 0}
			if rec["d"] == nil {
				rec["d"] = []int{}
			}
			one(rec, l)
		}
		// every byte of the signed data and of the signature
		for part := 0; part < 3; part++ {
			l := p.start(r, p.first)
			l.ext = []byte{1, 2, 3}
			ad, cd, sig := l.parts(r, p)
			b := [][]byte{ad, cd, sig}[part]
			for i := range b {
				for _, bit := range []uint{0, uint(1 + r.Intn(6)), 7} {
					b[i] ^= 1 << bit
					try(M{"k": "flip", "d": []int{}, "n": part*100000 + i*10 + int(bit)}, l, l.document(ad, cd, sig))
					b[i] ^= 1 << bit
				}
			}
			try(M{"k": "count", "d": []int{}, "n": -1}, l, l.document(ad, cd, sig))
		}
		for i := 0; i < 256; i++ {
			l := p.start(r, []*Authenticator{p.first, p.second}[i/2%2])
			l.flags = byte(i)
			one(M{"k": "bits", "d": []int{}, "n": i}, l)
		}
		for i := 0; i < c.steps; i++ {
			l := p.start(r, []*Authenticator{p.first, p.second}[r.Intn(2)])
			l.counter = uint32(r.Uint64() >> uint(32+r.Intn(32)))
			one(M{"k": "count", "d": []int{}, "n": i}, l)
			l = p.start(r, []*Authenticator{p.first, p.second}[r.Intn(2)])
			l.ext = []byte(rbytes(r, r.Intn(200)))
			l.flags |= byte(r.Intn(256))
			one(M{"k": "extra", "d": []int{}, "n": len(l.ext)}, l)
		}
	})
}
