package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"crypto/elliptic"
	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// ------------------------------------------------------------------ documents

func deep(v interface{}) map[string]interface{} {
	b, err := json.Marshal(v)
	must(err)
	m := map[string]interface{}{}
	must(json.Unmarshal(b, &m))
	return m
}

// at gets the object a path leads to; nil when a deviation is in the way.
func at(m map[string]interface{}, path ...string) map[string]interface{} {
	for _, k := range path {
		n, ok := m[k].(map[string]interface{})
		if !ok {
			return nil
		}
		m = n
	}
	return m
}

// plainly gives the values that mean the same wherever they are.
func plainly(m map[string]interface{}, k, v string) bool {
	switch v {
	case "missing":
		delete(m, k)
	case "null":
		m[k] = nil
	case "empty":
		m[k] = ""
	case "string":
		m[k] = "x"
	case "number":
		m[k] = 5
	case "array":
		m[k] = []int{}
	case "object":
		m[k] = M{}
	case "true":
		m[k] = true
	case "false":
		m[k] = false
	case "fraction":
		m[k] = 1.5
	case "zero":
		m[k] = 0
	default:
		return false
	}
	return true
}

// whole turns a document to what is sent.
func whole(doc interface{}, v string) string {
	b, err := json.Marshal(doc)
	must(err)
	b64 := base64.StdEncoding.EncodeToString
	switch v {
	case "":
		return b64(b)
	case "not base64":
		return "###" + b64(b)
	case "not json":
		return b64([]byte("hello"))
	case "array":
		return b64([]byte("[" + string(b) + "]"))
	case "null json":
		return b64([]byte("null"))
	case "string json":
		return b64([]byte(`"public-key"`))
	case "number json":
		return b64([]byte("12"))
	case "truncated":
		return b64(b[:len(b)-1])
	case "trailing data":
		return b64(append(append([]byte{}, b...), '}'))
	case "blank":
		return "  "
	case "empty object":
		return b64([]byte("{}"))
	case "nothing":
		return ""
	case "base64url": // the characters that differ
		return strings.TrimRight(base64.URLEncoding.EncodeToString(append([]byte("{\"?\":\"\u07ff\u07ff\u07ff~~~???>>>\","), b[1:]...)), "=")
	}
	die("unknown document: %s", v)
	return ""
}

type deviation struct{ p, v string }

func deviations(m M) []deviation {
	a, _ := m["d"].([]interface{})
	r := []deviation{}
	for _, x := range a {
		y := M(x.(map[string]interface{}))
		r = append(r, deviation{y.str("p"), y.str("v")})
	}
	return r
}

// ---------------------------------------------------------------- small world

// small is a small database, with a fixture of which everything is known.
type small struct {
	path string
	f    *Fixture
	db   *identity.Database
	in   *Interner
	dig  int
	file string
}

func newSmall(c *Ctx, name string, f *Fixture) *small {
	s := &small{path: filepath.Join(c.scratch, name, "u.json"), f: f, in: NewInterner()}
	must(os.MkdirAll(filepath.Dir(s.path), 0700))
	f.Write(s.path, 0600)
	db, err := identity.NewDatabase(s.path)
	must(err)
	must(db.Save())
	s.db = db
	s.mark()
	return s
}

func (s *small) bytes() string {
	b, _ := os.ReadFile(s.path)
	return string(b)
}

func (s *small) mark() { s.dig, s.file = s.in.Dig(s.db), s.bytes() }

// same tells whether nothing changed since the mark.
func (s *small) same() bool { return s.dig == s.in.Dig(s.db) && s.file == s.bytes() }

func as(u, m string) *requests.Request {
	q := requests.NewRequest()
	q.User.Username, q.User.Email = u, m
	return q
}

func (s *small) usable() bool {
	q := as("guest", "guest@example.com")
	ok := false
	err, pn, hang := call(func() error {
		if err := s.db.GetMfaTokens(q); err != nil {
			return err
		}
		ok = s.db.GetUserCount() == len(s.f.Doc["users"].([]M))
		return s.db.IdentifyUser(as("root", ""))
	})
	return ok && err == nil && pn == "" && !hang
}

// ---------------------------------------------------------------- registration

func coord(i *big.Int) string { return base64.StdEncoding.EncodeToString(pad32(i)) }

func pad32Ints(i *big.Int) []int {
	r := []int{}
	for _, b := range pad32(i) {
		r = append(r, int(b))
	}
	return r
}

func b64of(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func (c *Ctx) registerDoc(r *rand.Rand, au *Authenticator, ds []deviation) (string, string, *Authenticator) {
	doc := deep(au.Registration())
	signer := *au
	form := ""
	challenge := "challenge-" + rstr(r, 12)
	ad := func() map[string]interface{} { return at(doc, "attestationObject", "authData") }
	cr := func() map[string]interface{} { return at(doc, "attestationObject", "authData", "credentialData") }
	pk := func() map[string]interface{} {
		return at(doc, "attestationObject", "authData", "credentialData", "publicKey")
	}
	where := map[string]func() map[string]interface{}{
		"rpIdHash": ad, "flags": ad, "signatureCounter": ad, "extensions": ad, "credentialData": ad, "aaguid": cr, "publicKey": cr,
		"key_type": pk, "algorithm": pk, "curve_type": pk, "curve_x": pk, "curve_y": pk,
		"authData": func() map[string]interface{} { return at(doc, "attestationObject") },
		"attStmt":  func() map[string]interface{} { return at(doc, "attestationObject") },
		"fmt":      func() map[string]interface{} { return at(doc, "attestationObject") },
	}
	special := map[string]interface{}{
		"type=private-key": "private-key", "type=Public-Key": "Public-Key", "type=public-key ": "public-key ",
		"transports=none": []string{}, "transports=all": []string{"usb", "nfc", "ble", "internal"}, "transports=usb twice": []string{"usb", "usb"},
		"transports=empty one": []string{"usb", ""}, "transports=wifi": []string{"wifi"}, "transports=one wrong": []string{"usb", "nfc", "lightning"},
		"transports=hybrid": []string{"hybrid"}, "transports=smart-card": []string{"smart-card"}, "transports=cable": []string{"cable"}, "transports=usb space": []string{"usb "},
		"transports=all and one more": []string{"usb", "nfc", "ble", "internal", "hybrid"}, "transports=list in list": [][]string{{"usb"}},
		"key_type=as text": "2", "algorithm=as text": "-7", "curve_type=as text": "1", "key_type=as name": "EC2", "algorithm=as name": "ES256", "curve_type=as name": "P-256",
		"key_type=nearly": json.RawMessage("2.0000001"), "algorithm=nearly": json.RawMessage("-7.0000001"), "curve_type=nearly": json.RawMessage("1.0000001"),
		"curve_type=as 1.0": json.RawMessage("1.0"), "curve_x=list of bytes": pad32Ints(au.Key.X), "curve_y=list of bytes": pad32Ints(au.Key.Y),
		"curve_x=hex": fmt.Sprintf("%x", pad32(au.Key.X)), "curve_y=hex": fmt.Sprintf("%x", pad32(au.Key.Y)),
		"transports=numbers": []int{1}, "transports=null one": []interface{}{nil}, "transports=USB": []string{"USB"},
		"flags=value string": M{"UP": "true"}, "flags=value number": M{"UP": 1}, "flags=value null": M{"UP": nil}, "flags=no UP": M{"UP": false},
		"signatureCounter=max": 4294967295, "signatureCounter=too big": 4294967296, "signatureCounter=negative": -1,
		"extensions=deep":   M{"a": []M{{"b": M{"c": []int{1, 2}}}}},
		"key_type=one":      1,
		"key_type=three":    3,
		"key_type=fraction": 2.5, "key_type=big": json.RawMessage("2e300"), "key_type=minus": -2, "key_type=as 2.0": json.RawMessage("2.0"),
		"algorithm=rs256": -257, "algorithm=plus": 7, "algorithm=fraction": -7.5, "algorithm=as -7.0": json.RawMessage("-7.0"), "curve_type=two": 2,
		"attStmt=bad alg": M{"alg": "x"}, "attStmt=bad x5c": M{"x5c": 5}, "fmt=other": "packed", "fmt=number": 5,
		"clientData=type number": M{"type": 5}, "device=name number": M{"name": 5},
	}
	for _, d := range ds {
		if d.p == "whole" {
			form = d.v
			continue
		}
		if d.p == "challenge" {
			challenge = ""
			continue
		}
		if d.p == "unknown" {
			if d.v == "top" {
				doc["unknown"] = M{"a": 1}
			} else if m := ad(); m != nil {
				m["unknown"] = []int{1}
			}
			continue
		}
		m := doc
		if f, ok := where[d.p]; ok {
			if m = f(); m == nil {
				continue // the other deviation is in the way
			}
		}
		if v, ok := special[d.p+"="+d.v]; ok {
			m[d.p] = v
			continue
		}
		switch d.v {
		case "in a list":
			m[d.p] = []interface{}{m[d.p]}
			continue
		case "in an object":
			m[d.p] = M{d.p: m[d.p]}
			continue
		}
		if d.p == "curve_x" || d.p == "curve_y" {
			i := au.Key.X
			if d.p == "curve_y" {
				i = au.Key.Y
			}
			raw := pad32(i)
			done := true
			switch d.v {
			case "not base64":
				m[d.p] = "#" + coord(i)
			case "short":
				m[d.p] = b64of(raw[:31])
			case "long":
				m[d.p] = b64of(append(raw, 1))
			case "zeros":
				m[d.p] = b64of(make([]byte, 32))
			case "ones":
				m[d.p] = b64of([]byte(strings.Repeat("\xff", 32)))
			case "off curve":
				m[d.p] = coord(new(big.Int).Xor(i, big.NewInt(1)))
			case "padded left":
				m[d.p] = b64of(append([]byte{0}, raw...))
			case "cut left":
				m[d.p] = b64of(raw[1:])
			case "negated":
				n := elliptic.P256().Params()
				m[d.p] = coord(new(big.Int).Sub(n.P, i))
				k := *au.Key
				k.D = new(big.Int).Sub(n.N, k.D)
				signer.Key = &k
			default:
				done = false
			}
			if done {
				continue
			}
		}
		if !plainly(m, d.p, d.v) {
			die("unknown deviation %s=%s", d.p, d.v)
		}
	}
	return whole(doc, form), challenge, &signer
}

func cmdRegister(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		f := NewFixture()
		root := f.user(r, "root", []string{"root@example.com"}, "", "", nil)
		root["passwords"] = []M{f.password("root-password", false, false)}
		guest := f.user(r, "guest", []string{"guest@example.com"}, "", "", nil)
		guest["passwords"] = []M{f.password("guest-password", false, false)}
		guest["mfa_tokens"] = []M{f.totp(r, "t1", "secret-"+rstr(r, 8), false, false)}
		f.Doc["users"] = []M{root, guest}
		s := newSmall(c, "reg", f)
		for i, m := range c.cases() {
			au := NewAuthenticator(r, fmt.Sprintf("cred-%d-%s", i, rstr(r, 20)), "example.com")
			payload, challenge, signer := c.registerDoc(r, au, deviations(m))
			q := as("root", "root@example.com")
			q.MfaToken.Type, q.MfaToken.Comment = "u2f", "token "+fmt.Sprint(i)
			q.WebAuthn.Register, q.WebAuthn.Challenge = payload, challenge
			rec := M{"d": m["d"], "stored": true, "login": true}
			if rec["d"] == nil {
				rec["d"] = []int{}
			}
			ok := outcome(rec, func() error { return s.db.AddMfaToken(q) })
			explain(rec)
			rec["same"] = s.same()
			if ok {
				id := c.stored(s, rec, au, challenge, q.MfaToken.Comment, payload)
				lq := requests.NewRequest()
				lq.User.Username = "root"
				lq.WebAuthn.Challenge = "login-" + rstr(r, 10)
				b, err := json.Marshal(signer.Encode(r, signer.Good(lq.WebAuthn.Challenge)))
				must(err)
				lq.WebAuthn.Request = b64of(b)
				err, pn, _ := call(func() error { return s.db.AuthenticateUser(lq) })
				rec["login"] = err == nil && pn == "" && lq.Response.Code == 200
				dq := as("root", "root@example.com")
				dq.MfaToken.ID = id
				call(func() error { return s.db.DeleteMfaToken(dq) })
				s.mark()
			} else if !rec["same"].(bool) {
				s.mark()
			}
			rec["usable"] = s.usable()
			tr.Emit(rec)
		}
	})
}

// stored compares the new token with the document.
func (c *Ctx) stored(s *small, rec M, au *Authenticator, challenge, comment, payload string) string {
	u := s.db.Users[0]
	if len(u.MfaTokens) != 1 {
		rec["stored"] = false
		return ""
	}
	k := u.MfaTokens[0]
	b, err := base64.StdEncoding.DecodeString(payload)
	must(err)
	var doc struct {
		Transports []string
		Att        struct {
			Auth struct {
				Flags   map[string]bool
				Counter uint32 `json:"signatureCounter"`
				Cred    struct {
					Key struct {
						X string `json:"curve_x"`
						Y string `json:"curve_y"`
					} `json:"publicKey"`
				} `json:"credentialData"`
			} `json:"authData"`
		} `json:"attestationObject"`
	}
	json.Unmarshal(b, &doc)
	want := map[string]string{"u2f_id": au.Cred, "u2f_type": "public-key", "u2f_transports": strings.Join(doc.Transports, ","), "rp_id_hash": au.RPHash(), "key_type": "ec2", "key_algo": "es256",
		"curve_type": "p256", "curve_xcoord": doc.Att.Auth.Cred.Key.X, "curve_ycoord": doc.Att.Auth.Cred.Key.Y}
	good := k.Type == "u2f" && k.Comment == comment && k.Secret == challenge && !k.Disabled && !k.Expired && k.SignatureCounter == doc.Att.Auth.Counter && len(k.ID) == 40
	for n, v := range want {
		good = good && k.Parameters[n] == v
	}
	good = good && len(k.Parameters) == len(want) && len(k.Flags) == len(doc.Att.Auth.Flags)
	for n, v := range doc.Att.Auth.Flags {
		w, ok := k.Flags[n]
		good = good && ok && w == v
	}
	rec["stored"] = good
	return k.ID
}
