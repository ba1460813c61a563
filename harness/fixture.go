package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"golang.org/x/crypto/bcrypt"
)

// Fixture is a database file made without the help of the library.
type Fixture struct {
	Doc   M
	Plain map[string]string // bcrypt hash to the text it was made from
	Keys  []string          // API keys, in clear
	Auths []*Authenticator
	Totp  []M // secrets
}

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func rstr(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alnum[r.Intn(len(alnum))]
	}
	return string(b)
}

func uuid4(r *rand.Rand) string {
	b := make([]byte, 16)
	r.Read(b)
	b[6] = b[6]&0x0f | 0x40
	b[8] = b[8]&0x3f | 0x80
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:16])
}

func cheapHash(s string) string {
	// bcrypt without the hook of the verification build
	h, err := bcrypt.GenerateFromPassword([]byte(s), bcrypt.MinCost)
	must(err)
	return string(h)
}

func (f *Fixture) hash(s string) string {
	h := cheapHash(s)
	f.Plain[h] = s
	return h
}

const oldTime = "2021-08-21T10:11:12.123456789Z"

func (f *Fixture) password(s string, disabled, expired bool) M {
	m := M{"purpose": "generic", "algorithm": "bcrypt", "hash": f.hash(s), "cost": 10, "created_at": oldTime, "expired_at": "0001-01-01T00:00:00Z", "disabled_at": "0001-01-01T00:00:00Z"}
	if disabled {
		m["disabled"], m["disabled_at"] = true, oldTime
	}
	if expired {
		m["expired"], m["expired_at"] = true, oldTime
	}
	return m
}

func (f *Fixture) apikey(r *rand.Rand, comment string, disabled, expired bool) M {
	key := rstr(r, 72+r.Intn(24))
	f.Keys = append(f.Keys, key)
	m := M{"id": rstr(r, 40), "prefix": key[:24], "usage": "api", "comment": comment, "payload": f.hash(key), "created_at": oldTime, "expired_at": "0001-01-01T00:00:00Z", "disabled_at": "0001-01-01T00:00:00Z"}
	if disabled {
		m["disabled"], m["disabled_at"] = true, oldTime
	}
	if expired {
		m["expired"], m["expired_at"] = true, oldTime
	}
	return m
}

func (f *Fixture) totp(r *rand.Rand, comment, secret string, disabled, expired bool) M {
	m := M{"id": rstr(r, 40), "type": "totp", "algorithm": "sha1", "comment": comment, "secret": secret, "period": 30, "digits": 6, "created_at": oldTime, "expired_at": "0001-01-01T00:00:00Z", "disabled_at": "0001-01-01T00:00:00Z"}
	if disabled {
		m["disabled"], m["disabled_at"] = true, oldTime
	}
	if expired {
		m["expired"], m["expired_at"] = true, oldTime
	}
	return m
}

func (f *Fixture) u2f(r *rand.Rand, au *Authenticator, comment, secret string, disabled, expired bool) M {
	x, y := au.XY()
	f.Auths = append(f.Auths, au)
	m := M{"id": rstr(r, 40), "type": "u2f", "comment": comment, "secret": secret, "created_at": oldTime, "expired_at": "0001-01-01T00:00:00Z", "disabled_at": "0001-01-01T00:00:00Z",
		"parameters": M{"u2f_id": au.Cred, "u2f_type": "public-key", "u2f_transports": "usb", "key_type": "ec2", "key_algo": "es256", "curve_type": "p256", "curve_xcoord": x, "curve_ycoord": y, "rp_id_hash": au.RPHash()},
		"flags":      M{"UP": true, "AT": true}, "signature_counter": 1}
	if disabled {
		m["disabled"], m["disabled_at"] = true, oldTime
	}
	if expired {
		m["expired"], m["expired_at"] = true, oldTime
	}
	return m
}

// pubkey stores an RSA key as the library stores one given in either form.
func (f *Fixture) pubkey(r *rand.Rand, k *TestKey, form, comment string, disabled, expired bool) M {
	m := M{"id": rstr(r, 40), "usage": "ssh", "type": "ssh-rsa", "comment": comment, "created_at": oldTime, "expired_at": "0001-01-01T00:00:00Z", "disabled_at": "0001-01-01T00:00:00Z"}
	blob, err := base64.StdEncoding.DecodeString(k.SSH)
	must(err)
	h := sha256.Sum256(blob)
	fp := base64.RawStdEncoding.EncodeToString(h[:])
	if form == "ssh" {
		fp = "SHA256:" + fp
	}
	m["fingerprint"] = fp
	m["fingerprint_md5"] = strings.TrimPrefix(k.MD5, "MD5:")
	blk, _ := pem.Decode([]byte(k.PEM))
	m["payload"] = string(pem.EncodeToMemory(blk))
	m["openssh"] = k.SSH
	if disabled {
		m["disabled"], m["disabled_at"] = true, oldTime
	}
	if expired {
		m["expired"], m["expired_at"] = true, oldTime
	}
	return m
}

// someTime gives a time of the past, of any zone and precision.
func someTime(r *rand.Rand) string {
	return pick(r, []string{oldTime, "2020-02-29T23:59:59Z", "2023-11-05T01:30:00.5+05:30", "2019-01-01T00:00:00.000000001-11:00"})
}

func (f *Fixture) user(r *rand.Rand, un string, emails []string, first, last string, roles [][2]string) M {
	u := M{"id": uuid4(r), "enabled": r.Intn(3) > 0, "username": un, "created": someTime(r), "last_modified": someTime(r), "revision": pick2(r, []int{0, 1, 2, 7, 100, 255, 256, 65535, 2147000000})}
	// what no operation deals with
	if r.Intn(2) == 0 {
		u["title"], u["human"] = "Dr.", true
		u["avatar"] = M{"title": "me", "body": "AAAA", "path": "/avatar.png"}
		u["lockout"] = M{"enabled": true, "start_time": oldTime, "end_time": "2131-01-02T03:04:05Z"}
	}
	el := []M{}
	for _, e := range emails {
		d := e
		if i := strings.LastIndex(e, "@"); i >= 0 {
			d = e[i+1:]
		}
		el = append(el, M{"address": e, "domain": d})
	}
	if len(el) > 0 {
		u["email_address"] = el[0]
	}
	u["email_addresses"] = el
	if first != "" || last != "" {
		n := M{"first": first, "last": last}
		if r.Intn(2) == 0 {
			for k, v := range (M{"middle": "Mid", "preferred": "Pref", "nickname": true, "confirmed": true, "primary": true, "legal": true, "alias": true}) {
				n[k] = v
			}
		}
		u["name"] = n
		u["names"] = []M{n}
	}
	rl := []M{}
	for _, x := range roles {
		m := M{"name": x[1]}
		if x[0] != "" {
			m["organization"] = x[0]
		}
		rl = append(rl, m)
	}
	if len(rl) > 0 {
		u["roles"] = rl
	}
	return u
}

func NewFixture() *Fixture {
	return &Fixture{Plain: map[string]string{}, Doc: M{"version": "1.0.0", "revision": 41, "last_modified": oldTime}}
}

// RichFixture has users with several emails, passwords, keys and tokens, some
// of them disabled or expired.
func RichFixture(r *rand.Rand, keys []*TestKey, pol M) *Fixture {
	f := NewFixture()
	if pol != nil {
		f.Doc["policy"] = pol
	}
	users := []M{}
	tag := rstr(r, 4)
	pw := func() string { return "Pw-" + rstr(r, 10) }

	u := f.user(r, "Root", []string{"root@example.com", "Root.Second@example.org", "r@l"}, "Ro", "Ot", [][2]string{{"", "superuser"}, {"corp", "net/admin"}})
	u["passwords"] = []M{f.password(pw(), false, false), f.password(pw(), true, true), f.password(pw(), true, false), f.password(pw(), false, true)}
	u["api_keys"] = []M{f.apikey(r, "k1", false, false), f.apikey(r, "k2", true, false), f.apikey(r, "k3", false, true), f.apikey(r, "k4", false, false)}
	u["public_keys"] = []M{f.pubkey(r, keys[0], "pem", "p1", false, false), f.pubkey(r, keys[1], "ssh", "p2", true, false), f.pubkey(r, keys[2], "pem", "p3", false, true)}
	if r.Intn(2) == 0 { // one id, as with PGP keys of one pair
		pks := u["public_keys"].([]M)
		pks[2]["id"] = pks[r.Intn(2)]["id"]
	}
	au := NewAuthenticator(r, "cred-"+tag+"-1", "example.com")
	au2 := NewAuthenticator(r, "cred-"+tag+"-2", "example.com")
	u["mfa_tokens"] = []M{f.totp(r, "t1", "secret-"+rstr(r, 8), false, false), f.totp(r, "t2", "secret-"+rstr(r, 8), true, false), f.u2f(r, au, "u1", "chal-"+rstr(r, 6), false, false), f.u2f(r, au2, "u2", "chal-"+rstr(r, 6), true, false)}
	users = append(users, u)

	u = f.user(r, "guest", []string{"guest@example.com"}, "", "", nil)
	u["passwords"] = []M{f.password(pw(), true, true), f.password(pw(), false, false), f.password(pw(), false, false)}
	u["mfa_tokens"] = []M{f.totp(r, "off", "secret-"+rstr(r, 8), true, true)}
	users = append(users, u)

	u = f.user(r, "Zoë", []string{"zoe@example.com", "ZOE@other.example"}, "Zoë", "von Ö", [][2]string{{"", "viewer"}})
	u["passwords"] = []M{f.password(pw(), false, false)}
	au3 := NewAuthenticator(r, "cred-"+tag+"-3", "auth.example.com")
	u["mfa_tokens"] = []M{f.u2f(r, au3, "u3", "chal-"+rstr(r, 6), false, false)}
	u["api_keys"] = []M{f.apikey(r, "z1", true, true)}
	if r.Intn(2) == 0 {
		u["mfa_tokens"] = []M{f.u2f(r, au3, "u3", "chal-"+rstr(r, 6), false, true), f.totp(r, "t3", "secret-"+rstr(r, 8), r.Intn(2) == 0, true)}
	}
	users = append(users, u)

	// nobody can log in as this one
	u = f.user(r, "locked", []string{"locked@example.com"}, "", "Locked", nil)
	u["passwords"] = []M{f.password(pw(), true, false), f.password(pw(), false, true)}
	users = append(users, u)

	// no email address
	u = f.user(r, "svc", nil, "", "", [][2]string{{"", "svc"}})
	u["passwords"] = []M{f.password(pw(), false, false)}
	u["api_keys"] = []M{f.apikey(r, "s1", false, false)}
	users = append(users, u)

	if r.Intn(4) == 0 { // more than what is written or read at once
		u["api_keys"].([]M)[0]["comment"] = strings.Repeat("0123456789abcdef", 1500+r.Intn(4000))
	}
	for _, u := range users {
		vary(r, u)
		for _, k := range []string{"api_keys", "public_keys"} {
			if l, _ := u[k].([]M); len(l) > 0 && r.Intn(4) == 0 {
				e := l[r.Intn(len(l))]
				if c, _ := e["comment"].(string); len(c) < 100 {
					e["comment"] = pick(r, oddTexts)
				}
			}
			// of another usage
			if l, _ := u[k].([]M); len(l) > 0 && r.Intn(2) == 0 {
				l[r.Intn(len(l))]["usage"] = pick(r, []string{"", "", "API", "ssh", "gpg", "Ssh", "api ", "x"})
			}
		}
		if l, _ := u["mfa_tokens"].([]M); len(l) > 0 && r.Intn(3) == 0 {
			l[r.Intn(len(l))]["comment"] = ""
		}
		// identifiers that differ in a part of them only
		switch id := u["id"].(string); tag[0] % 3 {
		case 0:
			u["id"] = users[0]["id"].(string)[:8] + id[8:]
		case 1:
			u["id"] = id[:8] + users[0]["id"].(string)[8:]
		}
	}
	f.Doc["users"] = users
	return f
}

// ManyFixture has more users than most, and some with more of everything.
func ManyFixture(r *rand.Rand, keys []*TestKey, pol M) *Fixture {
	f := NewFixture()
	if pol != nil {
		f.Doc["policy"] = pol
	}
	users := []M{}
	one := f.password("Pw-"+rstr(r, 10), false, false)
	n := pick2(r, []int{33, 40, 65, 101, 130})
	for i := 0; i < n; i++ {
		un := fmt.Sprint("user", i)
		mails := []string{un + "@example.com"}
		if i%3 == 0 {
			for k := 0; k < 1+i%20; k++ {
				mails = append(mails, fmt.Sprintf("%s-%d@example.org", un, k))
			}
		}
		u := f.user(r, un, mails, "", "", nil)
		u["passwords"] = []M{one}
		if i%11 == 1 {
			u["passwords"] = []M{f.password("Pw-"+rstr(r, 10), false, false)}
		}
		if i == 0 || i == n-1 {
			roles, aks, pks, mfs := []M{}, []M{}, []M{}, []M{}
			for k := 0; k < 20+r.Intn(20); k++ {
				roles = append(roles, M{"name": fmt.Sprint("role", k)})
				aks = append(aks, f.apikey(r, fmt.Sprint("key ", k), k%7 == 2, k%9 == 3))
				pks = append(pks, f.pubkey(r, keys[r.Intn(3)], pick(r, []string{"pem", "ssh"}), fmt.Sprint("key ", k), k%7 == 2, k%9 == 3))
				mfs = append(mfs, f.totp(r, fmt.Sprint("token ", k), "secret-"+rstr(r, 8), k%3 != 2, k%9 == 3))
			}
			mfs = append(mfs, f.u2f(r, NewAuthenticator(r, "cred-"+rstr(r, 8), "example.com"), "last", "chal-"+rstr(r, 8), false, false))
			pws := []M{}
			for k := 0; k < 25; k++ {
				pws = append(pws, f.password("Pw-"+rstr(r, 10), k < 24, false))
			}
			u["roles"], u["api_keys"], u["public_keys"], u["mfa_tokens"], u["passwords"] = roles, aks, pks, mfs, pws
		}
		users = append(users, u)
	}
	f.Doc["users"] = users
	return f
}

// vary sets what goes along with the marks of entries, which the marks do not
// depend on: when they were made, and the purpose and cost of a password.
func vary(r *rand.Rand, u M) {
	times := []string{"0001-01-01T00:00:00Z", oldTime, "2131-01-02T03:04:05Z", someTime(r)}
	for _, list := range []string{"passwords", "api_keys", "public_keys", "mfa_tokens"} {
		entries, _ := u[list].([]M)
		for _, e := range entries {
			if r.Intn(2) == 0 {
				continue
			}
			for _, k := range []string{"created_at", "expired_at", "disabled_at"} {
				switch r.Intn(4) {
				case 0:
					e[k] = pick(r, times)
				case 1:
					if r.Intn(3) == 0 {
						delete(e, k)
					}
				case 2:
					if r.Intn(3) == 0 {
						e[k] = times[0]
					}
				}
			}
			if list == "passwords" {
				e["purpose"] = pick(r, []string{"generic", "recovery", "", "Generic"})
				e["cost"] = pick2(r, []int{10, 0, 4, 31})
			}
		}
	}
}

func (f *Fixture) Write(path string, mode os.FileMode) {
	b, err := json.MarshalIndent(f.Doc, "", "  ")
	must(err)
	must(os.WriteFile(path, b, mode))
	must(os.Chmod(path, mode))
}

func hexOf(s string) string { return hex.EncodeToString([]byte(s)) }
