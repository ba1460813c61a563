package main

import (
	"crypto/md5"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// ------------------------------- the encodings of RSA keys, by definition

func sshString(b []byte) []byte {
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(b)))
	return append(l, b...)
}

func sshMpint(i *big.Int) []byte {
	b := i.Bytes()
	if len(b) > 0 && b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return sshString(b)
}

func sshBlob(n, e *big.Int) []byte {
	return append(append(sshString([]byte("ssh-rsa")), sshMpint(e)...), sshMpint(n)...)
}

// readBlob reads a blob; ok only when it is one of an RSA key. Its numbers may
// begin with more zeros than they need: it is the key that counts.
func readBlob(b []byte) (n, e *big.Int, ok bool) {
	next := func() []byte {
		if len(b) < 4 {
			ok = false
			return nil
		}
		l := int(binary.BigEndian.Uint32(b))
		if l < 0 || l > len(b)-4 {
			ok = false
			return nil
		}
		r := b[4 : 4+l]
		b = b[4+l:]
		return r
	}
	ok = true
	number := func() *big.Int {
		d := next()
		if len(d) > 0 && d[0]&0x80 != 0 {
			ok = false
		}
		return new(big.Int).SetBytes(d)
	}
	t := next()
	e, n = number(), number()
	if string(t) != "ssh-rsa" || len(b) != 0 || n.Sign() == 0 || e.Sign() == 0 {
		ok = false
	}
	return n, e, ok
}

func rsaDER(n, e *big.Int) []byte {
	inner, err := asn1.Marshal(struct{ N, E *big.Int }{n, e})
	must(err)
	type alg struct {
		OID  asn1.ObjectIdentifier
		Null asn1.RawValue
	}
	out, err := asn1.Marshal(struct {
		A alg
		K asn1.BitString
	}{alg{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 1, 1}, asn1.RawValue{Tag: 5}}, asn1.BitString{Bytes: inner, BitLength: 8 * len(inner)}})
	must(err)
	return out
}

func truthOf(n, e *big.Int) M {
	blob := sshBlob(n, e)
	h, m := sha256.Sum256(blob), md5.Sum(blob)
	parts := []string{}
	for _, x := range m {
		parts = append(parts, fmt.Sprintf("%02x", x))
	}
	return M{"sha256": base64.RawStdEncoding.EncodeToString(h[:]), "md5": strings.Join(parts, ":"), "ssh": b64of(blob), "der": b64of(rsaDER(n, e))}
}

func prime(r *rand.Rand, bits int) *big.Int {
	i := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	i.SetBit(i, bits-1, 1)
	i.SetBit(i, 0, 1)
	for !i.ProbablyPrime(8) {
		i.Add(i, big.NewInt(2))
	}
	return i
}

func label(s, kind string, b []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: b})) + s
}

// rendered gives the key in a form, and the comment within it.
func rendered(k *TestKey, form string, r *rand.Rand) (string, string) {
	ssh := "ssh-rsa " + k.SSH
	blk, _ := pem.Decode([]byte(k.PEM))
	der := []byte{}
	if blk != nil {
		der = blk.Bytes
	}
	body := func(s string) []string { return strings.Split(strings.TrimSpace(s), "\n") }
	drop := func(s string, i int) string { // without one line
		l := body(s)
		if len(l) < 3 {
			return "x"
		}
		if i < 0 {
			i += len(l)
		}
		return strings.Join(append(append([]string{}, l[:i]...), l[i+1:]...), "\n") + "\n"
	}
	switch form {
	case "pem":
		return k.PEM, ""
	case "pem surrounded":
		return " \t\n\r\n" + k.PEM + "\n \t\n", ""
	case "pem CRLF":
		return strings.ReplaceAll(k.PEM, "\n", "\r\n"), ""
	case "pem indented":
		return "  \t" + k.PEM, ""
	case "pem blanks after":
		return k.PEM + " \t ", ""
	case "pem CRLF around":
		return "\r\n" + strings.ReplaceAll(k.PEM, "\n", "\r\n") + "\r\n", ""
	case "pgp indented":
		return " \t" + k.PGP + " ", ""
	case "pem no final newline":
		return strings.TrimRight(k.PEM, "\n"), ""
	case "ssh":
		return ssh, ""
	case "ssh comment":
		return ssh + " root@example.com", "root@example.com"
	case "ssh words":
		return ssh + "  the key  of Žofie, (c) ", "the key  of Žofie, (c)"
	case "ssh mentions RSA":
		return ssh + " -----BEGIN RSA PUBLIC KEY-----", "-----BEGIN RSA PUBLIC KEY-----"
	case "ssh mentions PGP":
		return ssh + " BEGIN PGP PUBLIC KEY BLOCK", "BEGIN PGP PUBLIC KEY BLOCK"
	case "ssh spaces":
		return "ssh-rsa    " + k.SSH + " \t  c", "c"
	case "ssh surrounded":
		return "\n \t" + ssh + " c  \r\n\n", "c"
	case "ssh newline":
		return ssh + "\n", ""
	case "ssh tab":
		return ssh + "\tc", "c"
	case "pgp":
		return k.PGP, ""
	case "pgp surrounded":
		return "\n \r\n" + k.PGP + "\n\n \t", ""
	case "empty":
		return "", ""
	case "blank":
		return " \n", ""
	case "junk":
		return "RSA PUBLIC KEY of " + k.Name, ""
	case "pkcs1":
		return k.PKCS1, ""
	case "pkix":
		return k.PKIX, ""
	case "bare":
		return k.SSH, ""
	case "ssh type only":
		return "ssh-rsa ", ""
	case "ssh other type":
		return strings.Replace(ssh, "ssh-rsa", "ssh-dss", 1), ""
	case "ssh cut":
		return "ssh-rsa " + k.SSH[:len(k.SSH)/2/4*4], ""
	case "ssh bad base64":
		return "ssh-rsa *" + k.SSH, ""
	case "ssh trailing bytes":
		b, _ := base64.StdEncoding.DecodeString(k.SSH)
		return "ssh-rsa " + b64of(append(b, 0)), ""
	case "ssh url alphabet":
		b, _ := base64.StdEncoding.DecodeString(k.SSH)
		return "ssh-rsa " + base64.URLEncoding.EncodeToString(append(b, 0xff, 0xfe, 0xff)), ""
	case "ssh of other kind":
		// an RSA key with the type of another
		return "ssh-rsa AAAAC3NzaC1lZDI1NTE5" + k.SSH, ""
	case "pem cut":
		return drop(k.PEM, 2), ""
	case "pem no end":
		return drop(k.PEM, -1), ""
	case "pem no begin":
		return drop(k.PEM, 0), ""
	case "pem private label":
		return strings.ReplaceAll(k.PEM, "RSA PUBLIC KEY", "RSA PRIVATE KEY"), ""
	case "pem bad base64":
		return strings.Replace(k.PEM, "KEY-----\n", "KEY-----\n*", 1), ""
	case "pem empty":
		return "-----BEGIN RSA PUBLIC KEY-----\n-----END RSA PUBLIC KEY-----\n", ""
	case "pem trailing bytes":
		return label("", "RSA PUBLIC KEY", append(append([]byte{}, der...), 0)), ""
	case "pem other kind":
		return label("", "RSA PUBLIC KEY", []byte(rbytes(r, 64))), ""
	case "pgp cut":
		return drop(k.PGP, 5), ""
	case "pgp no end":
		return drop(k.PGP, -1), ""
	case "pgp no begin":
		return drop(k.PGP, 0), ""
	case "pgp private label":
		return strings.ReplaceAll(k.PGP, "PUBLIC KEY BLOCK", "PRIVATE KEY BLOCK"), ""
	case "pgp empty":
		return "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n-----END PGP PUBLIC KEY BLOCK-----\n", ""
	case "pgp junk before":
		return "x\n" + k.PGP, ""
	case "pgp junk after":
		return k.PGP + "\nx", ""
	}
	die("unknown form %s", form)
	return "", ""
}

func storedKey(k *identity.PublicKey, ids map[string]bool, payload string) M {
	m := M{"type": k.Type, "sha256": strings.TrimPrefix(k.Fingerprint, "SHA256:"), "md5": k.FingerprintMD5, "ssh": k.OpenSSH, "id": k.ID, "comment": k.Comment,
		"fresh": len(k.ID) == 40 && isAlnum(k.ID) && !ids[k.ID], "der": "", "label": "", "whole": strings.TrimSpace(k.Payload) == strings.TrimSpace(payload)}
	ids[k.ID] = true
	if blk, rest := pem.Decode([]byte(strings.TrimSpace(k.Payload))); blk != nil && len(strings.TrimSpace(string(rest))) == 0 {
		m["der"], m["label"] = b64of(blk.Bytes), blk.Type
	}
	return m
}

var noKey = M{"type": "", "sha256": "", "md5": "", "ssh": "", "id": "", "comment": "", "fresh": false, "der": "", "label": "", "whole": false}
var noTruth = M{"sha256": "", "md5": "", "ssh": "", "der": "", "algo": 0, "uid": "", "created": "", "fpr": "", "keyid": ""}

func cmdPublicKey(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		ids := map[string]bool{}
		run := func(rec M, payload, usage, comment string) {
			q := requests.NewRequest()
			q.Key.Payload, q.Key.Usage, q.Key.Comment = payload, usage, comment
			rec["key"] = noKey
			rec["void"] = payload == ""
			var k *identity.PublicKey
			if outcome(rec, func() (e error) { k, e = identity.NewPublicKey(q); return }) {
				rec["key"] = storedKey(k, ids, payload)
			}
			explain(rec)
			tr.Emit(rec)
		}
		truth := func(k *TestKey) M {
			t := M{}
			for n, v := range noTruth {
				t[n] = v
			}
			switch k.Kind {
			case "rsa":
				blk, _ := pem.Decode([]byte(k.PEM))
				t["sha256"], t["md5"], t["ssh"], t["der"] = strings.TrimPrefix(k.SHA256, "SHA256:"), strings.TrimPrefix(k.MD5, "MD5:"), k.SSH, b64of(blk.Bytes)
			case "pgp":
				t["algo"], t["uid"], t["fpr"], t["keyid"] = k.Algo, k.UID, k.FPR, k.KeyID
				t["created"] = time.Unix(k.Created, 0).UTC().Format("2006-01-02 15:04:05 +0000 UTC")
			}
			return t
		}
		for _, m := range c.cases() {
			k := c.keys[m.num("key")-1]
			payload, own := rendered(k, m.str("form"), r)
			run(M{"name": k.Name, "kind": k.Kind, "form": m.str("form"), "usage": m.str("usage"), "comment": m.str("comment"), "own": own, "truth": truth(k), "shaped": true}, payload, m.str("usage"), m.str("comment"))
		}
		// new keys of any size
		for i := 0; i < c.steps; i++ {
			bits := 500 + r.Intn(30)
			if i%4 == 0 {
				bits = 1016 + r.Intn(20)
			}
			p := prime(r, bits)
			q := prime(r, 1024-bits/2+r.Intn(9))
			n := new(big.Int).Mul(p, q)
			e := big.NewInt([]int64{3, 5, 17, 257, 65537, 65539, 255, 32769}[r.Intn(8)])
			k := &TestKey{Name: fmt.Sprint("new ", i, " ", n.BitLen(), " bits, e ", e), Kind: "rsa", SSH: b64of(sshBlob(n, e))}
			t := M{}
			for n, v := range noTruth {
				t[n] = v
			}
			for n, v := range truthOf(n, e) {
				t[n] = v
			}
			k.PEM = label("", "RSA PUBLIC KEY", rsaDER(n, e))
			for _, form := range []string{"pem", "ssh comment", "pem surrounded", "ssh"} {
				payload, own := rendered(k, form, r)
				run(M{"name": k.Name, "kind": "rsa", "form": form, "usage": "ssh", "comment": "", "own": own, "truth": t, "shaped": true}, payload, "ssh", "")
			}
			// damaged
			blob := sshBlob(n, e)
			for j := 0; j < 12; j++ {
				b := append([]byte{}, blob...)
				what := ""
				switch r.Intn(4) {
				case 0:
					i := r.Intn(len(b))
					b[i] ^= 1 << uint(r.Intn(8))
					what = fmt.Sprint("bit at ", i)
				case 1:
					i := r.Intn(24)
					b[i] ^= 1 << uint(r.Intn(8))
					what = fmt.Sprint("bit at ", i)
				case 2:
					i := r.Intn(len(b))
					b = b[:i]
					what = fmt.Sprint("cut at ", i)
				case 3:
					i := r.Intn(len(b))
					b = append(b[:i], b[i+1:]...)
					what = fmt.Sprint("without byte ", i)
				}
				dn, de, ok := readBlob(b)
				dt := M{}
				for n, v := range noTruth {
					dt[n] = v
				}
				if ok {
					for n, v := range truthOf(dn, de) {
						dt[n] = v
					}
				}
				run(M{"name": k.Name + " " + what, "kind": "rsa", "form": "damaged", "usage": "ssh", "comment": "", "own": "", "truth": dt, "shaped": ok}, "ssh-rsa "+b64of(b), "ssh", "")
			}
		}
	})
}
