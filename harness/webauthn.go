package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"math/rand"
)

type seedReader struct{ r *rand.Rand }

func (s seedReader) Read(b []byte) (int, error) { return s.r.Read(b) }

// Authenticator is a software U2F authenticator.
type Authenticator struct {
	Cred string // credential id
	Key  *ecdsa.PrivateKey
	RP   string // relying party
}

func NewAuthenticator(r *rand.Rand, cred, rp string) *Authenticator {
	// The key is derived from the seeded source, without the library's help.
	d := new(big.Int)
	b := make([]byte, 32)
	for {
		r.Read(b)
		d.SetBytes(b)
		d.Mod(d, elliptic.P256().Params().N)
		if d.Sign() > 0 {
			break
		}
	}
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = elliptic.P256()
	k.X, k.Y = k.Curve.ScalarBaseMult(d.Bytes())
	return &Authenticator{Cred: cred, Key: k, RP: rp}
}

func pad32(i *big.Int) []byte {
	b := make([]byte, 32)
	return i.FillBytes(b)
}

func (a *Authenticator) XY() (string, string) {
	return base64.StdEncoding.EncodeToString(pad32(a.Key.X)), base64.StdEncoding.EncodeToString(pad32(a.Key.Y))
}

func (a *Authenticator) RPHash() string {
	h := sha256.Sum256([]byte(a.RP))
	return hex.EncodeToString(h[:])
}

// Registration returns the document a browser would send.
func (a *Authenticator) Registration() M {
	x, y := a.XY()
	return M{
		"id": a.Cred, "type": "public-key", "transports": []string{"usb"}, "success": true,
		"attestationObject": M{
			"attStmt": M{"alg": -7, "sig": "AAAA"}, "fmt": "fido-u2f",
			"authData": M{
				"rpIdHash": a.RPHash(), "flags": M{"UP": true, "AT": true, "UV": false, "ED": false}, "signatureCounter": 1,
				"credentialData": M{"aaguid": "00000000", "credentialId": a.Cred,
					"publicKey": M{"key_type": 2, "algorithm": -7, "curve_type": 1, "curve_x": x, "curve_y": y}},
			},
		},
		"clientData": M{"type": "webauthn.create", "challenge": "reg", "origin": "https://" + a.RP, "crossOrigin": false},
		"device":     M{"name": "Unknown", "type": "unknown"},
	}
}

func enc(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return base64.StdEncoding.EncodeToString(b)
}

// AuthData builds authenticator data.
func authData(rp string, flags byte, counter uint32, ext []byte) []byte {
	h := sha256.Sum256([]byte(rp))
	b := append([]byte{}, h[:]...)
	b = append(b, flags, byte(counter>>24), byte(counter>>16), byte(counter>>8), byte(counter))
	return append(b, ext...)
}

func (a *Authenticator) Sign(rnd *rand.Rand, data []byte) []byte {
	h := sha256.Sum256(data)
	// Textbook ECDSA with a nonce from the seeded source.
	n := elliptic.P256().Params().N
	for {
		b := make([]byte, 32)
		rnd.Read(b)
		k := new(big.Int).Mod(new(big.Int).SetBytes(b), n)
		if k.Sign() == 0 {
			continue
		}
		x, _ := elliptic.P256().ScalarBaseMult(k.Bytes())
		r := new(big.Int).Mod(x, n)
		if r.Sign() == 0 {
			continue
		}
		s := new(big.Int).Mul(r, a.Key.D)
		s.Add(s, new(big.Int).SetBytes(h[:]))
		s.Mul(s, new(big.Int).ModInverse(k, n))
		s.Mod(s, n)
		if s.Sign() == 0 {
			continue
		}
		out, err := asn1.Marshal(struct{ R, S *big.Int }{r, s})
		must(err)
		return out
	}
}

// Assertion describes an assertion by its deviations from a good one.
type Assertion struct {
	Cred      string
	RP        string
	Flags     byte
	Counter   uint32
	Ext       []byte
	Type      string
	Cross     bool
	Challenge string
	Sig       string // ok, other (key), auth, client (tampered data), empty, garbage, none
	Other     *Authenticator
}

func (a *Authenticator) Good(challenge string) *Assertion {
	return &Assertion{Cred: a.Cred, RP: a.RP, Flags: 1, Counter: 7, Type: "webauthn.get", Challenge: challenge, Sig: "ok"}
}

func (a *Authenticator) Parts(rnd *rand.Rand, as *Assertion) (ad, cd, sig []byte) {
	ad = authData(as.RP, as.Flags, as.Counter, as.Ext)
	cd, err := json.Marshal(M{"type": as.Type, "challenge": as.Challenge, "origin": "https://" + a.RP, "crossOrigin": as.Cross})
	must(err)
	h := sha256.Sum256(cd)
	signer := a
	if as.Sig == "other" {
		signer = as.Other
	}
	signed := append(append([]byte{}, ad...), h[:]...)
	switch as.Sig {
	case "auth": // the signature covers other authenticator data
		b := append([]byte{}, ad...)
		b[33+rnd.Intn(4)] ^= byte(1 << uint(rnd.Intn(8)))
		signed = append(b, h[:]...)
	case "client": // the signature covers other client data
		c2 := append([]byte(" "), cd...)
		h2 := sha256.Sum256(c2)
		signed = append(append([]byte{}, ad...), h2[:]...)
	case "authonly":
		signed = append([]byte{}, ad...)
	case "clientonly":
		signed = h[:]
	case "rawclient":
		signed = append(append([]byte{}, ad...), cd...)
	}
	sig = signer.Sign(rnd, signed)
	switch as.Sig {
	case "empty":
		sig = nil
	case "garbage":
		sig = []byte("garbage")
	case "bitflip":
		sig[len(sig)-1] ^= 1
	case "trailing":
		sig = append(sig, 0)
	}
	return
}

func (a *Authenticator) Encode(rnd *rand.Rand, as *Assertion) M {
	ad, cd, sig := a.Parts(rnd, as)
	b64 := base64.StdEncoding.EncodeToString
	return M{"id": as.Cred, "type": "public-key", "auth_data_encoded": b64(ad), "client_data_encoded": b64(cd), "signature_encoded": b64(sig)}
}
