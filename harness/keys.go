package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"strings"

	identity "github.com/greenpau/go-identity"
	"golang.org/x/crypto/openpgp"
	"golang.org/x/crypto/ssh"
)

//go:embed keys.json
var keysJSON []byte

// TestKey is a key made by ssh-keygen or gpg, with what those tools say of it.
type TestKey struct {
	Name    string `json:"name"`
	Kind    string `json:"kind"`
	Bits    int    `json:"bits"`
	PEM     string `json:"pem"`
	PKCS1   string `json:"pkcs1"`
	PKIX    string `json:"pkix"`
	SSH     string `json:"ssh"`
	SSHType string `json:"sshtype"`
	SHA256  string `json:"sha256"`
	MD5     string `json:"md5"`
	PGP     string `json:"pgp"`
	Algo    int    `json:"algo"`
	KeyID   string `json:"keyid"`
	FPR     string `json:"fpr"`
	Created int64  `json:"created"`
	UID     string `json:"uid"`
	n       string // modulus
	raw     []byte
}

func loadKeys() []*TestKey {
	var ks []*TestKey
	must(json.Unmarshal(keysJSON, &ks))
	for _, k := range ks {
		if k.Kind == "rsa" {
			b, _ := base64.StdEncoding.DecodeString(k.SSH)
			pk, err := ssh.ParsePublicKey(b)
			must(err)
			k.n = pk.(ssh.CryptoPublicKey).CryptoPublicKey().(*rsa.PublicKey).N.String()
		}
		if k.Kind == "pgp" {
			k.raw = pgpPrimary(k.PGP)
		}
	}
	return ks
}

func pgpPrimary(armored string) []byte {
	kr, err := openpgp.ReadArmoredKeyRing(bytes.NewBufferString(strings.TrimSpace(armored)))
	if err != nil || len(kr) == 0 || kr[0].PrimaryKey == nil {
		return nil
	}
	var b bytes.Buffer
	if err := kr[0].PrimaryKey.Serialize(&b); err != nil {
		return nil
	}
	return b.Bytes()
}

// Matches tells whether a stored key is this test key, going by its payload.
func (t *TestKey) Matches(k *identity.PublicKey) bool {
	switch t.Kind {
	case "rsa":
		blk, _ := pem.Decode([]byte(strings.TrimSpace(k.Payload)))
		if blk == nil {
			return false
		}
		pub, err := x509.ParsePKIXPublicKey(blk.Bytes)
		if err != nil {
			return false
		}
		r, ok := pub.(*rsa.PublicKey)
		return ok && r.N.String() == t.n
	case "pgp":
		if !strings.Contains(k.Payload, "PGP PUBLIC KEY") {
			return false
		}
		return t.raw != nil && bytes.Equal(pgpPrimary(k.Payload), t.raw)
	}
	return false
}
