package main

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash"
	"strings"
)

// rfc4226 is an independent implementation of HOTP (RFC 4226, RFC 6238).
func rfc4226(secret []byte, alg string, digits int, counter uint64) string {
	var h func() hash.Hash
	switch strings.ToLower(alg) {
	case "", "sha1":
		h = sha1.New
	case "sha256":
		h = sha256.New
	case "sha512":
		h = sha512.New
	default:
		return ""
	}
	var msg [8]byte
	binary.BigEndian.PutUint64(msg[:], counter)
	m := hmac.New(h, secret)
	m.Write(msg[:])
	s := m.Sum(nil)
	o := int(s[len(s)-1] & 15)
	v := (uint32(s[o])<<24 | uint32(s[o+1])<<16 | uint32(s[o+2])<<8 | uint32(s[o+3])) & 0x7fffffff
	str := fmt.Sprintf("%010d", v)
	if digits < 0 || digits > 10 {
		return ""
	}
	return str[10-digits:]
}
