// Conformance harness: drives the real go-identity library and records what it
// did, for the TLA+ specification to judge. Nothing in here decides whether a
// behaviour is right: expectations live in /verif/spec.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	identity "github.com/greenpau/go-identity"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

// ---------------------------------------------------------------- interning

// Interner gives every distinct text and every distinct opaque token a small
// number. Texts are exported as code points (a byte that is not a part of valid
// UTF-8 is exported as its negated value).
type Interner struct {
	mu    sync.Mutex
	texts map[string]int
	tlist []string
	toks  map[string]int
}

func NewInterner() *Interner {
	return &Interner{texts: map[string]int{}, toks: map[string]int{}}
}

func (in *Interner) Text(s string) int {
	in.mu.Lock()
	defer in.mu.Unlock()
	if i, ok := in.texts[s]; ok {
		return i
	}
	in.tlist = append(in.tlist, s)
	in.texts[s] = len(in.tlist)
	return len(in.tlist)
}

func (in *Interner) Texts(a []string) []int {
	r := []int{}
	for _, s := range a {
		r = append(r, in.Text(s))
	}
	return r
}

// Tok numbers opaque values per namespace; the empty string is 0.
func (in *Interner) Tok(ns, s string) int {
	if s == "" {
		return 0
	}
	in.mu.Lock()
	defer in.mu.Unlock()
	k := ns + ":" + s
	if i, ok := in.toks[k]; ok {
		return i
	}
	i := len(in.toks) + 1
	in.toks[k] = i
	return i
}

func codePoints(s string) []int {
	r := []int{}
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n == 1 {
			r = append(r, -int(s[0]))
		} else {
			r = append(r, int(c))
		}
		s = s[n:]
	}
	return r
}

func (in *Interner) Export(path string) {
	out := [][]int{}
	for _, s := range in.tlist {
		out = append(out, codePoints(s))
	}
	if len(out) == 0 {
		out = append(out, []int{})
	}
	writeJSON(path, out)
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path, b, 0600))
}

// ------------------------------------------------------------------ digests

// canon renders every exported field of a value, recursively. Nil and empty
// collections are the same; times are compared as instants.
func canon(v reflect.Value, skip map[string]bool) string {
	var b strings.Builder
	canonTo(&b, v, skip, 0)
	return b.String()
}

var timeType = reflect.TypeOf(time.Time{})

func canonTo(b *strings.Builder, v reflect.Value, skip map[string]bool, depth int) {
	if depth > 40 {
		b.WriteString("<deep>")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == timeType {
		b.WriteString(v.Interface().(time.Time).UTC().Format("2006-01-02T15:04:05.999999999Z"))
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		canonTo(b, v.Elem(), skip, depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			if depth == 0 && skip[f.Name] {
				continue
			}
			b.WriteString(f.Name + "=")
			canonTo(b, v.Field(i), nil, depth+1)
			b.WriteString(";")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			canonTo(b, v.Index(i), nil, depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		b.WriteString("[")
		for _, k := range keys {
			fmt.Fprintf(b, "%q:", fmt.Sprint(k))
			canonTo(b, v.MapIndex(k), nil, depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		if v.CanInterface() {
			fmt.Fprintf(b, "%v", v.Interface())
		}
	}
}

func (in *Interner) Dig(x interface{}, skip ...string) int {
	m := map[string]bool{}
	for _, s := range skip {
		m[s] = true
	}
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	h := sha256.Sum256([]byte(canon(v, m)))
	return in.Tok("dig", hex.EncodeToString(h[:]))
}

// --------------------------------------------------------------- projection

type M map[string]interface{}

// Proj projects the database to the state of the specification.
type Proj struct {
	in    *Interner
	epoch time.Time
	keys  []*TestKey
	known map[string]int
	base  uint64 // revisions are relative to this one
}

// rev is a revision of the database, as a number TLC can have.
func (p *Proj) rev(n uint64) int {
	d := int64(n - p.base)
	if d > 2000000000 {
		return 2000000000
	} else if d < -2000000000 {
		return -2000000000
	}
	return int(d)
}

func (p *Proj) us(t time.Time) int {
	if t.IsZero() {
		return -2000000000
	}
	d := t.Sub(p.epoch).Microseconds()
	if d < -2000000000 {
		return -2000000000
	}
	if d > 2000000000 {
		return 2000000000
	}
	return int(d)
}

func (p *Proj) name(n *identity.Name) []int {
	if n == nil {
		return []int{}
	}
	return []int{p.in.Text(n.First), p.in.Text(n.Last)}
}

// keyIndex identifies a stored public key among the test keys by its material,
// independently of the fingerprints the library computed.
func (p *Proj) keyIndex(k *identity.PublicKey) int {
	if i, ok := p.known[k.Payload]; ok {
		return i
	}
	if p.known == nil {
		p.known = map[string]int{}
	}
	p.known[k.Payload] = 0
	for i, t := range p.keys {
		if t.Matches(k) {
			p.known[k.Payload] = i + 1
		}
	}
	return p.known[k.Payload]
}

func (p *Proj) Token(k *identity.MfaToken) M {
	return M{
		"id": p.in.Tok("id", k.ID), "idn": len(k.ID), "ty": k.Type, "cm": p.in.Text(k.Comment), "se": p.in.Text(k.Secret),
		"al": k.Algorithm, "pe": k.Period, "di": k.Digits, "dis": k.Disabled, "exp": k.Expired,
		"u2": p.in.Text(k.Parameters["u2f_id"]), "kx": p.in.Tok("kx", k.Parameters["curve_xcoord"]+k.Parameters["curve_ycoord"]), "rp": p.in.Tok("rp", k.Parameters["rp_id_hash"]), "d": p.in.Dig(k),
	}
}

func (p *Proj) APIKey(k *identity.APIKey) M {
	return M{
		"id": p.in.Tok("id", k.ID), "idn": len(k.ID), "pf": p.in.Tok("pf", k.Prefix), "us": p.in.Text(k.Usage), "cm": p.in.Text(k.Comment),
		"h": p.in.Tok("h", k.Payload), "dis": k.Disabled, "exp": k.Expired, "d": p.in.Dig(k),
	}
}

func (p *Proj) PublicKey(k *identity.PublicKey) M {
	return M{
		"id": p.in.Tok("id", k.ID), "us": p.in.Text(k.Usage), "ky": p.keyIndex(k), "cm": p.in.Text(k.Comment), "dis": k.Disabled, "exp": k.Expired, "d": p.in.Dig(k),
	}
}

func (p *Proj) User(u *identity.User) M {
	em, rl, pw, pk, ak, mf := []int{}, [][]int{}, []M{}, []M{}, []M{}, []M{}
	for _, e := range u.EmailAddresses {
		em = append(em, p.in.Text(e.Address))
	}
	for _, r := range u.Roles {
		rl = append(rl, []int{p.in.Text(r.Organization), p.in.Text(r.Name)})
	}
	for _, x := range u.Passwords {
		pw = append(pw, M{"h": p.in.Tok("h", x.Hash), "dis": x.Disabled, "exp": x.Expired, "d": p.in.Dig(x)})
	}
	for _, k := range u.PublicKeys {
		pk = append(pk, p.PublicKey(k))
	}
	for _, k := range u.APIKeys {
		ak = append(ak, p.APIKey(k))
	}
	for _, k := range u.MfaTokens {
		mf = append(mf, p.Token(k))
	}
	return M{
		"id": p.in.Tok("id", u.ID), "idn": len(u.ID), "un": p.in.Text(u.Username), "em": em, "nm": p.name(u.Name), "nn": len(u.Names), "rl": rl,
		"pw": pw, "pk": pk, "ak": ak, "mf": mf, "rv": u.Revision, "lm": p.us(u.LastModified), "cr": p.us(u.Created),
		"x": p.in.Dig(u, "Passwords", "PublicKeys", "APIKeys", "MfaTokens", "Revision", "LastModified"),
	}
}

func (p *Proj) DB(db *identity.Database) M {
	us := []M{}
	for _, u := range db.Users {
		us = append(us, p.User(u))
	}
	pp, pu := db.Policy.Password, db.Policy.User
	return M{
		"us": us, "rv": p.rev(db.Revision), "lm": p.us(db.LastModified),
		"pol": M{"kv": pp.KeepVersions, "pmin": pp.MinLength, "pmax": pp.MaxLength, "umin": pu.MinLength, "umax": pu.MaxLength, "x": p.in.Dig(db.Policy)},
		"d":   p.in.Dig(db),
	}
}

// -------------------------------------------------------------------- trace

// Trace is an ndjson writer.
type Trace struct {
	f *os.File
	w *bufio.Writer
	n int
}

func NewTrace(path string) *Trace {
	f, err := os.Create(path)
	must(err)
	return &Trace{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (t *Trace) Emit(m interface{}) {
	b, err := json.Marshal(m)
	must(err)
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.n++
}

func (t *Trace) Close() {
	must(t.w.Flush())
	must(t.f.Close())
}

func fileTok(in *Interner, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0
	}
	h := sha256.Sum256(b)
	return in.Tok("file", hex.EncodeToString(h[:]))
}

func copyFile(src, dst string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0600)
}

func listDir(dir string) []string {
	var r []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && p != dir {
			r = append(r, strings.TrimPrefix(p, dir+"/"))
		}
		return nil
	})
	sort.Strings(r)
	return r
}

func pick(r *rand.Rand, a []string) string { return a[r.Intn(len(a))] }

func hexSHA(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])
}
