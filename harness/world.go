package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

// World is one database under test, with what the driver knows about it.
type World struct {
	in    *Interner
	pj    *Proj
	tr    *Trace
	rnd   *rand.Rand
	dir   string // everything of this world lives here
	sub   string // directory of the database file
	path  string
	roam  bool // spell the path in different ways
	db    *identity.Database
	ep    int
	seq   int
	dead  bool
	keys  []*TestKey
	auths []*Authenticator

	lastFile int
	diskOK   bool
	diskD    int
	diskRv   int

	issued   []*Issued // API keys handed out
	pkIDs    []string  // public key ids seen
	mfIDs    []string  // MFA token ids seen
	akIDs    []string
	secrets  []string          // strings that must never be seen on the disk
	plain    map[string]string // bcrypt hash to text, as far as known
	retired  []string          // passwords once valid
	failed   []string          // API keys whose request failed
	bundles  []*handed
	lastPost string
	scan     bool
	forms    [][]string
	marks    bool // calls are marked for the tracer
}

// within makes a call, as a window for the tracer, which may make a call to the
// file system fail; whether it did is returned.
func (w *World) within(op, trap string, targets []string, f func() error) (err error, pn string, hang, fired bool) {
	if !w.marks {
		err, pn, hang = call(f)
		return
	}
	mark("begin|" + op + "|" + trap + "|" + strings.Join(targets, "|"))
	err, pn, hang = call(f)
	how := "err"
	if err == nil && pn == "" && !hang {
		how = "ok"
	}
	fired = mark("end|" + how)
	return
}

// handed is a list handed out by the library.
type handed struct {
	ids  []int
	size int
	now  func() ([]int, int)
}

type Issued struct {
	ID, Key, Comment string
}

func NewWorld(in *Interner, tr *Trace, rnd *rand.Rand, dir string, keys []*TestKey, epoch time.Time) *World {
	w := &World{in: in, tr: tr, rnd: rnd, dir: dir, keys: keys, plain: map[string]string{}}
	w.pj = &Proj{in: in, epoch: epoch, keys: keys}
	w.sub = filepath.Join(dir, "data")
	must(os.MkdirAll(w.sub, 0700))
	w.path = filepath.Join(w.sub, "users.json")
	return w
}

func (w *World) now() int { return w.pj.us(time.Now()) }

// call runs f, catching panics and hangs.
func call(f func() error) (err error, panicked string, hang bool) {
	type res struct {
		err error
		p   string
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			if e := recover(); e != nil {
				r.p = fmt.Sprint(e)
				if r.p == "" {
					r.p = "panic"
				}
			}
			ch <- r
		}()
		r.err = f()
	}()
	select {
	case r := <-ch:
		return r.err, r.p, false
	case <-time.After(30 * time.Second):
		return nil, "", true
	}
}

// observe reads the state of the database and of its file.
func (w *World) observe(rec M) {
	rec["ep"] = w.ep
	w.seq++
	rec["i"] = w.seq
	if w.db != nil {
		post := w.pj.DB(w.db)
		b, err := json.Marshal(post)
		must(err)
		// the same state as before is not repeated
		if string(b) != w.lastPost {
			rec["post"] = post
			w.lastPost = string(b)
		}
	}
	f := fileTok(w.in, w.path)
	rec["file"] = f
	if f != w.lastFile {
		w.lastFile = f
		w.diskOK, w.diskD, w.diskRv = w.loadCopyOf(w.path)
	}
	rec["disk"] = M{"ok": w.diskOK, "d": w.diskD, "rv": w.diskRv}
	mode := 0
	if fi, err := os.Stat(w.path); err == nil {
		mode = int(fi.Mode().Perm())
	}
	rec["mode"] = mode
	extra := 0
	for _, e := range listDir(w.sub) {
		if filepath.Join(w.sub, e) != w.path {
			extra++
		}
	}
	rec["extra"] = extra
}

// loadCopyOf loads a copy of a database file; the digest of the result is 0
// when it does not load.
func (w *World) loadCopyOf(path string) (bool, int, int) {
	tmp := filepath.Join(w.dir, "probe")
	must(os.MkdirAll(tmp, 0700))
	defer os.RemoveAll(tmp)
	p := filepath.Join(tmp, "p.json")
	if err := copyFile(path, p); err != nil {
		return false, 0, 0
	}
	var db *identity.Database
	err, pn, hang := call(func() (e error) { db, e = identity.NewDatabase(p); return })
	if err != nil || pn != "" || hang || db == nil {
		return false, 0, 0
	}
	return true, w.in.Dig(db), w.pj.rev(db.Revision)
}

// addSecret registers an API key; any long fragment of it has one of these.
func (w *World) addSecret(s string) {
	for i := 24; i+16 <= len(s); i += 8 {
		w.secrets = append(w.secrets, s[i:i+16])
	}
}

func (w *World) emit(rec M) {
	w.tr.Emit(rec)
}

// fault makes writing of the database file impossible; it returns the undo.
func (w *World) fault(kind string) func() {
	away := filepath.Join(w.dir, "away")
	// what a changed library removed cannot be moved away
	aside := func(p string) func() {
		gone := os.Rename(p, away) != nil
		return func() {
			must(os.RemoveAll(p))
			if !gone {
				must(os.Rename(away, p))
			}
		}
	}
	switch kind {
	case "nodir": // the directory is gone
		return aside(w.sub)
	case "isdir": // the file is replaced by a directory
		undo := aside(w.path)
		os.Mkdir(w.path, 0700)
		return undo
	case "notdir": // the directory is replaced by a file
		undo := aside(w.sub)
		must(os.WriteFile(w.sub, nil, 0600))
		return undo
	}
	return func() {}
}

// ------------------------------------------------------------------- leaks

func leakForms(s string) []string {
	fs := []string{s, strings.ToLower(s)}
	if len(s) >= 8 {
		fs = append(fs, hex.EncodeToString([]byte(s)))
		b := base64.StdEncoding.EncodeToString([]byte(s))
		fs = append(fs, strings.TrimRight(b, "=")[:len(b)*3/4])
		for k := 1; k < 3; k++ {
			e := base64.StdEncoding.EncodeToString([]byte(strings.Repeat("x", k) + s))
			e = strings.TrimRight(e, "=")
			if len(e) > 6 {
				fs = append(fs, e[4:len(e)-2])
			}
		}
		r := []byte(s)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		fs = append(fs, string(r))
	}
	return fs
}

// leaksIn counts the secrets a text contains in some form.
func (w *World) leaksIn(text string) int {
	n := 0
	low := strings.ToLower(text)
	win := map[string]bool{}
	for i := 0; i+8 <= len(low); i++ {
		win[low[i:i+8]] = true
	}
	for len(w.forms) < len(w.secrets) {
		fs := leakForms(w.secrets[len(w.forms)])
		for i := range fs {
			fs[i] = strings.ToLower(fs[i])
		}
		w.forms = append(w.forms, fs)
	}
	for _, fs := range w.forms {
		for _, f := range fs {
			if len(f) >= 8 && !win[f[:8]] {
				continue
			}
			if strings.Contains(low, f) {
				n++
				break
			}
		}
	}
	return n
}

// leaks counts the secrets found in any file of the world.
func (w *World) leaks() int {
	n := 0
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			n += w.leaksIn(string(b))
			// strings of JSON documents, without escapes
			var v interface{}
			if json.Unmarshal(b, &v) == nil {
				n += w.leaksIn(fmt.Sprint(v))
			}
		}
		return nil
	})
	return n
}

// ---------------------------------------------------------------------- ops

// Op is one call of the library, with concrete arguments.
type Op struct {
	Op            string
	Un, Em, Pw    string
	Old, Fn       string
	Roles         []string
	Us, Cm        string
	Dis           bool
	ID            string
	Payload       string
	Form          string // form of a public key
	Key           int    // test key
	KCm           string // comment within the OpenSSH key
	Ty, Se, Al    string
	Pe, Di        int
	Code          string
	Off           *int // passcode for the period at this offset from now
	Pad           string
	Au            *Authenticator
	Reg           M // registration document
	RegOK         bool
	As            M // assertion document
	Asr           *Assertion
	AsrBy         *Authenticator
	Want          string
	AsWF          bool
	Fl            bool
	Fault         string
	Trap          string // a failure injected by the tracer
	Retry         bool
	N             int
	Target        string // path of a copy
	TargetPre     string // what is at the target before
	Kind, Malform string
	Raw           string // a document, or key, that is not one
	RawText       string // what is given in its place
}

// req makes a request. What the operation does not use is filled in some of
// them, as in a request that served another operation before.
func (w *World) req(op string) *requests.Request {
	r := requests.NewRequest()
	if w.rnd.Intn(3) > 0 {
		return r
	}
	use := map[string]string{
		"AddUser": "user", "ChangeUserPassword": "user", "AuthenticateUser": "user wa", "IdentifyUser": "user out", "GetUsers": "user", "GetUser": "user", "DeleteUser": "user query",
		"AddAPIKey": "user key", "DeleteAPIKey": "user keyid", "GetAPIKeys": "user", "LookupAPIKey": "", "AddPublicKey": "user key", "DeletePublicKey": "user keyid", "GetPublicKeys": "user usage",
		"AddMfaToken": "user mfa wa", "DeleteMfaToken": "user mfaid", "GetMfaTokens": "user"}[op]
	uses := func(s string) bool {
		for _, x := range strings.Fields(use) {
			if x == s {
				return true
			}
		}
		return false
	}
	var us []*identity.User
	for _, u := range w.db.Users {
		if u != nil {
			us = append(us, u)
		}
	}
	if len(us) == 0 {
		return r
	}
	any := func() *identity.User { return us[w.rnd.Intn(len(us))] }
	r.Flags.MfaRequired = w.rnd.Intn(2) == 0
	if op == "IdentifyUser" { // what is filled in for the user
		r.User.FullName, r.User.Roles, r.User.Challenges = "left-over", []string{"left-over"}, []string{"left-over"}
	}
	r.ID, r.Sandbox.ID, r.Upstream.Realm = "req-"+rstr(w.rnd, 4), "sb", "local"
	r.Query.Name = any().Username
	if !uses("query") {
		r.Query.ID = any().ID
	}
	// another user of the request than the one it is of, where it does not say
	if op == "LookupAPIKey" {
		r.User.Username = any().Username
	}
	if op == "LookupAPIKey" || op == "AuthenticateUser" || op == "IdentifyUser" {
		r.User.Email = any().GetMailClaim()
	}
	if op != "AddUser" && !uses("out") {
		r.User.FullName, r.User.Roles = any().GetFullName(), any().GetRolesClaim()
		r.User.OldPassword = "left-over"
		if op != "ChangeUserPassword" && op != "AuthenticateUser" {
			r.User.Password = "left-over"
			if len(w.retired) > 0 {
				r.User.Password = w.retired[w.rnd.Intn(len(w.retired))]
			}
		}
	}
	if u := any(); len(u.APIKeys) > 0 && !uses("keyid") {
		r.Key.ID = u.APIKeys[w.rnd.Intn(len(u.APIKeys))].ID
	}
	if u := any(); len(u.APIKeys) > 0 {
		r.Key.Prefix = u.APIKeys[w.rnd.Intn(len(u.APIKeys))].Prefix
	}
	if !uses("key") {
		r.Key.Comment, r.Key.Disabled = "left-over", w.rnd.Intn(2) == 0
		if !uses("usage") {
			r.Key.Usage = pick(w.rnd, []string{"api", "ssh", "gpg"})
		}
		if op != "LookupAPIKey" && !uses("out") {
			r.Key.Payload = "left-over"
			if len(w.issued) > 0 {
				r.Key.Payload = w.issued[w.rnd.Intn(len(w.issued))].Key
			}
		}
	}
	if u := any(); len(u.MfaTokens) > 0 && !uses("mfaid") {
		r.MfaToken.ID = u.MfaTokens[w.rnd.Intn(len(u.MfaTokens))].ID
	}
	if !uses("mfa") && !uses("out") {
		r.MfaToken.Comment, r.MfaToken.Type, r.MfaToken.Secret, r.MfaToken.Period, r.MfaToken.Passcode = "left-over", "totp", "left-over", 30, "123456"
	}
	if !uses("wa") && !uses("out") {
		r.WebAuthn.Challenge, r.WebAuthn.Register, r.WebAuthn.Request = "left-over", "e30=", "e30="
	}
	return r
}

func (w *World) bound(r *requests.Request, o *Op) {
	r.User.Username = o.Un
	r.User.Email = o.Em
}

func (k *TestKey) Render(form, kcm string) string {
	switch form {
	case "pem":
		return k.PEM
	case "pemws":
		return []string{"\n  ", "  ", "\r\n"}[len(kcm)%3] + k.PEM + "\n\n"
	case "ssh":
		s := "ssh-rsa " + k.SSH
		if kcm != "" {
			s += " " + kcm
		}
		return s
	case "sshws":
		s := "  ssh-rsa   " + k.SSH
		if kcm != "" {
			s += " \t" + kcm
		}
		return s + "  \n"
	case "pgp":
		return k.PGP
	case "pgpws":
		return "\n\n" + k.PGP + "\n"
	case "pkcs1":
		return k.PKCS1
	case "pkix":
		return k.PKIX
	case "bare":
		return k.SSH
	case "sshcut":
		return "ssh-rsa " + k.SSH[:len(k.SSH)/2/4*4]
	case "pemcut":
		return strings.Replace(k.PEM, k.PEM[100:165], "", 1)
	case "pgpcut":
		return strings.Replace(k.PGP, k.PGP[200:300], "", 1)
	case "pgpnoend":
		return k.PGP[:len(k.PGP)/2]
	case "empty":
		return ""
	case "junk":
		return "not a key"
	}
	return "?"
}

// wellFormed: the spec judges acceptance from the form; the forms that are
// well-formed keys of the supported kinds are listed here.
func formOf(k *TestKey, form string) string {
	switch form {
	case "pem", "pemws":
		if k.Kind == "rsa" {
			return "pem"
		}
	case "ssh", "sshws":
		if k.Kind == "rsa" {
			return "ssh"
		}
	case "pgp", "pgpws":
		if k.Kind == "pgp" && (k.Algo == 1 || k.Algo == 17 || k.Algo == 19) {
			return "pgp"
		}
	}
	return "bad"
}

// totpOffsets lists the offsets from the current period whose code is the given.
func totpOffsets(secret, alg string, digits, period int, code string, now time.Time) []int {
	r := []int{}
	if period < 1 || digits < 1 || digits > 10 {
		return r
	}
	c := now.Unix() / int64(period)
	for o := -6; o <= 6; o++ {
		if x := rfc4226([]byte(secret), alg, digits, uint64(c+int64(o))); x != "" && x == strings.TrimSpace(code) {
			r = append(r, o)
		}
	}
	return r
}

func waitAwayFromBoundary(period int) {
	if period < 10 {
		return
	}
	for {
		ms := time.Now().UnixNano() / 1e6 % (int64(period) * 1000)
		if ms < int64(period)*1000-1500 && ms > 20 {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// Do executes one operation, observes, and records it.
func (w *World) Do(o *Op) M {
	if w.dead {
		return nil
	}
	in := w.in
	rec := M{"op": o.Op}
	a := M{}
	res := M{"code": 0}
	var err error
	var pn string
	var hang bool
	undo := w.fault(o.Fault)
	rec["fault"] = o.Fault != ""
	rec["retry"] = o.Retry
	t0 := w.now()
	scan := "" // text to be scanned for secrets
	fired := false
	run := func(f func() error) {
		targets := []string{w.path}
		if o.Op == "Copy" {
			targets = []string{res["target"].(string), w.path}
		}
		err, pn, hang, fired = w.within(o.Op, o.Trap, targets, f)
	}
	bindArgs := func() {
		a["un"] = in.Text(o.Un)
		a["em"] = in.Text(o.Em)
	}
	switch o.Op {
	case "AddUser":
		r := w.req(o.Op)
		w.bound(r, o)
		r.User.Password, r.User.FullName, r.User.Roles = o.Pw, o.Fn, append([]string{}, o.Roles...)
		bindArgs()
		a["pw"], a["fn"], a["rl"] = in.Text(o.Pw), in.Text(o.Fn), in.Texts(o.Roles)
		run(func() error { return w.db.AddUser(r) })
		res["hv"] = true
		if err == nil && pn == "" && !hang && len(w.db.Users) > 0 {
			u := w.db.Users[len(w.db.Users)-1]
			res["hv"] = len(u.Passwords) > 0 && bcrypt.CompareHashAndPassword([]byte(u.Passwords[0].Hash), []byte(o.Pw)) == nil
			if len(u.Passwords) > 0 {
				w.plain[u.Passwords[0].Hash] = o.Pw
			}
		}
	case "ChangeUserPassword":
		r := w.req(o.Op)
		w.bound(r, o)
		r.User.Password, r.User.OldPassword = o.Pw, o.Old
		bindArgs()
		a["pw"], a["old"] = in.Text(o.Pw), in.Text(o.Old)
		run(func() error { return w.db.ChangeUserPassword(r) })
		res["hv"] = true
		if err == nil && pn == "" && !hang {
			for _, u := range w.db.Users {
				if strings.EqualFold(u.Username, o.Un) && len(u.Passwords) > 0 {
					res["hv"] = bcrypt.CompareHashAndPassword([]byte(u.Passwords[0].Hash), []byte(o.Pw)) == nil
					w.plain[u.Passwords[0].Hash] = o.Pw
					w.retired = append(w.retired, o.Old)
				}
			}
		}
	case "AuthenticateUser":
		r := w.req(o.Op)
		r.User.Username, r.User.Password = o.Un, o.Pw
		a["un"], a["pw"] = in.Text(o.Un), in.Text(o.Pw)
		a["wa"] = false
		if o.Asr != nil || o.As != nil {
			a["wa"] = true
			doc := o.As
			if doc == nil {
				doc = o.AsrBy.Encode(w.rnd, o.Asr)
			}
			r.WebAuthn.Request = enc(doc)
			r.WebAuthn.Challenge = o.Want
			a["as"] = w.assertionArgs(o)
			if o.Raw != "" {
				r.WebAuthn.Request = rawDoc(o)
				a["as"].(M)["wf"] = false
			}
		}
		hashes := []int{}
		onBcrypt(func(kind string, cost int) { hashes = append(hashes, cost) })
		run(func() error { return w.db.AuthenticateUser(r) })
		onBcrypt(nil)
		res["hn"] = len(hashes)
		res["hc"] = hashes
		res["code"] = r.Response.Code
		scan = fmt.Sprint(r.Response.Payload)
	case "IdentifyUser":
		r := w.req(o.Op)
		r.User.Username = o.Un
		r.Flags.Enabled = o.Fl
		a["un"], a["fl"] = in.Text(o.Un), o.Fl
		run(func() error { return w.db.IdentifyUser(r) })
		res["code"] = r.Response.Code
		if r.User.Username == "nobody" && r.Response.Code != 200 { // not touched
			if r.User.FullName == "left-over" {
				r.User.FullName = ""
			}
			if len(r.User.Roles) == 1 && r.User.Roles[0] == "left-over" {
				r.User.Roles = nil
			}
		}
		res["un"], res["em"], res["fn"] = in.Text(r.User.Username), in.Text(r.User.Email), in.Text(r.User.FullName)
		res["rl"], res["ch"] = in.Texts(r.User.Roles), nonNil(r.User.Challenges)
		res["fl"] = []bool{r.Flags.MfaConfigured, r.Flags.MfaApp, r.Flags.MfaUniversal}
		b, _ := json.Marshal(r)
		scan = string(b)
	case "GetUsers":
		r := w.req(o.Op)
		w.bound(r, o)
		bindArgs()
		run(func() error { return w.db.GetUsers(r) })
		lst := []M{}
		if b, ok := r.Response.Payload.(*identity.UserMetadataBundle); ok && b != nil {
			for _, m := range b.Get() {
				lst = append(lst, M{"id": in.Tok("id", m.ID), "un": in.Text(m.Username), "em": in.Text(m.Email), "nm": in.Text(m.Name), "rv": m.Revision, "lm": w.pj.us(m.LastModified), "cr": w.pj.us(m.Created)})
			}
			res["size"] = b.Size()
			bb, _ := json.Marshal(b.Get())
			scan = string(bb)
			w.hand(func() ([]int, int) {
				ids := []int{}
				for _, m := range b.Get() {
					ids = append(ids, in.Tok("id", m.ID), in.Dig(m))
				}
				return ids, b.Size()
			})
		}
		res["pay"] = r.Response.Payload != nil
		res["lst"] = lst
	case "GetUser":
		r := w.req(o.Op)
		w.bound(r, o)
		bindArgs()
		run(func() error { return w.db.GetUser(r) })
		res["pay"] = r.Response.Payload != nil
		res["id"] = 0
		if u, ok := r.Response.Payload.(*identity.User); ok && u != nil {
			res["id"] = in.Tok("id", u.ID)
			res["d"] = in.Dig(u)
			w.hand(func() ([]int, int) { return []int{in.Dig(u)}, 1 })
			bb, _ := json.Marshal(u)
			scan = string(bb)
		}
		// the digest of each stored user, to compare the returned one with
		ds := []int{}
		for _, u := range w.db.Users {
			ds = append(ds, in.Dig(u))
		}
		res["ds"] = ds
	case "DeleteUser":
		r := w.req(o.Op)
		w.bound(r, o)
		r.Query.ID = o.ID
		bindArgs()
		run(func() error { return w.db.DeleteUser(r) })
	case "GetUserCount":
		n := -1
		run(func() error { n = w.db.GetUserCount(); return nil })
		res["n"] = n
	case "GetPath":
		var p string
		run(func() error { p = w.db.GetPath(); return nil })
		res["same"] = w.isPath(p)
	case "Save": // at once, as often as asked for
		n := 1
		if o.N > 1 && !w.marks {
			n = o.N
		}
		a["n"] = n
		run(func() error {
			for i := 0; i < n; i++ {
				if err := w.db.Save(); err != nil {
					return err
				}
			}
			return nil
		})
	case "Copy":
		w.doCopy(o, a, res, run)
	case "Reload":
		var db *identity.Database
		run(func() (e error) { db, e = identity.NewDatabase(w.spell(w.path)); return })
		if err == nil && pn == "" && !hang && db != nil {
			w.db = db
		}
	case "AddAPIKey":
		r := w.req(o.Op)
		w.bound(r, o)
		r.Key.Usage, r.Key.Comment, r.Key.Disabled = o.Us, o.Cm, o.Dis
		bindArgs()
		a["us"], a["cm"], a["dis"] = in.Text(o.Us), in.Text(o.Cm), o.Dis
		run(func() error { return w.db.AddAPIKey(r) })
		res["key"], res["kn"], res["pf"], res["hv"], res["alnum"] = 0, 0, 0, false, false
		if s, ok := r.Response.Payload.(string); ok && err == nil && pn == "" && !hang {
			res["key"], res["kn"] = in.Text(s), len(s)
			if len(s) >= 24 {
				res["pf"] = in.Tok("pf", s[:24])
			}
			res["alnum"] = isAlnum(s)
			id := ""
			for _, u := range w.db.Users {
				for _, k := range u.APIKeys {
					if len(s) >= 24 && k.Prefix == s[:24] {
						res["hv"] = bcrypt.CompareHashAndPassword([]byte(k.Payload), []byte(s)) == nil
						id = k.ID
					}
				}
			}
			w.issued = append(w.issued, &Issued{ID: id, Key: s, Comment: o.Cm})
			w.akIDs = append(w.akIDs, id)
			w.addSecret(s)
		} else if ok {
			w.failed = append(w.failed, s)
		}
	case "DeleteAPIKey", "DeletePublicKey", "DeleteMfaToken":
		r := w.req(o.Op)
		w.bound(r, o)
		bindArgs()
		if o.Op == "DeleteMfaToken" {
			r.MfaToken.ID = o.ID
		} else {
			r.Key.ID = o.ID
		}
		a["id"] = in.Tok("id", o.ID)
		run(func() error {
			switch o.Op {
			case "DeleteAPIKey":
				return w.db.DeleteAPIKey(r)
			case "DeletePublicKey":
				return w.db.DeletePublicKey(r)
			}
			return w.db.DeleteMfaToken(r)
		})
	case "GetAPIKeys", "GetPublicKeys", "GetMfaTokens":
		r := w.req(o.Op)
		w.bound(r, o)
		r.Key.Usage = o.Us
		bindArgs()
		a["us"] = in.Text(o.Us)
		run(func() error {
			switch o.Op {
			case "GetAPIKeys":
				return w.db.GetAPIKeys(r)
			case "GetPublicKeys":
				return w.db.GetPublicKeys(r)
			}
			return w.db.GetMfaTokens(r)
		})
		ids, ds, size := []int{}, []int{}, 0
		switch b := r.Response.Payload.(type) {
		case *identity.APIKeyBundle:
			for _, k := range b.Get() {
				ids, ds = append(ids, in.Tok("id", k.ID)), append(ds, in.Dig(k))
			}
			size = b.Size()
			bb, _ := json.Marshal(b.Get())
			scan = string(bb)
			w.hand(func() ([]int, int) {
				ids := []int{}
				for _, k := range b.Get() {
					ids = append(ids, in.Tok("id", k.ID), in.Dig(k))
				}
				return ids, b.Size()
			})
		case *identity.PublicKeyBundle:
			for _, k := range b.Get() {
				ids, ds = append(ids, in.Tok("id", k.ID)), append(ds, in.Dig(k))
			}
			size = b.Size()
			w.hand(func() ([]int, int) {
				ids := []int{}
				for _, k := range b.Get() {
					ids = append(ids, in.Tok("id", k.ID), in.Dig(k))
				}
				return ids, b.Size()
			})
		case *identity.MfaTokenBundle:
			for _, k := range b.Get() {
				ids, ds = append(ids, in.Tok("id", k.ID)), append(ds, in.Dig(k))
			}
			size = b.Size()
			bb, _ := json.Marshal(b.Get())
			scan = string(bb)
			w.hand(func() ([]int, int) {
				ids := []int{}
				for _, k := range b.Get() {
					ids = append(ids, in.Tok("id", k.ID), in.Dig(k))
				}
				return ids, b.Size()
			})
		}
		res["pay"], res["ids"], res["ds"], res["size"] = r.Response.Payload != nil, ids, ds, size
	case "LookupAPIKey":
		r := w.req(o.Op)
		r.Key.Payload = o.Payload
		a["pl"], a["pf"] = in.Text(o.Payload), 0
		if len(o.Payload) >= 24 {
			a["pf"] = in.Tok("pf", o.Payload[:24])
		}
		un, em := r.User.Username, r.User.Email
		run(func() error { return w.db.LookupAPIKey(r) })
		res["code"] = r.Response.Code
		if err != nil && r.User.Username == un && r.User.Email == em { // as given
			r.User.Username, r.User.Email = "", ""
		}
		res["un"], res["em"] = in.Text(r.User.Username), in.Text(r.User.Email)
		if err == nil {
			scan = fmt.Sprint(r.Response.Payload)
		}
	case "AddPublicKey":
		r := w.req(o.Op)
		w.bound(r, o)
		k := w.keys[o.Key]
		r.Key.Usage, r.Key.Comment, r.Key.Disabled = o.Us, o.Cm, o.Dis
		r.Key.Payload = k.Render(o.Form, o.KCm)
		bindArgs()
		a["us"], a["cm"], a["dis"] = in.Text(o.Us), in.Text(o.Cm), o.Dis
		a["ky"], a["form"], a["kcm"] = o.Key+1, formOf(k, o.Form), in.Text(o.KCm)
		if o.Raw != "" {
			r.Key.Payload = o.Raw
			a["ky"], a["form"] = 0, "raw"
		}
		run(func() error { return w.db.AddPublicKey(r) })
		for _, u := range w.db.Users {
			for _, x := range u.PublicKeys {
				w.pkIDs = appendNew(w.pkIDs, x.ID)
			}
		}
	case "AddMfaToken":
		w.doAddMfa(o, a, res, run, bindArgs)
	case "Recheck":
		was, now, ok := []int{}, []int{}, true
		for _, h := range w.bundles {
			ids, size := h.now()
			was = append(append(was, h.ids...), -h.size)
			now = append(append(now, ids...), -size)
		}
		w.bundles = nil
		res["was"], res["now"] = was, now
		_ = ok
	case "Policy":
		run(func() error {
			res["us"] = in.Text(w.db.GetUsernamePolicySummary())
			res["ur"] = in.Text(w.db.GetUsernamePolicyRegex())
			res["ps"] = in.Text(w.db.GetPasswordPolicySummary())
			res["pr"] = in.Text(w.db.GetPasswordPolicyRegex())
			return nil
		})
	default:
		die("unknown op %s", o.Op)
	}
	t1 := w.now()
	undo()
	delete(res, "target")
	rec["may"] = fired
	rec["a"] = a
	rec["t0"], rec["t1"] = t0, t1
	res["ok"] = err == nil && pn == "" && !hang
	res["panic"], res["hang"] = pn != "", hang
	rec["err"] = ""
	if err != nil {
		rec["err"] = err.Error()
		rec["ref"] = refusal(o.Op, err, o.given()...)
		rec["echo"] = o.echoes(err.Error())
		if len(w.secrets) > 0 {
			scan += " " + err.Error()
		}
	}
	if pn != "" {
		rec["err"] = "PANIC " + pn
	}
	rec["r"] = res
	if hang {
		w.dead = true
		rec["err"] = "HANG"
		// the state cannot be read: the database may be locked
		w.seq++
		rec["i"], rec["ep"] = w.seq, w.ep
		w.emit(rec)
		return rec
	}
	w.observe(rec)
	rec["leak"] = 0
	if len(w.secrets) > 0 {
		n := w.leaksIn(scan)
		if w.scan && (rec["op"] == "IdentifyUser" || rec["op"] == "Reload" || rec["op"] == "Save") {
			n += w.leaks()
		}
		rec["leak"] = n
	}
	w.emit(rec)
	return rec
}

func (w *World) assertionArgs(o *Op) M {
	in := w.in
	m := M{"wf": o.AsWF}
	if o.Asr != nil {
		as := o.Asr
		signer := o.AsrBy
		if as.Sig == "other" {
			signer = as.Other
		}
		x, y := signer.XY()
		m["u2"] = in.Text(as.Cred)
		m["kx"] = in.Tok("kx", x+y)
		m["rp"] = in.Tok("rp", hexSHA(as.RP))
		m["up"] = as.Flags&1 == 1
		m["ty"] = as.Type
		m["xo"] = as.Cross
		m["ch"] = in.Text(as.Challenge)
		m["want"] = in.Text(o.Want)
		m["sig"] = as.Sig == "ok" || as.Sig == "other"
	}
	return m
}

// Permissions files may have.
var modes = []os.FileMode{0600, 0640, 0644, 0660, 0666, 0604, 0700, 0755, 0777, 0622, 0400, 0440, 0200}

func (w *World) someMode(path string) int {
	m := modes[w.rnd.Intn(len(modes))]
	must(os.Chmod(path, m))
	return int(m)
}

func (w *World) doCopy(o *Op, a, res M, run func(func() error)) {
	target := o.Target
	if target == "" {
		target = filepath.Join(w.dir, "copy", "c.json")
	}
	must(os.MkdirAll(filepath.Dir(target), 0700))
	os.Remove(target)
	real := filepath.Join(w.dir, "copy", "real.json")
	given := target
	pmode := 0600
	switch o.TargetPre {
	case "file":
		must(os.WriteFile(target, []byte("{}"), 0600))
		pmode = w.someMode(target)
	case "dir":
		must(os.MkdirAll(target, 0700))
	case "nodir":
		target = filepath.Join(w.dir, "nowhere", "c.json")
		given = target
	case "link":
		must(os.WriteFile(real, []byte("{}"), 0600))
		pmode = w.someMode(real)
		must(os.Symlink("real.json", target))
	case "home":
		given = w.homed(target)
	case "rel":
		given = w.relative(target)
	case "stale": // to its own path, where the file is gone
		os.Remove(w.path)
		target, given = w.path, w.spell(w.path)
	case "self":
		target, given = w.path, w.spell(w.path)
	}
	a["bad"] = o.TargetPre == "dir" || o.TargetPre == "nodir"
	a["pre"], a["pmode"] = o.TargetPre, pmode
	was, _ := os.ReadFile(target)
	res["target"] = target
	run(func() error { return w.db.Copy(given) })
	is, _ := os.ReadFile(target)
	res["keep"] = string(was) == string(is)
	ok, d, rv := w.loadCopyOf(target)
	res["cok"], res["cd"], res["crv"] = ok, d, rv
	mode := 0
	if fi, e := os.Stat(target); e == nil && fi.Mode().IsRegular() {
		mode = int(fi.Mode().Perm())
	}
	res["cmode"] = mode
	res["path"] = w.isPath(w.db.GetPath())
	if target != w.path {
		os.RemoveAll(target)
		os.RemoveAll(real)
	}
}

func (w *World) doAddMfa(o *Op, a, res M, run func(func() error), bindArgs func()) {
	in := w.in
	r := w.req(o.Op)
	w.bound(r, o)
	bindArgs()
	r.MfaToken.Type, r.MfaToken.Comment, r.MfaToken.Disabled = o.Ty, o.Cm, o.Dis
	a["ty"], a["cm"], a["dis"] = o.Ty, in.Text(o.Cm), o.Dis
	switch o.Ty {
	case "u2f":
		r.WebAuthn.Challenge = o.Se
		doc := o.Reg
		if doc == nil && o.Au != nil {
			doc = o.Au.Registration()
		}
		if doc != nil {
			r.WebAuthn.Register = enc(doc)
		}
		if o.Raw != "" {
			r.WebAuthn.Register = rawDoc(o)
		}
		a["se"] = in.Text(o.Se)
		a["wf"] = o.RegOK
		a["u2"] = in.Text("")
		a["kx"], a["rp"] = 0, 0
		if o.Au != nil {
			a["u2"] = in.Text(o.Au.Cred)
			x, y := o.Au.XY()
			a["kx"] = in.Tok("kx", x+y)
			a["rp"] = in.Tok("rp", o.Au.RPHash())
		}
	default:
		r.MfaToken.Secret, r.MfaToken.Algorithm, r.MfaToken.Period, r.MfaToken.Digits = o.Se, o.Al, o.Pe, o.Di
		a["se"], a["al"], a["pe"], a["di"] = in.Text(o.Se), in.Text(o.Al), o.Pe, o.Di
		d := o.Di
		if d == 0 {
			d = 6
		}
		waitAwayFromBoundary(o.Pe)
		now := time.Now()
		code := o.Code
		if o.Off != nil && o.Pe > 0 {
			code = o.Pad + rfc4226([]byte(o.Se), o.Al, d, uint64(now.Unix()/int64(o.Pe)+int64(*o.Off))) + o.Pad
		}
		r.MfaToken.Passcode = code
		a["offs"] = totpOffsets(o.Se, o.Al, d, o.Pe, code, now)
	}
	run(func() error { return w.db.AddMfaToken(r) })
	a["amb"] = false
	if o.Ty != "u2f" && o.Pe > 0 {
		// did a period end meanwhile?
		ms := time.Now().UnixNano() / 1e6 % (int64(o.Pe) * 1000)
		a["amb"] = ms < 15
	}
	for _, u := range w.db.Users {
		for _, x := range u.MfaTokens {
			w.mfIDs = appendNew(w.mfIDs, x.ID)
		}
	}
}

func rawDoc(o *Op) string {
	if o.RawText != "" {
		return o.RawText
	}
	return base64.StdEncoding.EncodeToString([]byte(o.Raw))
}

func (w *World) hand(f func() ([]int, int)) {
	ids, size := f()
	w.bundles = append(w.bundles, &handed{ids: ids, size: size, now: f})
	if len(w.bundles) > 12 {
		w.bundles = w.bundles[1:]
	}
}

// layout places the file of the world.
func (w *World) layout(fresh bool) {
	w.roam = true
	switch n := w.rnd.Intn(8); {
	case n == 0 && fresh: // in directories that do not exist
		w.sub = filepath.Join(w.dir, "data", "a", "b")
		w.path = filepath.Join(w.sub, "users.json")
	case n == 1: // a link to the file
		must(os.MkdirAll(filepath.Join(w.dir, "real"), 0700))
		must(os.WriteFile(filepath.Join(w.dir, "real", "db.json"), []byte("{}"), 0600))
		must(os.Symlink("../real/db.json", w.path))
	case n == 2: // a link to the directory
		must(os.MkdirAll(filepath.Join(w.dir, "real"), 0700))
		must(os.Remove(w.sub))
		must(os.Symlink("real", w.sub))
	}
}

func (w *World) relative(p string) string {
	wd, err := os.Getwd()
	must(err)
	p, err = filepath.Rel(wd, p)
	must(err)
	return p
}

func (w *World) homed(p string) string { return "~/" + w.relative(p) }

// spell is one of the ways to give a path.
func (w *World) spell(p string) string {
	if !w.roam {
		return p
	}
	switch w.rnd.Intn(7) {
	case 0:
		return w.homed(p)
	case 1:
		return w.relative(p)
	case 2:
		return "./" + w.relative(p)
	case 3:
		return filepath.Dir(p) + "//./" + filepath.Base(p)
	}
	return p
}

// isPath tells whether p is the path of the database, in whichever spelling.
func (w *World) isPath(p string) bool {
	if strings.HasPrefix(p, "~/") {
		p = filepath.Join(os.Getenv("HOME"), p[2:])
	}
	q, err := filepath.Abs(p)
	must(err)
	if q == w.path {
		return true
	}
	a, e1 := filepath.EvalSymlinks(q)
	b, e2 := filepath.EvalSymlinks(w.path)
	return e1 == nil && e2 == nil && a == b
}

// Open opens the database of the world, at first writing the fixture, if any.
func (w *World) Open(f *Fixture, mode os.FileMode) M {
	rec := M{"op": "Open", "a": M{"fx": f != nil}, "fault": false, "retry": false, "may": false, "leak": 0}
	if f != nil {
		f.Write(w.path, mode)
		for h, s := range f.Plain {
			w.plain[h] = s
		}
		w.auths = append(w.auths, f.Auths...)
	}
	rec["t0"] = w.now()
	err, pn, hang, _ := w.within("Open", "", []string{w.path}, func() (e error) { w.db, e = identity.NewDatabase(w.spell(w.path)); return })
	rec["t1"] = w.now()
	rec["err"] = fmt.Sprint(err, pn)
	rec["r"] = M{"ok": err == nil && pn == "" && !hang, "panic": pn != "", "hang": hang, "code": 0}
	sec := [][]int{}
	for h, s := range w.plain {
		sec = append(sec, []int{w.in.Tok("h", h), w.in.Text(s)})
	}
	rec["sec"] = sec
	if err != nil || pn != "" || hang || w.db == nil {
		w.dead = true
		w.db = nil
	}
	w.observe(rec)
	if w.db != nil {
		rec["post"] = w.pj.DB(w.db)
	}
	w.emit(rec)
	return rec
}

func isAlnum(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

func nonNil(a []string) []string {
	if a == nil {
		return []string{}
	}
	return a
}

func appendNew(a []string, s string) []string {
	for _, x := range a {
		if x == s {
			return a
		}
	}
	return append(a, s)
}
