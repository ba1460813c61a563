package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

// Concurrent histories: in each round some goroutines perform some operations
// on one database at the same time; the specification Lin looks for an order of
// the operations that explains the results and the final state.

// cel is what was seen of an element of a list.
type cel struct {
	kind, user, id, pf, h, cm, se string
	ky                            int
}

// cop is one operation of a concurrent history.
type cop struct {
	o      *Op
	t0, t1 int64
	err    error
	pn     string
	hang   bool
	code   int
	un, em string
	fn     string
	rl, ch []string
	fl     []bool
	pay    bool
	user   *identity.User
	n      int
	size   int
	key    string
	els    []cel
	metas  []identity.UserMetadata
	peek   *identity.Database
	offs   []int
	order  int
}

// conc is a world used concurrently.
type conc struct {
	w      *World
	clock  int64
	noise  uint64
	saved  M    // state in the file
	faulty bool // the directory of the file goes away now and then
}

// mix is a source of delays, for any goroutine.
func (c *conc) mix() uint64 {
	x := atomic.AddUint64(&c.noise, 0x9e3779b97f4a7c15)
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	return x
}

func (c *conc) disturb() {
	switch x := c.mix(); x % 8 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(x>>8%200) * time.Microsecond)
	}
}

// exec performs the operation of a record.
func (c *conc) exec(x *cop) {
	o, db := x.o, c.w.db
	r := requests.NewRequest()
	r.User.Username, r.User.Email = o.Un, o.Em
	var f func() error
	switch o.Op {
	case "AddUser":
		r.User.Password, r.User.FullName, r.User.Roles = o.Pw, o.Fn, append([]string{}, o.Roles...)
		f = func() error { return db.AddUser(r) }
	case "ChangeUserPassword":
		r.User.Password, r.User.OldPassword = o.Pw, o.Old
		f = func() error { return db.ChangeUserPassword(r) }
	case "AuthenticateUser":
		r.User.Password = o.Pw
		if o.Asr != nil {
			r.WebAuthn.Request = enc(o.As)
			r.WebAuthn.Challenge = o.Want
		}
		f = func() error { return db.AuthenticateUser(r) }
	case "IdentifyUser":
		r.Flags.Enabled = o.Fl
		f = func() error { return db.IdentifyUser(r) }
	case "GetUsers":
		f = func() error { return db.GetUsers(r) }
	case "GetUser":
		f = func() error { return db.GetUser(r) }
	case "GetUserCount":
		f = func() error { x.n = db.GetUserCount(); return nil }
	case "Save":
		f = func() error { return db.Save() }
	case "Copy":
		f = func() error { return db.Copy(o.Target) }
	case "Peek":
		f = func() (e error) { x.peek, e = identity.NewDatabase(c.w.path); return }
	case "AddAPIKey":
		r.Key.Usage, r.Key.Comment, r.Key.Disabled = o.Us, o.Cm, o.Dis
		f = func() error { return db.AddAPIKey(r) }
	case "DeleteAPIKey":
		r.Key.ID = o.ID
		f = func() error { return db.DeleteAPIKey(r) }
	case "GetAPIKeys":
		r.Key.Usage = o.Us
		f = func() error { return db.GetAPIKeys(r) }
	case "LookupAPIKey":
		r.User.Username, r.User.Email = "", ""
		r.Key.Payload = o.Payload
		f = func() error { return db.LookupAPIKey(r) }
	case "AddPublicKey":
		r.Key.Usage, r.Key.Comment, r.Key.Disabled = o.Us, o.Cm, o.Dis
		r.Key.Payload = c.w.keys[o.Key].Render(o.Form, o.KCm)
		f = func() error { return db.AddPublicKey(r) }
	case "DeletePublicKey":
		r.Key.ID = o.ID
		f = func() error { return db.DeletePublicKey(r) }
	case "GetPublicKeys":
		r.Key.Usage = o.Us
		f = func() error { return db.GetPublicKeys(r) }
	case "AddMfaToken":
		r.MfaToken.Type, r.MfaToken.Comment, r.MfaToken.Disabled = o.Ty, o.Cm, o.Dis
		if o.Ty == "u2f" {
			r.WebAuthn.Challenge, r.WebAuthn.Register = o.Se, enc(o.Reg)
		} else {
			r.MfaToken.Secret, r.MfaToken.Algorithm, r.MfaToken.Period, r.MfaToken.Digits = o.Se, o.Al, o.Pe, o.Di
			r.MfaToken.Passcode = o.Code
		}
		f = func() error { return db.AddMfaToken(r) }
	case "DeleteMfaToken":
		r.MfaToken.ID = o.ID
		f = func() error { return db.DeleteMfaToken(r) }
	case "GetMfaTokens":
		f = func() error { return db.GetMfaTokens(r) }
	case "Policy":
		f = func() error {
			x.rl = []string{db.GetUsernamePolicySummary(), db.GetUsernamePolicyRegex(), db.GetPasswordPolicySummary(), db.GetPasswordPolicyRegex()}
			if db.GetPath() != c.w.path {
				x.rl[0] = "?"
			}
			return nil
		}
	default:
		die("no concurrent %s", o.Op)
	}
	c.disturb()
	x.t0 = atomic.AddInt64(&c.clock, 1)
	x.err, x.pn, x.hang = call(f)
	x.t1 = atomic.AddInt64(&c.clock, 1)
	if x.hang {
		return
	}
	x.code = r.Response.Code
	switch o.Op {
	case "IdentifyUser":
		x.un, x.em, x.fn = r.User.Username, r.User.Email, r.User.FullName
		x.rl, x.ch = r.User.Roles, r.User.Challenges
		x.fl = []bool{r.Flags.MfaConfigured, r.Flags.MfaApp, r.Flags.MfaUniversal}
	case "LookupAPIKey":
		x.un, x.em = r.User.Username, r.User.Email
	}
	x.pay = r.Response.Payload != nil
	switch b := r.Response.Payload.(type) {
	case string:
		x.key = b
	case *identity.User:
		x.user = b
		if _, err := json.Marshal(b); err != nil {
			x.pn = "cannot be shown: " + err.Error()
		}
	case *identity.UserMetadataBundle:
		for _, m := range b.Get() {
			x.metas = append(x.metas, *m)
		}
		x.size = b.Size()
	case *identity.APIKeyBundle:
		for _, k := range b.Get() {
			x.els = append(x.els, cel{kind: "ak", user: o.Un, id: k.ID, pf: k.Prefix, h: k.Payload, cm: k.Comment})
		}
		x.size = b.Size()
	case *identity.PublicKeyBundle:
		for _, k := range b.Get() {
			kk := *k
			x.els = append(x.els, cel{kind: "pk", user: o.Un, id: k.ID, cm: k.Comment, ky: c.keyOf(&kk)})
		}
		x.size = b.Size()
	case *identity.MfaTokenBundle:
		for _, k := range b.Get() {
			x.els = append(x.els, cel{kind: "mf", user: o.Un, id: k.ID, cm: k.Comment, se: k.Secret})
		}
		x.size = b.Size()
	}
}

var keyLock sync.Mutex

func (c *conc) keyOf(k *identity.PublicKey) int {
	keyLock.Lock()
	defer keyLock.Unlock()
	return c.w.pj.keyIndex(k)
}

// task is an operation to be performed, which may depend on the previous
// results of its goroutine.
type task func(prev []*cop) *Op

func just(o *Op) task { return func([]*cop) *Op { return o } }

// mine finds what the goroutine added, in what it listed, or uses a default.
func mine(prev []*cop, kind, def string) string {
	var a *cop
	for _, p := range prev {
		if strings.HasPrefix(p.o.Op, "Add") && p.err == nil {
			a = p
		}
	}
	for _, p := range prev {
		for _, e := range p.els {
			if a == nil || e.kind != kind {
				continue
			}
			if kind == "ak" && len(a.key) >= 24 && e.pf == a.key[:24] || kind == "pk" && e.ky == a.o.Key+1 || kind == "mf" && e.cm == a.o.Cm {
				return e.id
			}
		}
	}
	return def
}

// bundle of what a round contends for
type stake struct {
	r       *rand.Rand
	u, v    *identity.User
	newName string
	newMail string
	pw      map[string]string
	keys    []string
	key     int
	cm, se  string
	n       int
}

func (c *conc) tasks(s *stake, g int, goal string) []task {
	r := s.r
	u := s.u
	if r.Intn(4) == 0 {
		u = s.v
	}
	at := func(op string) *Op {
		o := &Op{Op: op, Un: u.Username, Em: u.EmailAddresses[r.Intn(len(u.EmailAddresses))].Address, Us: "api"}
		if r.Intn(5) == 0 {
			o.Un = strings.ToUpper(o.Un)
		}
		return o
	}
	fresh := func() string { s.n++; return fmt.Sprintf("Pw-%d-%s", s.n, rstr(r, 8)) }
	some := func(ids []string) string {
		if len(ids) == 0 || r.Intn(12) == 0 {
			return "none"
		}
		return ids[r.Intn(min2(2, len(ids)))]
	}
	var aks, pks, mfs []string
	for _, k := range u.APIKeys {
		aks = append(aks, k.ID)
	}
	for _, k := range u.PublicKeys {
		pks = append(pks, k.ID)
	}
	for _, k := range u.MfaTokens {
		mfs = append(mfs, k.ID)
	}
	addMfa := func() *Op {
		o := at("AddMfaToken")
		o.Cm, o.Se = s.cm, s.se
		switch r.Intn(4) {
		case 0:
			o.Cm = "tok-" + rstr(r, 5)
		case 1:
			o.Se = "secret-" + rstr(r, 8)
		}
		if r.Intn(3) == 0 {
			o.Ty = "u2f"
			o.Au = NewAuthenticator(r, "cred-"+rstr(r, 8), "example.com")
			o.Reg = o.Au.Registration()
			o.RegOK = true
			return o
		}
		// the period before the current one, so that it may end meanwhile
		o.Ty, o.Al, o.Pe, o.Di = "totp", pick(r, []string{"sha1", "sha256", "sha512"}), 300, 6
		o.Code = rfc4226([]byte(o.Se), o.Al, 6, uint64(time.Now().Unix()/300-1))
		return o
	}
	addKey := func() *Op {
		o := at("AddPublicKey")
		o.Key = s.key
		o.Cm = "key " + rstr(r, 4)
		if c.w.keys[s.key].Kind == "pgp" {
			o.Form, o.Us = "pgp", "gpg"
		} else {
			o.Form, o.Us = pick(r, []string{"pem", "ssh"}), "ssh"
			if o.Form == "ssh" && r.Intn(2) == 0 {
				o.KCm = "by " + rstr(r, 3)
			}
		}
		return o
	}
	getPK := func() *Op {
		o := at("GetPublicKeys")
		o.Us = "ssh"
		if c.w.keys[s.key].Kind == "pgp" {
			o.Us = "gpg"
		}
		return o
	}
	pick1 := func(ts ...func() []task) []task { return ts[r.Intn(len(ts))]() }
	one := func(o *Op) func() []task { return func() []task { return []task{just(o)} } }

	addUser := func() []task {
		o := &Op{Op: "AddUser", Un: s.newName, Em: s.newMail, Pw: fresh(), Roles: []string{"admin", "corp/user"}}
		if r.Intn(2) == 0 {
			o.Fn = "Jane Doe"
		}
		switch r.Intn(4) {
		case 0:
			o.Un = strings.ToUpper(o.Un)
		case 1:
			o.Un = "user" + rstr(r, 6)
		case 2:
			o.Em = strings.ToUpper(o.Em[:1]) + o.Em[1:]
		}
		if r.Intn(6) == 0 {
			o.Em = "m" + rstr(r, 6) + "@example.net"
		}
		return []task{just(o), just(&Op{Op: "AuthenticateUser", Un: o.Un, Pw: o.Pw})}
	}
	change := func() []task {
		o := at("ChangeUserPassword")
		o.Pw, o.Old = fresh(), s.pw[u.ID]
		if r.Intn(8) == 0 {
			o.Old = "wrong-" + rstr(r, 5)
		}
		return []task{just(o), just(&Op{Op: "AuthenticateUser", Un: u.Username, Pw: pick(r, []string{o.Pw, o.Old})})}
	}
	login := func() []task {
		return []task{just(&Op{Op: "AuthenticateUser", Un: pick(r, []string{u.Username, u.EmailAddresses[0].Address, s.newName, "nobody1"}), Pw: pick(r, []string{s.pw[u.ID], "wrong-" + rstr(r, 5)})})}
	}
	assertion := func() []task {
		if len(c.w.auths) == 0 {
			return login()
		}
		au := c.w.auths[r.Intn(len(c.w.auths))]
		o := &Op{Op: "AuthenticateUser", Un: u.Username, AsrBy: au, Want: "want-" + rstr(r, 6), AsWF: true}
		o.Asr = au.Good(o.Want)
		if r.Intn(5) == 0 {
			o.Asr.Challenge = "other"
		}
		o.As = au.Encode(r, o.Asr)
		return []task{just(o)}
	}
	addAPI := func() []task {
		o := at("AddAPIKey")
		o.Cm = "api " + rstr(r, 4)
		t := []task{just(o)}
		if r.Intn(2) == 0 {
			t = append(t, just(&Op{Op: "GetAPIKeys", Un: o.Un, Em: o.Em, Us: "api"}), func(prev []*cop) *Op {
				return &Op{Op: "DeleteAPIKey", Un: o.Un, Em: o.Em, ID: mine(prev, "ak", "none")}
			})
		} else {
			t = append(t, func(prev []*cop) *Op {
				k := "none"
				for _, p := range prev {
					if p.key != "" {
						k = p.key
					}
				}
				return &Op{Op: "LookupAPIKey", Payload: k}
			})
		}
		return t
	}
	addPK := func() []task {
		o := addKey()
		t := []task{just(o)}
		if r.Intn(2) == 0 {
			t = append(t, just(&Op{Op: "GetPublicKeys", Un: o.Un, Em: o.Em, Us: o.Us}), func(prev []*cop) *Op {
				return &Op{Op: "DeletePublicKey", Un: o.Un, Em: o.Em, ID: mine(prev, "pk", "none")}
			})
		}
		return t
	}
	addMF := func() []task {
		o := addMfa()
		t := []task{just(o)}
		if r.Intn(2) == 0 {
			t = append(t, just(&Op{Op: "GetMfaTokens", Un: o.Un, Em: o.Em}), func(prev []*cop) *Op {
				return &Op{Op: "DeleteMfaToken", Un: o.Un, Em: o.Em, ID: mine(prev, "mf", "none")}
			})
		}
		return t
	}
	del := func(op string, ids []string) func() []task {
		o := at(op)
		o.ID = some(ids)
		return one(o)
	}
	fl := r.Intn(2) == 0
	peek := func() []task {
		if c.faulty { // it would make a new file
			return []task{just(&Op{Op: "GetUserCount"})}
		}
		return []task{just(&Op{Op: "Peek"})}
	}
	read := func() []task {
		return pick1(
			one(at("GetUsers")), one(at("GetUser")), one(&Op{Op: "GetUserCount"}), one(at("GetAPIKeys")), one(getPK()), one(at("GetMfaTokens")),
			one(&Op{Op: "IdentifyUser", Un: pick(r, []string{u.Username, u.EmailAddresses[0].Address, s.newName}), Fl: fl}),
			peek, one(&Op{Op: "Policy"}), login, assertion,
			func() []task {
				if len(s.keys) == 0 {
					return login()
				}
				return []task{just(&Op{Op: "LookupAPIKey", Payload: s.keys[r.Intn(len(s.keys))]})}
			})
	}
	write := func() []task {
		return pick1(
			addUser, change, addAPI, addPK, addMF,
			del("DeleteAPIKey", aks), del("DeletePublicKey", pks), del("DeleteMfaToken", mfs),
			one(&Op{Op: "Save"}),
			func() []task {
				s.n++
				return []task{just(&Op{Op: "Copy", Target: filepath.Join(c.w.dir, "copy", fmt.Sprintf("c%d.json", s.n))})}
			})
	}
	var ts []task
	if g < 2 || r.Intn(2) == 0 {
		switch goal {
		case "user":
			ts = addUser()
		case "password":
			ts = change()
		case "api":
			ts = pick1(addAPI, del("DeleteAPIKey", aks))
		case "pub":
			ts = pick1(addPK, addPK, del("DeletePublicKey", pks))
		case "mfa":
			ts = pick1(addMF, addMF, del("DeleteMfaToken", mfs))
		case "file":
			ts = pick1(write, one(&Op{Op: "Save"}), peek, func() []task {
				s.n++
				return []task{just(&Op{Op: "Copy", Target: filepath.Join(c.w.dir, "copy", fmt.Sprintf("c%d.json", s.n))})}
			})
		default:
			ts = write()
		}
	} else {
		ts = append(read(), read()...)
	}
	if len(ts) < 3 && r.Intn(2) == 0 {
		ts = append(ts, read()...)
	}
	if len(ts) < 3 && r.Intn(4) == 0 {
		ts = append(ts, write()...)
	}
	if len(ts) > 4 {
		ts = ts[:4]
	}
	return ts
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var goals = []string{"user", "password", "api", "pub", "mfa", "file", "any", "any"}

// round performs one history, and records it.
func (c *conc) round(r *rand.Rand, emit *sync.Mutex) bool {
	w := c.w
	db := w.db
	us := db.Users
	s := &stake{r: r, pw: map[string]string{}}
	var with []*identity.User
	for _, u := range us {
		if len(u.EmailAddresses) > 0 {
			with = append(with, u)
		}
		for _, p := range u.Passwords {
			if t, ok := w.plain[p.Hash]; ok && !p.Disabled && !p.Expired {
				s.pw[u.ID] = t
			}
		}
	}
	s.u, s.v = with[r.Intn(len(with))], with[r.Intn(len(with))]
	s.newName, s.newMail = "user"+rstr(r, 5), "mail"+rstr(r, 5)+"@example.com"
	s.key = r.Intn(len(w.keys))
	for formOf(w.keys[s.key], "pem") == "bad" && formOf(w.keys[s.key], "pgp") == "bad" {
		s.key = r.Intn(len(w.keys))
	}
	s.cm, s.se = "tok-"+rstr(r, 5), "secret-"+rstr(r, 8)
	for _, i := range w.issued {
		s.keys = append(s.keys, i.Key)
	}
	if len(s.keys) > 4 {
		s.keys = s.keys[len(s.keys)-4:]
	}
	goal := goals[r.Intn(len(goals))]
	c.faulty = r.Intn(5) == 0
	var plans [][]task
	n := 2 + r.Intn(3)
	for g := 0; g < n; g++ {
		plans = append(plans, c.tasks(s, g, goal))
	}
	emit.Lock()
	start := strip(w.pj.DB(db))
	if c.saved == nil {
		c.saved = start
	}
	sec := [][]int{}
	for h, t := range w.plain {
		sec = append(sec, []int{w.in.Tok("h", h), w.in.Text(t)})
	}
	emit.Unlock()
	old := map[string]bool{} // hashes and ids there already
	for _, u := range us {
		for _, p := range u.Passwords {
			old[p.Hash] = true
		}
		for _, e := range elements(c, u) {
			old[e.kind+e.user+e.id] = true
		}
	}

	done := make([][]*cop, n)
	var wg sync.WaitGroup
	gate := make(chan bool)
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-gate
			for _, t := range plans[g] {
				x := &cop{o: t(done[g])}
				c.exec(x)
				done[g] = append(done[g], x)
				if x.hang {
					return
				}
			}
		}(g)
	}
	close(gate)
	quit, gone := make(chan bool), make(chan bool)
	go func() {
		defer close(gone)
		away := filepath.Join(w.dir, "away")
		for c.faulty {
			select {
			case <-quit:
				return
			default:
			}
			must(os.Rename(w.sub, away))
			time.Sleep(time.Duration(c.mix()%600) * time.Microsecond)
			for k := 0; os.Rename(away, w.sub) != nil; k++ {
				if k > 100 {
					die("the directory cannot be moved back")
				}
				os.RemoveAll(w.sub)
			}
			time.Sleep(time.Duration(c.mix()%2000) * time.Microsecond)
		}
	}()
	wg.Wait()
	close(quit)
	<-gone

	emit.Lock()
	defer emit.Unlock()
	all := []*cop{}
	hang := false
	for _, d := range done {
		for _, x := range d {
			all = append(all, x)
			hang = hang || x.hang
		}
	}
	w.seq++
	rec := M{"i": w.seq, "ep": w.ep, "goal": goal, "faulty": c.faulty, "hang": hang, "init": start, "saved": c.saved, "sec": sec, "final": start, "file": start}
	// candidates for the values a request does not determine
	seen := []cel{}
	if !hang {
		for _, u := range db.Users {
			seen = append(seen, elements(c, u)...)
		}
		for _, x := range all {
			seen = append(seen, x.els...)
			if x.o.Op == "Copy" && x.err == nil && x.pn == "" {
				if db, err := w.load(x.o.Target); err == nil {
					x.peek = db
				}
				os.Remove(x.o.Target)
			}
			if x.user != nil {
				seen = append(seen, elements(c, x.user)...)
			}
			if x.peek != nil {
				for _, u := range x.peek.Users {
					seen = append(seen, elements(c, u)...)
				}
			}
		}
		rec["final"] = strip(w.pj.DB(db))
		rec["file"] = M{}
		var f *identity.Database
		err, pn, _ := call(func() (e error) { f, e = w.load(w.path); return })
		if err == nil && pn == "" {
			rec["file"] = strip(w.pj.DB(f))
		} else {
			rec["file"] = M{"us": []M{}, "rv": -1, "lm": 0, "d": 0, "pol": M{}, "err": fmt.Sprint(err, pn)}
		}
	}
	c.saved = rec["file"].(M)
	ops := []M{}
	for _, x := range all {
		ops = append(ops, c.record(x, seen, old, hang))
	}
	rec["ops"] = ops
	w.tr.Emit(rec)
	return !hang
}

// load loads a copy of a file.
func (w *World) load(path string) (*identity.Database, error) {
	tmp := filepath.Join(w.dir, "probe")
	must(os.MkdirAll(tmp, 0700))
	defer os.RemoveAll(tmp)
	p := filepath.Join(tmp, "p.json")
	if err := copyFile(path, p); err != nil {
		return nil, err
	}
	return identity.NewDatabase(p)
}

func elements(c *conc, u *identity.User) []cel {
	r := []cel{}
	for _, k := range u.APIKeys {
		r = append(r, cel{kind: "ak", user: strings.ToLower(u.Username), id: k.ID, pf: k.Prefix, h: k.Payload, cm: k.Comment})
	}
	for _, k := range u.PublicKeys {
		r = append(r, cel{kind: "pk", user: strings.ToLower(u.Username), id: k.ID, cm: k.Comment, ky: c.keyOf(k)})
	}
	for _, k := range u.MfaTokens {
		r = append(r, cel{kind: "mf", user: strings.ToLower(u.Username), id: k.ID, cm: k.Comment, se: k.Secret})
	}
	return r
}

// strip takes the times and digests out of a state.
func strip(s M) M {
	s["lm"], s["d"] = 0, 0
	for _, u := range s["us"].([]M) {
		stripUser(u)
	}
	return s
}

func stripUser(u M) M {
	u["lm"], u["cr"], u["x"] = 0, 0, 0
	for _, k := range []string{"pw", "pk", "ak", "mf"} {
		for _, e := range u[k].([]M) {
			e["d"] = 0
		}
	}
	return u
}

func (c *conc) record(x *cop, seen []cel, old map[string]bool, hang bool) M {
	w, in, o := c.w, c.w.in, x.o
	a := M{"un": in.Text(o.Un), "em": in.Text(o.Em)}
	q := M{"ok": x.err == nil && x.pn == "" && !x.hang, "panic": x.pn != "", "hang": x.hang, "code": x.code, "pay": x.pay}
	cand := []M{}
	f := func() M {
		m := M{"id": 0, "h": 0, "d": 0, "x": 0, "pf": 0, "cm": 0, "ds": make([]int, 40), "ut": 0, "ct": 0, "dt": 0}
		cand = append(cand, m)
		return m
	}
	ok := q["ok"].(bool)
	// the new hashes that are of the given text
	hashes := func(u *identity.User) {
		for _, p := range u.Passwords {
			if !old[p.Hash] && bcrypt.CompareHashAndPassword([]byte(p.Hash), []byte(o.Pw)) == nil {
				w.plain[p.Hash] = o.Pw
				m := f()
				m["h"], m["id"] = in.Tok("h", p.Hash), in.Tok("id", u.ID)
			}
		}
	}
	found := func(kind string, ok func(e cel) bool) {
		dup := map[string]bool{}
		for _, e := range seen {
			un := strings.ToLower(o.Un)
			if e.kind == kind && strings.ToLower(e.user) == un && (kind == "pk" || !old[kind+un+e.id]) && ok(e) && !dup[e.id+e.cm] {
				dup[e.id+e.cm] = true
				m := f()
				m["id"], m["pf"], m["h"], m["cm"] = in.Tok("id", e.id), in.Tok("pf", e.pf), in.Tok("h", e.h), in.Text(e.cm)
			}
		}
	}
	switch o.Op {
	case "AddUser":
		a["pw"], a["fn"], a["rl"] = in.Text(o.Pw), in.Text(o.Fn), in.Texts(o.Roles)
		if ok && !hang {
			for _, u := range w.db.Users {
				if strings.EqualFold(u.Username, o.Un) {
					hashes(u)
				}
			}
		}
	case "ChangeUserPassword":
		a["pw"], a["old"] = in.Text(o.Pw), in.Text(o.Old)
		if ok && !hang {
			for _, u := range w.db.Users {
				if strings.EqualFold(u.Username, o.Un) {
					hashes(u)
				}
			}
		}
	case "AuthenticateUser":
		a["pw"], a["wa"] = in.Text(o.Pw), o.Asr != nil
		if o.Asr != nil {
			a["as"] = w.assertionArgs(o)
		}
		q["hn"], q["hc"] = 1, []int{10}
	case "IdentifyUser":
		a["fl"] = o.Fl
		q["un"], q["em"], q["fn"] = in.Text(x.un), in.Text(x.em), in.Text(x.fn)
		q["rl"], q["ch"], q["fl"] = in.Texts(x.rl), nonNil(x.ch), x.fl
	case "GetUsers":
		lst := []M{}
		for _, m := range x.metas {
			lst = append(lst, M{"id": in.Tok("id", m.ID), "un": in.Text(m.Username), "em": in.Text(m.Email), "nm": in.Text(m.Name), "rv": m.Revision, "lm": 0, "cr": 0})
		}
		q["lst"], q["size"] = lst, x.size
	case "GetUser":
		q["usr"] = M{}
		if x.user != nil {
			q["usr"] = stripUser(w.pj.User(x.user))
		}
	case "GetUserCount":
		q["n"] = x.n
	case "Copy", "Peek":
		q["st"] = M{"us": []M{}, "rv": -1, "lm": 0, "d": 0, "pol": M{}}
		a["bad"] = false
		if x.peek != nil {
			q["st"] = strip(w.pj.DB(x.peek))
		}
	case "AddAPIKey":
		a["us"], a["cm"], a["dis"] = in.Text(o.Us), in.Text(o.Cm), o.Dis
		q["key"] = in.Text(x.key)
		if ok && len(x.key) >= 24 {
			found("ak", func(e cel) bool {
				if e.pf != x.key[:24] {
					return false
				}
				w.plain[e.h] = x.key
				return bcrypt.CompareHashAndPassword([]byte(e.h), []byte(x.key)) == nil
			})
			if len(cand) == 0 { // it never appeared again
				m := f()
				m["id"], m["pf"], m["h"] = in.Tok("id", "?"+x.key), in.Tok("pf", x.key[:24]), in.Tok("h", "?"+x.key)
			}
			w.issued = append(w.issued, &Issued{Key: x.key})
		}
	case "DeleteAPIKey", "DeletePublicKey", "DeleteMfaToken":
		a["id"] = in.Tok("id", o.ID)
	case "GetAPIKeys", "GetPublicKeys", "GetMfaTokens":
		a["us"] = in.Text(o.Us)
		ids, ds := []int{}, []int{}
		for _, e := range x.els {
			ids, ds = append(ids, in.Tok("id", e.id)), append(ds, 0)
		}
		q["ids"], q["ds"], q["size"] = ids, ds, x.size
	case "LookupAPIKey":
		a["pl"], a["pf"] = in.Text(o.Payload), 0
		if len(o.Payload) >= 24 {
			a["pf"] = in.Tok("pf", o.Payload[:24])
		}
		q["un"], q["em"] = in.Text(x.un), in.Text(x.em)
	case "AddPublicKey":
		a["us"], a["cm"], a["dis"] = in.Text(o.Us), in.Text(o.Cm), o.Dis
		a["ky"], a["form"], a["kcm"] = o.Key+1, formOf(w.keys[o.Key], o.Form), in.Text(o.KCm)
		if ok {
			found("pk", func(e cel) bool { return e.ky == o.Key+1 })
			if len(cand) == 0 {
				f()["id"] = in.Tok("id", fmt.Sprintf("?%p", x))
			}
		}
	case "AddMfaToken":
		a["ty"], a["cm"], a["dis"], a["se"] = o.Ty, in.Text(o.Cm), o.Dis, in.Text(o.Se)
		a["amb"] = false
		if o.Ty == "u2f" {
			xx, yy := o.Au.XY()
			a["wf"], a["u2"], a["kx"], a["rp"] = o.RegOK, in.Text(o.Au.Cred), in.Tok("kx", xx+yy), in.Tok("rp", o.Au.RPHash())
		} else {
			a["al"], a["pe"], a["di"] = in.Text(o.Al), o.Pe, o.Di
			a["offs"] = []int{-1}
		}
		if ok {
			found("mf", func(e cel) bool { return e.cm == o.Cm && e.se == o.Se })
			if len(cand) == 0 {
				f()["id"] = in.Tok("id", fmt.Sprintf("?%p", x))
			}
			if o.Ty == "u2f" {
				w.auths = append(w.auths, o.Au)
				if len(w.auths) > 4 {
					w.auths = w.auths[1:]
				}
			}
		}
	case "Policy":
		if len(x.rl) == 4 {
			q["us"], q["ur"], q["ps"], q["pr"] = in.Text(x.rl[0]), in.Text(x.rl[1]), in.Text(x.rl[2]), in.Text(x.rl[3])
		}
	}
	if len(cand) == 0 && !ok {
		f()
	}
	if len(cand) == 0 && o.Op != "AddUser" && o.Op != "ChangeUserPassword" && o.Op != "AddAPIKey" {
		f()
	}
	err := ""
	if x.err != nil {
		err = x.err.Error()
	}
	return M{"op": o.Op, "a": a, "r": q, "t0": x.t0, "t1": x.t1, "f": cand, "err": err + x.pn}
}

// cmdConc: worlds databases at the same time, in steps rounds each.
func cmdConc(c *Ctx) {
	tr := NewTrace(filepath.Join(c.out, "trace.ndjson"))
	var emit sync.Mutex
	var wg sync.WaitGroup
	noise := uint64(c.seed)
	cc := &conc{noise: noise}
	onBcrypt(func(kind string, cost int) { cc.disturb() })
	for i := 0; i < c.worlds; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := c.rnd(int64(i))
			for k := 0; k < c.steps; k++ {
				if k%12 != 0 {
					continue
				}
				emit.Lock()
				w := NewWorld(c.in, tr, r, filepath.Join(c.scratch, fmt.Sprintf("w%d-%d", i, k)), c.keys, c.epoch)
				w.ep = i*1000 + k + 1
				must(os.MkdirAll(filepath.Join(w.dir, "copy"), 0700))
				f := concFixture(r, c.keys)
				f.Write(w.path, 0600)
				for h, s := range f.Plain {
					w.plain[h] = s
				}
				w.auths = append(w.auths, f.Auths...)
				for _, k := range f.Keys {
					w.issued = append(w.issued, &Issued{Key: k})
				}
				var err error
				w.db, err = identity.NewDatabase(w.path)
				must(err)
				emit.Unlock()
				co := &conc{w: w, noise: uint64(r.Int63())}
				good := true
				for s := 0; s < 12 && good; s++ {
					good = co.round(r, &emit)
				}
				os.RemoveAll(w.dir)
				if !good {
					return
				}
			}
		}(i)
	}
	wg.Wait()
	onBcrypt(nil)
	tr.Close()
	c.in.Export(filepath.Join(c.out, "texts.json"))
}

// concFixture has three users with something to contend for.
func concFixture(r *rand.Rand, keys []*TestKey) *Fixture {
	f := NewFixture()
	f.Doc["policy"] = M{"password": M{"keep_versions": 30, "min_length": 8, "max_length": 128}, "user": M{"min_length": 3, "max_length": 50}}
	users := []M{}
	for i, n := range []string{"alice", "bob", "carol"} {
		u := f.user(r, n, []string{n + "@example.com", n + "2@example.org"}, "", "", [][2]string{{"", "viewer"}})
		u["passwords"] = []M{f.password("Pw-"+rstr(r, 10), false, false)}
		if i < 2 {
			u["api_keys"] = []M{f.apikey(r, "k1", false, false), f.apikey(r, "k2", false, false)}
			u["public_keys"] = []M{f.pubkey(r, keys[i], "pem", "p1", false, false)}
			u["mfa_tokens"] = []M{f.totp(r, "t1", "secret-"+rstr(r, 8), false, false), f.u2f(r, NewAuthenticator(r, "cred-"+rstr(r, 5), "example.com"), "u1", "chal-"+rstr(r, 6), false, false)}
		}
		users = append(users, u)
	}
	f.Doc["users"] = users
	return f
}
