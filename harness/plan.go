package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A plan has walks through a model: sequences of operations, whose keys and
// tokens are named by slots.
type plan struct {
	Policy M
	Walks  [][]planOp
}

type planOp struct {
	Op    string
	A     M
	Fault bool
	Ok    bool
	Slot  int
}

func (o *planOp) str(k string) string { s, _ := o.A[k].(string); return s }
func (o *planOp) num(k string) int    { f, _ := o.A[k].(float64); return int(f) }
func (o *planOp) yes(k string) bool   { b, _ := o.A[k].(bool); return b }

// cmdPlan takes the walks of a plan through the real library.
func cmdPlan(c *Ctx) {
	var p plan
	b, err := os.ReadFile(c.input)
	must(err)
	must(json.Unmarshal(b, &p))
	tr := NewTrace(filepath.Join(c.out, "trace.ndjson"))
	for i, walk := range p.Walks {
		r := c.rnd(int64(i))
		w := NewWorld(c.in, tr, r, filepath.Join(c.scratch, fmt.Sprintf("w%d", i)), c.keys, c.epoch)
		w.ep = i + 1
		f := NewFixture()
		f.Doc["users"] = []M{}
		f.Doc["policy"] = p.Policy
		w.layout(false)
		w.Open(f, 0600)
		pw := &planWorld{World: w, slots: map[string]string{}, issuedAt: map[int]string{}, cred: map[string]*Authenticator{}}
		for k := range walk {
			if w.dead {
				break
			}
			pw.step(&walk[k])
		}
		os.RemoveAll(w.dir)
	}
	tr.Close()
	c.in.Export(filepath.Join(c.out, "texts.json"))
}

type planWorld struct {
	*World
	slots    map[string]string // kind and slot to id
	issuedAt map[int]string    // slot to API key
	cred     map[string]*Authenticator
}

// idsOf has the ids of the elements of a kind, by user and id.
func (w *planWorld) idsOf(kind string) map[string]string {
	m := map[string]string{}
	for _, u := range w.db.Users {
		switch kind {
		case "APIKey":
			for _, k := range u.APIKeys {
				m[u.ID+k.ID] = k.ID
			}
		case "PublicKey":
			for _, k := range u.PublicKeys {
				m[u.ID+k.ID] = k.ID
			}
		case "MfaToken":
			for _, k := range u.MfaTokens {
				m[u.ID+k.ID] = k.ID
			}
		}
	}
	return m
}

func (w *planWorld) auth(name string) *Authenticator {
	if w.cred[name] == nil {
		w.cred[name] = NewAuthenticator(w.rnd, strings.Trim(name, "<>"), "example.com")
	}
	return w.cred[name]
}

func (w *planWorld) keyNumber(ky int) int {
	n, kind := ky, "rsa"
	if ky > 10 {
		n, kind = ky-10, "pgp"
	}
	for i, k := range w.keys {
		if k.Kind == kind && (formOf(k, "pem") == "pem" || formOf(k, "pgp") == "pgp") {
			if n--; n == 0 {
				return i
			}
		}
	}
	die("no key %d", ky)
	return 0
}

func (w *planWorld) step(p *planOp) {
	r := w.rnd
	o := &Op{Op: p.Op, Un: p.str("un"), Em: p.str("em"), Pw: p.str("pw"), Old: p.str("old"), Fn: p.str("fn"), Us: p.str("us"), Cm: p.str("cm"),
		Dis: p.yes("dis"), Fl: p.yes("fl"), Ty: p.str("ty"), Se: p.str("se"), Al: p.str("al"), Pe: p.num("pe"), Di: p.num("di")}
	if l, ok := p.A["rl"].([]interface{}); ok {
		for _, x := range l {
			o.Roles = append(o.Roles, x.(string))
		}
	}
	if p.Fault {
		o.Fault = pick(r, []string{"nodir", "isdir", "notdir"})
	}
	kind := strings.TrimPrefix(strings.TrimPrefix(p.Op, "Add"), "Delete")
	switch p.Op {
	case "DeleteAPIKey", "DeletePublicKey", "DeleteMfaToken":
		o.ID = w.slots[fmt.Sprint(kind, p.num("id"))]
		if o.ID == "" {
			o.ID = rstr(r, 40)
		}
	case "LookupAPIKey":
		k := w.issuedAt[p.num("pf")]
		if k == "" {
			k = rstr(r, 80)
		}
		if strings.HasPrefix(p.str("pl"), "<forged") {
			// the bytes that the lookup is known to ignore are left alone
			n := 24 + r.Intn(48)
			x := byte('a')
			if k[n] == x {
				x = 'b'
			}
			switch r.Intn(3) {
			case 0:
				k = k[:n] + string(x) + k[n+1:]
			case 1:
				k = k[:n] + k[n+1:]
			case 2:
				k = k[:24] + rstr(r, 60)
			}
		}
		o.Payload = k
	case "AddPublicKey":
		o.Key = w.keyNumber(p.num("ky"))
		o.Form = pick(r, []string{p.str("form"), p.str("form") + "ws"})
		o.KCm = p.str("kcm")
	case "AddMfaToken":
		if o.Ty == "u2f" {
			o.Au = w.auth(p.str("u2"))
			o.RegOK = p.yes("wf")
			if !o.RegOK {
				doc := o.Au.Registration()
				delete(doc, pick(r, []string{"attestationObject", "type"}))
				o.Reg = doc
			}
		} else if l, ok := p.A["offs"].([]interface{}); ok && len(l) > 0 {
			n := int(l[0].(float64))
			o.Off = &n
		}
	case "AuthenticateUser":
		if p.yes("wa") {
			s := p.A["as"].(map[string]interface{})
			q := &planOp{A: s}
			a := w.auth(q.str("u2"))
			as := a.Good(q.str("ch"))
			o.Want, o.AsrBy, o.AsWF = q.str("want"), a, true
			if !q.yes("up") {
				as.Flags &^= 1
			}
			if !q.yes("sig") {
				as.Sig = pick(r, []string{"auth", "client", "authonly", "clientonly", "rawclient", "empty", "garbage", "bitflip"})
			}
			o.Asr = as
		}
	case "Copy":
		o.TargetPre = pick(r, []string{"", "file", "self", "stale", "home"})
	}
	var before map[string]string
	if strings.HasPrefix(p.Op, "Add") {
		before = w.idsOf(kind)
	}
	n := len(w.issued)
	rec := w.Do(o)
	if rec == nil || w.dead {
		return
	}
	if before != nil && p.Slot > 0 {
		for at, id := range w.idsOf(kind) {
			if _, ok := before[at]; !ok {
				w.slots[fmt.Sprint(kind, p.Slot)] = id
			}
		}
		if p.Op == "AddAPIKey" && len(w.issued) > n {
			w.issuedAt[p.Slot] = w.issued[len(w.issued)-1].Key
		}
	}
}
