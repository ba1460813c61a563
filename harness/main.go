package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		die("usage: harness COMMAND ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	out := fs.String("out", "", "directory of the output")
	scratch := fs.String("scratch", "", "scratch directory")
	worlds := fs.Int("worlds", 10, "")
	steps := fs.Int("steps", 100, "")
	profile := fs.String("profile", "base", "")
	faults := fs.Int("faults", 6, "percentage of writes made to fail")
	input := fs.String("in", "", "")
	realHash := fs.Bool("real", false, "hash at the real cost")
	must(fs.Parse(os.Args[2:]))
	if !*realHash {
		clampBcrypt(4)
	}
	if *scratch == "" {
		d, err := os.MkdirTemp("", "verif")
		must(err)
		defer os.RemoveAll(d)
		*scratch = d
	}
	for _, d := range []*string{scratch, out, input} {
		if *d != "" {
			a, err := filepath.Abs(*d)
			must(err)
			*d = a
		}
	}
	// paths relative to the home or the working directory are below the
	// scratch directory
	must(os.Setenv("HOME", *scratch))
	must(os.Chdir(*scratch))
	c := &Ctx{seed: *seed, out: *out, scratch: *scratch, worlds: *worlds, steps: *steps, profile: *profile, faults: *faults, input: *input,
		in: NewInterner(), keys: loadKeys(), epoch: time.Now(), real: *realHash}
	f, ok := commands[cmd]
	if !ok {
		die("unknown command %s", cmd)
	}
	f(c)
}

// Ctx is what a command works with.
type Ctx struct {
	seed           int64
	out, scratch   string
	worlds, steps  int
	profile, input string
	faults         int
	in             *Interner
	keys           []*TestKey
	epoch          time.Time
	real           bool
}

var commands = map[string]func(c *Ctx){
	"random":    cmdRandom,
	"plan":      cmdPlan,
	"scenario":  cmdScenario,
	"totp":      cmdTotp,
	"qr":        cmdQr,
	"policy":    cmdPolicy,
	"lexical":   cmdLexical,
	"register":  cmdRegister,
	"assertion": cmdAssertion,
	"load":      cmdLoad,
	"publickey": cmdPublicKey,
	"strings":   cmdRandomStrings,
	"ids":       cmdIDs,
	"hashing":   cmdHashing,
	"person":    cmdPerson,
	"sentinel":  cmdSentinel,
	"objects":   cmdObjects,
	"tracer":    cmdTracer,
	"fsworld":   cmdFsWorld,
	"images":    cmdImages,
	"conc":      cmdConc,
}

func (c *Ctx) rnd(k int64) *rand.Rand { return rand.New(rand.NewSource(c.seed*1000003 + k)) }

var policies = []M{
	nil,
	{"password": M{"keep_versions": 2, "min_length": 8, "max_length": 128}, "user": M{"min_length": 3, "max_length": 50}},
	{"password": M{"keep_versions": 1, "min_length": 6, "max_length": 20}, "user": M{"min_length": 1, "max_length": 8}},
	{"password": M{"keep_versions": 3, "min_length": 10, "max_length": 90}, "user": M{"min_length": 5, "max_length": 30}},
	{"password": M{"keep_versions": 0, "min_length": 0, "max_length": 0}, "user": M{"min_length": 0, "max_length": 0}},
	{"password": M{"keep_versions": 4, "min_length": 1, "max_length": 72}, "user": M{"min_length": 2, "max_length": 64}},
}

// cmdRandom runs random histories.
func cmdRandom(c *Ctx) {
	tr := NewTrace(filepath.Join(c.out, "trace.ndjson"))
	for i := 0; i < c.worlds; i++ {
		r := c.rnd(int64(i))
		w := NewWorld(c.in, tr, r, filepath.Join(c.scratch, fmt.Sprintf("w%d", i)), c.keys, c.epoch)
		w.ep = i + 1
		w.scan = true
		var f *Fixture
		mode := os.FileMode(0600)
		if i%2 == 1 || c.profile == "many" {
			make := RichFixture
			if c.profile == "many" {
				make = ManyFixture
			}
			f = make(r, c.keys, policies[r.Intn(len(policies))])
			w.pj.base = []uint64{0, 0, 255, 65535, 1<<31 - 3, 1<<32 - 4, 1<<53 - 3}[r.Intn(7)]
			f.Doc["revision"] = w.pj.base + 2
			for _, k := range f.Keys {
				w.issued = append(w.issued, &Issued{Key: k})
				w.addSecret(k)
			}
			for _, s := range f.Plain {
				w.secrets = append(w.secrets, s)
			}
			mode = modes[r.Intn(len(modes))]
		}
		w.layout(f == nil)
		w.Open(f, mode)
		g := NewGen(w, r, c.profile, c.faults)
		if f == nil && i%4 == 0 {
			for k := 0; k < 3; k++ {
				w.Do(&Op{Op: "AddUser", Un: userPool[k], Em: mailPool[k], Pw: "Pw-" + rstr(r, 10), Fn: fullNames[2+k], Roles: []string{"admin", "corp/user"}})
			}
		}
		for s := 0; s < c.steps && !w.dead; s++ {
			w.Do(g.Next())
		}
		os.RemoveAll(w.dir)
	}
	tr.Close()
	c.in.Export(filepath.Join(c.out, "texts.json"))
}
