//go:build linux && amd64

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
)

// The tracer runs the fsworld command under ptrace. Within the windows which
// that marks it records every file-system call concerning the scratch
// directory, and what the directory looks like after it; it can make any of
// these calls fail; and it keeps images of the directory as of each call. So
// what is observed are the effects, however the library brings them about.

type fsObject struct {
	ID   int      `json:"id"`
	Kind string   `json:"k"` // file, dir, link
	C    int      `json:"c"` // content
	M    int      `json:"m"` // mode
	D    bool     `json:"d"` // has data
	Link []string `json:"to"`
}

type fsEntry struct {
	D int    `json:"d"`
	N string `json:"n"`
	I int    `json:"i"`
}

type fsView struct {
	objects []fsObject
	entries []fsEntry
}

type tracee struct {
	in     bool // between entry and exit
	nr     uint64
	regs   syscall.PtraceRegs
	action string // what is done to the call
	errno  int
	mark   string
	event  *fsEvent
	muted  bool
}

type fsEvent struct {
	name    string
	path    string
	ino     int // id of the object concerned, of a synchronisation
	change  bool
	syncing string // "", "one", "all"
}

type tracer struct {
	pid     int
	root    string
	out     string
	images  bool
	ids     map[uint64]int
	nextID  int
	content map[string]int
	texts   []string
	threads map[int]*tracee
	// the open window
	open    bool
	op      string
	targets []string
	trap    int
	kind    string
	count   int
	fired   bool
	follow  bool
	recs    []M
	start   []string
	shots   []M
	nwin    int
	enc     *json.Encoder
	all     []M
	rnd     *uint64
	events  map[string]int
}

func (t *tracer) random(n int) int {
	*t.rnd = *t.rnd*6364136223846793005 + 1442695040888963407
	return int((*t.rnd >> 33) % uint64(n))
}

func (t *tracer) contentID(b []byte) int {
	s := string(b)
	if id, ok := t.content[s]; ok {
		return id
	}
	t.content[s] = len(t.content) + 1
	t.texts = append(t.texts, s)
	return len(t.content)
}

// view reads the scratch directory. Objects have ids of their own: numbers of
// inodes are used again.
func (t *tracer) view() *fsView {
	v := &fsView{objects: []fsObject{}, entries: []fsEntry{}}
	seen := map[uint64]bool{}
	var walk func(path string, fi os.FileInfo) int
	walk = func(path string, fi os.FileInfo) int {
		st := fi.Sys().(*syscall.Stat_t)
		id, ok := t.ids[st.Ino]
		if !ok {
			t.nextID++
			id = t.nextID
			t.ids[st.Ino] = id
		}
		if seen[st.Ino] {
			return id
		}
		seen[st.Ino] = true
		o := fsObject{ID: id, M: int(fi.Mode().Perm()), Link: []string{}}
		switch {
		case fi.IsDir():
			o.Kind = "dir"
			es, err := os.ReadDir(path)
			must(err)
			for _, e := range es {
				p := filepath.Join(path, e.Name())
				if efi, err := os.Lstat(p); err == nil {
					v.entries = append(v.entries, fsEntry{id, e.Name(), walk(p, efi)})
				}
			}
		case fi.Mode()&os.ModeSymlink != 0:
			o.Kind = "link"
			to, _ := os.Readlink(path)
			if !filepath.IsAbs(to) {
				to = filepath.Join(filepath.Dir(path), to)
			}
			o.Link = t.parts(to)
		default:
			o.Kind = "file"
			b, err := os.ReadFile(path)
			must(err)
			o.C, o.D = t.contentID(b), len(b) > 0
		}
		v.objects = append(v.objects, o)
		return id
	}
	fi, err := os.Lstat(t.root)
	must(err)
	walk(t.root, fi)
	for ino := range t.ids {
		if !seen[ino] {
			delete(t.ids, ino)
		}
	}
	return v
}

func (t *tracer) parts(path string) []string {
	r, err := filepath.Rel(t.root, path)
	must(err)
	if strings.HasPrefix(r, "..") {
		die("a link out of the scratch directory: %s", path)
	}
	return strings.Split(r, "/")
}

func (t *tracer) mem(tid int, addr uint64, max int) []byte {
	out := []byte{}
	buf := make([]byte, 256)
	for len(out) < max {
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), buf)
		if n <= 0 || err != nil {
			// the end of a mapping may be near
			n, err = syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), buf[:8])
			if n <= 0 || err != nil {
				break
			}
		}
		out = append(out, buf[:n]...)
		for _, c := range buf[:n] {
			if c == 0 {
				return out
			}
		}
	}
	return out
}

func (t *tracer) str(tid int, addr uint64) string {
	b := t.mem(tid, addr, 4096)
	for i, c := range b {
		if c == 0 {
			return string(b[:i])
		}
	}
	return string(b)
}

func (t *tracer) at(tid int, dirfd uint64, addr uint64) string {
	p := t.str(tid, addr)
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	base := ""
	if int32(dirfd) == -100 {
		base, _ = os.Readlink(fmt.Sprintf("/proc/%d/cwd", tid))
	} else {
		base = t.fd(tid, dirfd)
	}
	return filepath.Join(base, p)
}

func (t *tracer) fd(tid int, fd uint64) string {
	p, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, int32(fd)))
	return strings.TrimSuffix(p, " (deleted)")
}

// classify tells whether a call concerns the scratch directory.
func (t *tracer) classify(tid int, nr uint64, r *syscall.PtraceRegs) *fsEvent {
	const cwd = 0xffffffffffffff9c
	e := &fsEvent{}
	one := func(name string, p string, change bool) {
		e.name, e.path, e.change = name, p, change
	}
	two := func(name, p, q string) {
		e.name, e.path, e.change = name, p, true
		if !t.under(p) {
			e.path = q
		}
	}
	switch nr {
	case syscall.SYS_OPEN:
		one("open", t.at(tid, cwd, r.Rdi), r.Rsi&(syscall.O_CREAT|syscall.O_TRUNC) != 0)
	case syscall.SYS_OPENAT:
		one("open", t.at(tid, r.Rdi, r.Rsi), r.Rdx&(syscall.O_CREAT|syscall.O_TRUNC) != 0)
	case 437:
		one("open", t.at(tid, r.Rdi, r.Rsi), true)
	case syscall.SYS_CREAT:
		one("open", t.at(tid, cwd, r.Rdi), true)
	case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_READV, syscall.SYS_PREADV:
		one("read", t.fd(tid, r.Rdi), false)
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV, syscall.SYS_PWRITEV, 328:
		one("write", t.fd(tid, r.Rdi), true)
	case 326, syscall.SYS_SENDFILE: // copy_file_range
		one("write", t.fd(tid, r.Rdx), true)
		if nr == syscall.SYS_SENDFILE {
			one("write", t.fd(tid, r.Rdi), true)
		}
	case syscall.SYS_SPLICE:
		one("write", t.fd(tid, r.Rdx), true)
	case syscall.SYS_FTRUNCATE, syscall.SYS_FALLOCATE:
		one("truncate", t.fd(tid, r.Rdi), true)
	case syscall.SYS_TRUNCATE:
		one("truncate", t.at(tid, cwd, r.Rdi), true)
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_SYNC_FILE_RANGE:
		one("fsync", t.fd(tid, r.Rdi), false)
		if nr != syscall.SYS_SYNC_FILE_RANGE {
			e.syncing = "one"
			if fi, err := os.Stat(fmt.Sprintf("/proc/%d/fd/%d", tid, int32(r.Rdi))); err == nil {
				e.ino = t.ids[fi.Sys().(*syscall.Stat_t).Ino]
			}
		}
	case syscall.SYS_SYNC:
		one("sync", t.root, false)
		e.syncing = "all"
	case 306: // syncfs
		one("sync", t.fd(tid, r.Rdi), false)
		e.syncing = "all"
	case syscall.SYS_CLOSE:
		one("close", t.fd(tid, r.Rdi), false)
	case syscall.SYS_RENAME:
		two("rename", t.at(tid, cwd, r.Rdi), t.at(tid, cwd, r.Rsi))
	case syscall.SYS_RENAMEAT, 316:
		two("rename", t.at(tid, r.Rdi, r.Rsi), t.at(tid, r.Rdx, r.R10))
	case syscall.SYS_LINK:
		two("link", t.at(tid, cwd, r.Rdi), t.at(tid, cwd, r.Rsi))
	case syscall.SYS_LINKAT:
		two("link", t.at(tid, r.Rdi, r.Rsi), t.at(tid, r.Rdx, r.R10))
	case syscall.SYS_SYMLINK:
		one("symlink", t.at(tid, cwd, r.Rsi), true)
	case syscall.SYS_SYMLINKAT:
		one("symlink", t.at(tid, r.Rsi, r.Rdx), true)
	case syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		one("unlink", t.at(tid, cwd, r.Rdi), true)
	case syscall.SYS_UNLINKAT:
		one("unlink", t.at(tid, r.Rdi, r.Rsi), true)
	case syscall.SYS_MKDIR:
		one("mkdir", t.at(tid, cwd, r.Rdi), true)
	case syscall.SYS_MKDIRAT:
		one("mkdir", t.at(tid, r.Rdi, r.Rsi), true)
	case syscall.SYS_CHMOD, syscall.SYS_CHOWN, syscall.SYS_LCHOWN:
		one("chmod", t.at(tid, cwd, r.Rdi), true)
	case syscall.SYS_FCHMOD, syscall.SYS_FCHOWN:
		one("chmod", t.fd(tid, r.Rdi), true)
	case syscall.SYS_FCHMODAT, syscall.SYS_FCHOWNAT, 452:
		one("chmod", t.at(tid, r.Rdi, r.Rsi), true)
	case syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_ACCESS:
		one("stat", t.at(tid, cwd, r.Rdi), false)
	case syscall.SYS_FSTAT:
		one("stat", t.fd(tid, r.Rdi), false)
	case syscall.SYS_NEWFSTATAT, 332, syscall.SYS_FACCESSAT, 439:
		one("stat", t.at(tid, r.Rdi, r.Rsi), false)
	case syscall.SYS_READLINK:
		one("readlink", t.at(tid, cwd, r.Rdi), false)
	case syscall.SYS_READLINKAT:
		one("readlink", t.at(tid, r.Rdi, r.Rsi), false)
	case syscall.SYS_GETDENTS64:
		one("readdir", t.fd(tid, r.Rdi), false)
	default:
		return nil
	}
	if !t.under(e.path) {
		return nil
	}
	return e
}

func (t *tracer) under(p string) bool { return p == t.root || strings.HasPrefix(p, t.root+"/") }

// errnos are the ways in which calls fail: a full disk, a bad one, and no more
// of what the kernel has to give. Denied permissions to open are no such way:
// files whose directory cannot be written are written in place.
var errnos = map[string][]syscall.Errno{
	"open":     {syscall.EIO, syscall.EMFILE, syscall.ENFILE, syscall.ENOSPC, syscall.EROFS, syscall.ENOMEM, syscall.EDQUOT},
	"read":     {syscall.EIO},
	"write":    {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG},
	"truncate": {syscall.EIO, syscall.ENOSPC},
	"fsync":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	"sync":     {syscall.EIO},
	"close":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	"rename":   {syscall.EIO, syscall.ENOSPC, syscall.EROFS, syscall.EBUSY, syscall.EXDEV, syscall.EPERM, syscall.EACCES},
	"link":     {syscall.EIO, syscall.ENOSPC, syscall.EMLINK},
	"symlink":  {syscall.EIO, syscall.ENOSPC},
	"unlink":   {syscall.EIO, syscall.EBUSY, syscall.EROFS, syscall.EPERM},
	"mkdir":    {syscall.EIO, syscall.ENOSPC, syscall.EROFS, syscall.EMLINK},
	"chmod":    {syscall.EIO, syscall.EPERM, syscall.EROFS},
	"stat":     {syscall.EIO, syscall.ENOMEM},
	"readlink": {syscall.EIO},
	"readdir":  {syscall.EIO},
}

// mark handles the calls that mark the windows.
func (t *tracer) mark(path string) int {
	f := strings.Split(strings.TrimPrefix(path, "/verif-mark/"), "|")
	switch f[0] {
	case "begin": // begin|op|trap|target|target...
		t.open, t.op, t.fired, t.count, t.follow, t.trap, t.kind = true, f[1], false, 0, false, 0, ""
		if f[2] != "" {
			t.kind = f[2][:1]
			fmt.Sscan(f[2][1:], &t.trap)
		}
		t.targets = f[3:]
		t.recs, t.start, t.shots = nil, nil, nil
		t.nwin++
		t.event(&fsEvent{name: "begin"}, 0)
		for _, p := range t.targets {
			t.start = append(t.start, t.contentOf(p))
		}
		return -int(syscall.ENOENT)
	case "end": // end|ok
		t.open = false
		t.event(&fsEvent{name: "end"}, 0)
		t.finish(f[1] == "ok")
		if t.fired {
			return 0
		}
		return -int(syscall.ENOENT)
	}
	die("unknown mark %s", path)
	return 0
}

// contentOf has the path of a copy of a file as it is, or "".
func (t *tracer) contentOf(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	p := filepath.Join(t.out, fmt.Sprintf("c%d", t.contentID(b)))
	if _, err := os.Stat(p); err != nil {
		must(os.WriteFile(p, b, 0600))
	}
	return p
}

func (t *tracer) event(e *fsEvent, errno int) {
	v := t.view()
	t.events[e.name]++
	t.recs = append(t.recs, M{"w": t.nwin, "op": t.op, "ev": e.name, "ino": e.ino, "sync": e.syncing, "change": e.change, "errno": errno,
		"objects": v.objects, "entries": v.entries, "root": t.ids[t.rootIno()]})
	if t.images && e.change {
		d := filepath.Join(t.out, fmt.Sprintf("i%d_%d", t.nwin, len(t.recs)))
		copyTree(t.root, d)
		t.shots = append(t.shots, M{"dir": d, "op": t.op, "ev": e.name, "n": len(t.recs)})
	}
}

func (t *tracer) rootIno() uint64 {
	fi, err := os.Lstat(t.root)
	must(err)
	return fi.Sys().(*syscall.Stat_t).Ino
}

func copyTree(from, to string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(from, p)
		q := filepath.Join(to, r)
		switch {
		case fi.IsDir():
			return os.MkdirAll(q, 0700)
		case fi.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			return os.Symlink(l, q)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, fi.Mode().Perm())
	}))
}

// finish ends a window: its records are told how it ended.
func (t *tracer) finish(ok bool) {
	finals := []M{}
	for i, p := range t.targets {
		r, _ := filepath.Rel(t.root, p)
		finals = append(finals, M{"path": strings.Split(r, "/"), "main": i == 0})
		for _, s := range t.shots {
			if _, is := s["targets"]; !is {
				s["targets"] = []M{}
			}
			s["targets"] = append(s["targets"].([]M), M{"path": r, "old": t.start[i], "new": t.contentOf(p), "main": i == 0})
		}
	}
	changed := false
	for _, r := range t.recs {
		changed = changed || r["change"].(bool)
	}
	for i, r := range t.recs {
		r["ok"], r["fired"], r["targets"] = ok, t.fired, finals
		r["n"] = i + 1
		if changed { // nothing is to be said of windows in which nothing happens
			must(t.enc.Encode(r))
		}
	}
	t.all = append(t.all, t.shots...)
}

// alive is false for an error that says that the thread is no more: as the
// process ends, its threads do so anywhere.
func alive(err error) bool {
	if err == syscall.ESRCH {
		return false
	}
	must(err)
	return true
}

func (t *tracer) entry(tid int, x *tracee) {
	if !alive(syscall.PtraceGetRegs(tid, &x.regs)) {
		return
	}
	r := &x.regs
	x.nr = r.Orig_rax
	x.mark, x.event, x.action = "", nil, ""
	if x.nr == syscall.SYS_ACCESS {
		if p := t.str(tid, r.Rdi); strings.HasPrefix(p, "/verif-mark/") {
			x.mark = p
			return
		}
	}
	if !t.open {
		return
	}
	e := t.classify(tid, x.nr, r)
	if e == nil {
		return
	}
	x.event = e
	t.count++
	switch {
	case t.follow && (e.name == "write"):
		// the rest of a write that was cut short
		t.follow = false
		x.errno = int(syscall.ENOSPC)
		x.action = "fail"
	case t.trap == t.count && t.kind == "e":
		es := errnos[e.name]
		x.errno = int(es[t.random(len(es))])
		x.action = "fail"
		t.fired = true
	case t.trap == t.count && t.kind == "i":
		x.errno = int(syscall.EINTR)
		x.action = "fail"
		t.fired = true
	case t.trap == t.count && t.kind == "s":
		t.fired = true
		if e.name == "write" && x.nr == syscall.SYS_WRITE && r.Rdx > 1 {
			t.follow = true
			q := *r
			q.Rdx = uint64(1 + t.random(int(r.Rdx)-1))
			alive(syscall.PtraceSetRegs(tid, &q))
		}
	}
	if x.action == "fail" {
		q := *r
		q.Orig_rax = ^uint64(0)
		alive(syscall.PtraceSetRegs(tid, &q))
	}
}

func (t *tracer) exit(tid int, x *tracee) {
	var r syscall.PtraceRegs
	if !alive(syscall.PtraceGetRegs(tid, &r)) {
		return
	}
	if x.mark != "" {
		r.Rax = uint64(int64(t.mark(x.mark)))
		alive(syscall.PtraceSetRegs(tid, &r))
		return
	}
	if x.event == nil {
		return
	}
	if x.action == "fail" {
		r.Rax = uint64(int64(-x.errno))
		alive(syscall.PtraceSetRegs(tid, &r))
	}
	if !t.open {
		return
	}
	errno := 0
	if int64(r.Rax) < 0 && int64(r.Rax) > -4096 {
		errno = int(-int64(r.Rax))
	}
	e := x.event
	if errno != 0 {
		e.change, e.syncing = false, ""
	}
	if e.change || e.syncing != "" {
		t.event(e, errno)
	} else {
		t.events[e.name]++
	}
}

func cmdTracer(c *Ctx) {
	runtime.LockOSThread()
	root, err := filepath.EvalSymlinks(c.scratch)
	must(err)
	seed := uint64(c.seed)*7919 + 17
	f, err := os.Create(filepath.Join(c.out, "fs.ndjson"))
	must(err)
	t := &tracer{root: root, out: c.out, images: c.faults == 0, ids: map[uint64]int{}, content: map[string]int{}, threads: map[int]*tracee{}, enc: json.NewEncoder(f), rnd: &seed, events: map[string]int{}, all: []M{}}
	cmd := exec.Command(os.Args[0], "fsworld", "-seed", fmt.Sprint(c.seed), "-out", c.out, "-scratch", root, "-worlds", fmt.Sprint(c.worlds), "-steps", fmt.Sprint(c.steps),
		"-profile", c.profile, "-faults", fmt.Sprint(c.faults))
	cmd.Env = append(os.Environ(), "GODEBUG=asyncpreemptoff=1")
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true}
	must(cmd.Start())
	t.pid = cmd.Process.Pid
	var ws syscall.WaitStatus
	_, err = syscall.Wait4(t.pid, &ws, syscall.WALL, nil)
	must(err)
	const opts = syscall.PTRACE_O_TRACESYSGOOD | syscall.PTRACE_O_TRACECLONE | syscall.PTRACE_O_TRACEFORK | syscall.PTRACE_O_TRACEVFORK | syscall.PTRACE_O_TRACEEXEC | 0x100000
	must(syscall.PtraceSetOptions(t.pid, opts))
	t.threads[t.pid] = &tracee{}
	must(syscall.PtraceSyscall(t.pid, 0))
	status := -1
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			break
		}
		if ws.Exited() || ws.Signaled() {
			delete(t.threads, tid)
			if tid == t.pid {
				status = ws.ExitStatus()
				if ws.Signaled() {
					status = 128 + int(ws.Signal())
				}
				break
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		x := t.threads[tid]
		sig := 0
		switch s := ws.StopSignal(); {
		case x == nil:
			// a new thread
			t.threads[tid] = &tracee{}
			if s != syscall.SIGSTOP {
				sig = int(s)
			}
		case s == syscall.SIGTRAP|0x80:
			if x.in = !x.in; x.in {
				t.entry(tid, x)
			} else {
				t.exit(tid, x)
			}
		case s == syscall.SIGTRAP:
			// an event of the tracing itself
		case s == syscall.SIGSTOP && !x.muted:
			x.muted = true
		default:
			sig = int(s)
		}
		if err := syscall.PtraceSyscall(tid, sig); err != nil && err != syscall.ESRCH {
			die("ptrace: %v", err)
		}
	}
	must(f.Close())
	writeJSON(filepath.Join(c.out, "images.json"), t.all)
	names := []string{}
	for n := range t.events {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Printf("%s %d\n", n, t.events[n])
	}
	if status != 0 {
		os.Exit(status)
	}
}
