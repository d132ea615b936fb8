package verifsimrt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- disk model

type inode struct {
	id      int
	kind    byte // f d l
	data    []byte
	to      string
	mode    fs.FileMode
	mtime   int64
	temp    bool
	dur     []byte // content at the last sync
	pending []wr   // writes since the last sync
	clean   bool   // durable content equals content
	flushed int    // pending writes that a close has brought to the server
	wopen   int    // handles open for writing
	wname   string // path it was opened for writing by
}

type wr struct {
	off   int64
	data  []byte
	trunc int64 // >= 0: truncate to this size
}

type nameOp struct {
	name string
	ino  *inode // nil: unlinked
	old  *inode
	dur  bool
}

var (
	names     strTab[*inode]
	durNames  strTab[*inode]
	nameOps   []*nameOp
	inodes    []*inode
	ops       []Op
	opCount   strTab[int]
	fired     []Fired
	canon     strTab[string]
	nTemp     int
	stuckErr  strTab[string] // sticky faults
	openFiles int
)

func newInode(kind byte) *inode {
	n := &inode{id: len(inodes) + 1, kind: kind, mode: 0644, mtime: now}
	inodes = append(inodes, n)
	return n
}

func setupFS() {
	for _, d := range []string{"/", "/tmp", cfg.Cwd} {
		n := newInode('d')
		n.mode = 0755 | fs.ModeDir
		names.set(d, n)
	}
	for _, f := range cfg.Files {
		var n *inode
		for d := path.Dir(f.Path); names.get(d) == nil; d = path.Dir(d) {
			x := newInode('d')
			x.mode = 0755 | fs.ModeDir
			names.set(d, x)
		}
		switch f.Kind {
		case "dir":
			n = newInode('d')
			n.mode = 0755 | fs.ModeDir
		case "symlink":
			n = newInode('l')
			n.to = f.To
			n.mode = 0777 | fs.ModeSymlink
		case "hardlink":
			if n = names.get(f.To); n == nil {
				continue // a link to nothing
			}
		default:
			n = newInode('f')
			n.data = append([]byte(nil), f.Data...)
			n.dur = append([]byte(nil), f.Data...)
			n.clean = true
			if f.Mode != 0 {
				n.mode = fs.FileMode(f.Mode)
			}
		}
		names.set(f.Path, n)
	}
	for i, k := range names.ks {
		durNames.set(k, names.vs[i])
	}
}

func usedSpace() int64 {
	seen := map[*inode]bool{}
	var t int64
	for _, n := range names.vs {
		if !seen[n] {
			seen[n] = true
			t += int64(len(n.data))
		}
	}
	return t
}

func setName(p string, n *inode) {
	nameOps = append(nameOps, &nameOp{name: p, ino: n, old: names.get(p)})
	if n == nil {
		names.del(p)
	} else {
		names.set(p, n)
	}
}

func (n *inode) truncate(sz int64) {
	if int64(len(n.data)) == sz {
		return
	}
	if int64(len(n.data)) > sz {
		n.data = n.data[:sz:sz]
	} else {
		n.data = append(n.data[:len(n.data):len(n.data)], make([]byte, sz-int64(len(n.data)))...)
	}
	n.pending = append(n.pending, wr{trunc: sz})
	n.clean = false
	n.mtime = now
}

func (n *inode) write(off int64, p []byte) {
	if len(p) == 0 {
		return
	}
	end := off + int64(len(p))
	if end > int64(len(n.data)) {
		if end <= int64(cap(n.data)) {
			old := len(n.data)
			n.data = n.data[:end]
			for i := int64(old); i < off; i++ {
				n.data[i] = 0
			}
		} else {
			nd := make([]byte, end, end+end/2+4096)
			copy(nd, n.data)
			n.data = nd
		}
	}
	copy(n.data[off:], p)
	n.pending = append(n.pending, wr{off: off, data: append([]byte(nil), p...), trunc: -1})
	n.clean = false
	n.mtime = now
}

func (n *inode) syncAll() {
	n.dur = append([]byte(nil), n.data...)
	n.pending = nil
	n.flushed = 0
	n.clean = true
	for _, o := range nameOps {
		if o.ino == n && !o.dur {
			o.dur = true
			durNames.set(o.name, n)
		}
	}
}

// writeback is asked when a file is synced or closed, or when the process
// ends with the file still open: writes that were accepted may turn out to
// have been lost (quota, server, medium). The error is told once, here.
func (n *inode) writeback(rp string, at int) error {
	if n.kind != 'f' || len(n.pending) <= n.flushed {
		return nil
	}
	cp := canonPath(rp)
	key := "writeback " + cp
	nth := opCount.get(key)
	opCount.set(key, nth+1)
	for i := range cfg.Faults {
		f := &cfg.Faults[i]
		if f.Op != "writeback" || f.Path != cp || f.Nth != nth {
			continue
		}
		fired = append(fired, Fired{i, at, f.Kind})
		n.lose(f)
		return errOf(f)
	}
	n.flushed = len(n.pending)
	return nil
}

// lose drops some of the writes not yet brought to the server.
func (n *inode) lose(f *Fault) {
	late := n.pending[n.flushed:]
	var kept []wr
	if f.When == "hole" { // one of them
		var data []int // sizes are set at once, not written back
		for i, w := range late {
			if w.trunc < 0 {
				data = append(data, i)
			}
		}
		k := len(late)
		if len(data) > 0 {
			k = int(float64(len(data)) * f.Part)
			if k >= len(data) {
				k = len(data) - 1
			}
			k = data[k]
		}
		for i, w := range late {
			if i != k {
				kept = append(kept, w)
			}
		}
	} else { // everything after some byte
		total := 0
		for _, w := range late {
			total += len(w.data)
		}
		left := int(float64(total) * f.Part)
		for _, w := range late {
			if w.trunc < 0 {
				if left < len(w.data) {
					w.data = w.data[:left]
				}
				left -= len(w.data)
				if len(w.data) == 0 {
					continue
				}
			}
			kept = append(kept, w)
		}
	}
	b := append([]byte(nil), n.dur...)
	n.pending = append(n.pending[:n.flushed:n.flushed], kept...)
	for _, w := range n.pending {
		b = applyWr(b, w)
	}
	n.data = append([]byte(nil), b...)
	n.flushed = len(n.pending)
}

// processEnds closes what the program has left open.
func processEnds() {
	for _, n := range inodes {
		if n.wopen > 0 {
			n.writeback(n.wname, len(ops)-1)
		}
	}
}

func applyWr(b []byte, w wr) []byte {
	if w.trunc >= 0 {
		if int64(len(b)) > w.trunc {
			return b[:w.trunc:w.trunc]
		}
		return append(b[:len(b):len(b)], make([]byte, w.trunc-int64(len(b)))...)
	}
	end := w.off + int64(len(w.data))
	if end > int64(len(b)) {
		b = append(b[:len(b):len(b)], make([]byte, end-int64(len(b)))...)
	} else {
		b = append([]byte(nil), b...)
	}
	copy(b[w.off:], w.data)
	return b
}

// powerLoss computes one legal disk state after losing power now: everything
// synced survives, of the rest an arbitrary part.
func powerLoss() (map[string]*inode, map[*inode][]byte) {
	r := newPrng(cfg.Seed, "power")
	nm := map[string]*inode{}
	for i, k := range durNames.ks {
		nm[k] = durNames.vs[i]
	}
	mode := r.intn(4)
	cut := r.intn(len(nameOps) + 1)
	for i, o := range nameOps {
		keep := o.dur
		switch mode {
		case 1:
			keep = true
		case 2:
			keep = keep || i < cut
		case 3:
			keep = keep || r.intn(2) == 0
		}
		if !keep {
			continue
		}
		if o.ino == nil {
			delete(nm, o.name)
		} else {
			nm[o.name] = o.ino
		}
	}
	out := map[*inode][]byte{}
	for _, n := range inodes {
		if n.kind != 'f' {
			continue
		}
		b := append([]byte(nil), n.dur...)
		m := r.intn(4)
		cut := r.intn(len(n.pending) + 1)
		for i, w := range n.pending {
			switch m {
			case 0: // nothing written back
				continue
			case 1: // everything
			case 2: // a prefix, the last write torn
				if i > cut {
					continue
				}
				if i == cut && w.trunc < 0 && len(w.data) > 1 {
					w.data = w.data[:r.intn(len(w.data))]
				}
			case 3: // arbitrary subset
				if r.intn(2) == 0 {
					continue
				}
			}
			b = applyWr(b, w)
		}
		out[n] = b
	}
	return nm, out
}

func snapshotFS(power bool) []FileOut {
	nm := map[string]*inode{}
	for i, k := range names.ks {
		nm[k] = names.vs[i]
	}
	var content map[*inode][]byte
	if power {
		nm, content = powerLoss()
	}
	var out []FileOut
	for _, p := range sortedNames(nm) {
		n := nm[p]
		fo := FileOut{Path: p, Ino: n.id, Temp: n.temp, Clean: n.clean}
		switch n.kind {
		case 'd':
			fo.Kind = "dir"
		case 'l':
			fo.Kind, fo.To = "symlink", n.to
		default:
			fo.Data = append([]byte(nil), n.data...)
			if content != nil {
				fo.Data = content[n]
			}
		}
		out = append(out, fo)
	}
	return out
}

// ---------------------------------------------------------------- paths

func absPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cfg.Cwd + "/" + p
	}
	return path.Clean(p)
}

// resolve follows symbolic links; the returned path is the real location.
func resolve(p string, follow bool) (string, *inode, error) {
	p = absPath(p)
	for hops := 0; ; hops++ {
		if hops > 40 {
			return p, nil, syscall.ELOOP
		}
		parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
		at := "/"
		again := false
		for i, c := range parts {
			if c == "" {
				continue
			}
			d := names.get(at)
			if d == nil {
				return p, nil, syscall.ENOENT
			}
			if d.kind != 'd' {
				return p, nil, syscall.ENOTDIR
			}
			nx := path.Join(at, c)
			n := names.get(nx)
			last := i == len(parts)-1
			if n != nil && n.kind == 'l' && (!last || follow) {
				t := n.to
				if !strings.HasPrefix(t, "/") {
					t = path.Join(at, t)
				}
				p = path.Join(append([]string{t}, parts[i+1:]...)...)
				again = true
				break
			}
			if n == nil {
				if last {
					return nx, nil, syscall.ENOENT
				}
				return p, nil, syscall.ENOENT
			}
			at = nx
		}
		if again {
			continue
		}
		return at, names.get(at), nil
	}
}

func canonPath(p string) string {
	if c := canon.get(p); c != "" {
		return c
	}
	return p
}

// ---------------------------------------------------------------- faults

var errnos = map[string]error{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT,
	"EMFILE": syscall.EMFILE, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "EPERM": syscall.EPERM,
	"ESTALE": syscall.ESTALE, "ENFILE": syscall.ENFILE, "ENOMEM": syscall.ENOMEM, "EBUSY": syscall.EBUSY,
}

// begin records a file operation and tells which fault, if any, strikes it.
func begin(op, p string, n *inode) (*Op, *Fault) {
	if policy == "slowio" && ioLatency > 0 && !finished && rIO.float() < ioLatency {
		sleepFor(int64(1+rIO.intn(400))*1000, "disk")
	} else {
		point()
	}
	cp := canonPath(p)
	key := op + " " + cp
	nth := opCount.get(key)
	opCount.set(key, nth+1)
	o := Op{N: len(ops), Op: op, Path: cp, Nth: nth, G: cur.name}
	if n != nil {
		o.Ino = n.id
	}
	ops = append(ops, o)
	po := &ops[len(ops)-1]
	if k := stuckErr.get(key); k != "" {
		for i := range cfg.Faults {
			if cfg.Faults[i].Kind == k {
				fired = append(fired, Fired{i, po.N, k})
				break
			}
		}
		return po, &Fault{Kind: k, Stay: true}
	}
	var hit *Fault
	for i := range cfg.Faults {
		f := &cfg.Faults[i]
		if f.Op != op || f.Path != cp || f.Nth != nth {
			continue
		}
		fired = append(fired, Fired{i, po.N, f.Kind})
		switch f.Kind {
		case "jump":
			now += f.Amt
		case "latency":
			sleepFor(f.Amt, "slow disk")
		case "kill", "power":
			if f.When == "" || f.When == "before" {
				crash(f)
			}
			hit = f
		default:
			if f.Stay {
				stuckErr.set(key, f.Kind)
			}
			hit = f
		}
		if hit != nil {
			break
		}
	}
	// sleeping may have moved the journal
	return &ops[o.N], hit
}

func crash(f *Fault) {
	how := "killed"
	if f.Kind == "power" {
		how = "power"
	}
	endRun(how, 137, "")
}

func end(o *Op, f *Fault, n *inode, err error) {
	o = &ops[o.N]
	if err != nil {
		o.Err = err.Error()
	}
	if n != nil {
		o.Ino = n.id
		o.Size = int64(len(n.data))
		o.Clean = n.clean
		if cfg.WantState && o.Mut {
			o.Hash = contentHash(n.data)
		}
	}
	if f != nil && (f.Kind == "kill" || f.Kind == "power") {
		crash(f)
	}
}

func errOf(f *Fault) error {
	if f == nil {
		return nil
	}
	return errnos[f.Kind]
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

// ---------------------------------------------------------------- os.File

type File struct {
	name   string
	rp     string
	n      *inode
	off    int64
	flag   int
	closed bool
	std    int // 1 stdout 2 stderr 3 stdin
	rdpos  int
}
type Os_File = File

var Os_Args []string
var Os_Stdin = &File{name: "/dev/stdin", std: 3}
var Os_Stdout = &File{name: "/dev/stdout", std: 1}
var Os_Stderr = &File{name: "/dev/stderr", std: 2}

func flagString(fl int) string {
	s := "r"
	switch fl & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR) {
	case os.O_WRONLY:
		s = "w"
	case os.O_RDWR:
		s = "rw"
	}
	if fl&os.O_CREATE != 0 {
		s += "+creat"
	}
	if fl&os.O_TRUNC != 0 {
		s += "+trunc"
	}
	if fl&os.O_EXCL != 0 {
		s += "+excl"
	}
	if fl&os.O_APPEND != 0 {
		s += "+append"
	}
	return s
}

func Os_OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f, err := openFile("open", name, flag, perm)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func openFile(opname, name string, flag int, perm fs.FileMode) (*File, error) {
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	rp, n, err := resolve(name, true)
	o, f := begin(opname, rp, n)
	rp, n, err = resolve(name, true) // the wait may have changed the tree
	o.Flag = flagString(flag)
	if e := errOf(f); e != nil {
		end(o, f, nil, e)
		return nil, perr("open", name, e)
	}
	if n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		err = syscall.EEXIST
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if err == nil && n.kind == 'd' && (acc != os.O_RDONLY || flag&os.O_TRUNC != 0) {
		err = syscall.EISDIR
	}
	if err == nil && acc != os.O_RDONLY && n.mode&0222 == 0 {
		err = syscall.EACCES
	}
	if err == nil && acc != os.O_WRONLY && n.mode&0444 == 0 {
		err = syscall.EACCES
	}
	if err == syscall.ENOENT && flag&os.O_CREATE != 0 {
		pd := names.get(path.Dir(rp))
		if pd == nil || pd.kind != 'd' {
			err = syscall.ENOENT
		} else {
			n = newInode('f')
			n.mode = perm & 0777 &^ 022
			if n.mode == 0 {
				n.mode = 0600
			}
			n.temp = opname == "createtemp"
			if n.temp {
				canon.set(rp, "<temp"+strconv.Itoa(nTemp)+">")
				nTemp++
				o.Path = canon.get(rp)
			}
			setName(rp, n)
			o.Mut = true
			o.Flag += " created"
			err = nil
		}
	} else if err == nil && flag&os.O_TRUNC != 0 {
		if len(n.data) > 0 {
			o.Mut = true
			n.truncate(0)
		}
	}
	if err != nil {
		end(o, f, n, err)
		return nil, perr("open", name, err)
	}
	end(o, f, n, nil)
	openFiles++
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		n.wopen++
		n.wname = rp
	}
	return &File{name: name, rp: rp, n: n, flag: flag}, nil
}

func Os_Open(name string) (*File, error) { return Os_OpenFile(name, os.O_RDONLY, 0) }
func Os_Create(name string) (*File, error) {
	return Os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Os_CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	if strings.ContainsRune(pattern, '/') {
		return nil, perr("createtemp", pattern, errors.New("pattern contains path separator"))
	}
	for try := 0; ; try++ {
		name := path.Join(dir, pre+fmt.Sprint(uint32(rTemp.next()))+suf)
		f, err := openFile("createtemp", name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && errors.Is(err, fs.ErrExist) && try < 10000 {
			continue
		}
		return f, err
	}
}

func Os_MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	name := path.Join(dir, strings.Replace(pattern, "*", "", 1)+fmt.Sprint(uint32(rTemp.next())))
	return name, Os_Mkdir(name, 0700)
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	if f.n.kind == 'd' {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	o, ft := begin("read", f.rp, f.n)
	n, err := f.pread(p, f.off, ft)
	o.Off, o.Len = f.off, n
	f.off += int64(n)
	end(o, ft, f.n, err)
	if err == io.EOF {
		return n, err
	}
	if n > 0 {
		return n, nil
	}
	return n, perr("read", f.name, err)
}

// pread performs one read call.
func (f *File) pread(p []byte, off int64, ft *Fault) (int, error) {
	if e := errOf(ft); e != nil {
		return 0, e
	}
	avail := int64(len(f.n.data)) - off
	if avail <= 0 {
		return 0, io.EOF
	}
	n := len(p)
	if int64(n) > avail {
		n = int(avail)
	}
	if ft != nil {
		switch ft.Kind {
		case "short":
			n = int(float64(n) * ft.Part)
			if n < 1 {
				n = 1
			}
		case "eof":
			n = int(float64(n) * ft.Part)
			if n == 0 {
				return 0, io.EOF
			}
		}
	}
	copy(p, f.n.data[off:off+int64(n)])
	raceWriteRange(p[:n])
	if ft != nil && ft.Kind == "eof" {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	got := 0
	for len(p) > 0 {
		o, ft := begin("pread", f.rp, f.n)
		n, err := f.pread(p, off, ft)
		o.Off, o.Len = off, n
		end(o, ft, f.n, err)
		got += n
		if err == io.EOF {
			return got, io.EOF
		}
		if err != nil {
			return got, perr("read", f.name, err)
		}
		p = p[n:]
		off += int64(n)
	}
	return got, nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	switch f.std {
	case 1:
		stdoutBuf.Write(p)
		both(1, p)
		return len(p), nil
	case 2:
		stderrBuf.Write(p)
		both(2, p)
		return len(p), nil
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	got := 0
	for {
		o, ft := begin("write", f.rp, f.n)
		if f.flag&os.O_APPEND != 0 {
			f.off = int64(len(f.n.data))
		}
		n, err := f.pwrite(o, p, f.off, ft)
		f.off += int64(n)
		got += n
		end(o, ft, f.n, err)
		if err != nil {
			return got, perr("write", f.name, err)
		}
		p = p[n:]
		if len(p) == 0 {
			return got, nil
		}
	}
}

// pwrite performs one write call, possibly partial.
func (f *File) pwrite(o *Op, p []byte, off int64, ft *Fault) (int, error) {
	raceReadRange(p)
	n := len(p)
	o.Off = off
	e := errOf(ft)
	if e != nil || ft != nil && (ft.Kind == "short" || ft.When == "mid") {
		n = int(float64(len(p)) * ft.Part)
		if ft.Kind == "short" && n < 1 {
			n = 1
		}
		if n > len(p) {
			n = len(p)
		}
		if ft.Stay && e != nil {
			n = 0
		}
	}
	if cfg.Capacity > 0 {
		grow := off + int64(n) - int64(len(f.n.data))
		if grow > 0 {
			free := cfg.Capacity - usedSpace()
			if free < grow {
				cut := grow - free
				if cut > int64(n) {
					cut = int64(n)
				}
				n -= int(cut)
				if n == 0 && len(p) > 0 {
					e = syscall.ENOSPC
					fired = append(fired, Fired{-1, o.N, "diskfull"})
				}
			}
		}
	}
	if n > 0 {
		o.Mut = true
		f.n.write(off, p[:n])
	}
	o.Len = n
	return n, e
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, perr("writeat", f.name, errors.New("negative offset"))
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	got := 0
	for len(p) > 0 {
		o, ft := begin("pwrite", f.rp, f.n)
		n, err := f.pwrite(o, p, off, ft)
		got += n
		off += int64(n)
		p = p[n:]
		end(o, ft, f.n, err)
		if err != nil {
			return got, perr("write", f.name, err)
		}
	}
	return got, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	o, ft := begin("seek", f.rp, f.n)
	if e := errOf(ft); e != nil {
		end(o, ft, f.n, e)
		return 0, perr("seek", f.name, e)
	}
	var np int64
	switch whence {
	case 0:
		np = offset
	case 1:
		np = f.off + offset
	case 2:
		np = int64(len(f.n.data)) + offset
	default:
		np = -1
	}
	o.Off = np
	if np < 0 {
		end(o, ft, f.n, syscall.EINVAL)
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = np
	end(o, ft, f.n, nil)
	return np, nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std != 0 {
		return perr("sync", f.name, syscall.EINVAL)
	}
	o, ft := begin("sync", f.rp, f.n)
	if e := errOf(ft); e != nil {
		end(o, ft, f.n, e)
		return perr("sync", f.name, e)
	}
	o.Mut = true
	if e := f.n.writeback(f.rp, o.N); e != nil {
		end(o, ft, f.n, e)
		return perr("sync", f.name, e)
	}
	if f.n.kind == 'd' {
		d := f.rp
		for _, x := range nameOps {
			if path.Dir(x.name) == d && !x.dur {
				x.dur = true
				if x.ino == nil {
					durNames.del(x.name)
				} else {
					durNames.set(x.name, x.ino)
				}
			}
		}
	} else {
		f.n.syncAll()
	}
	end(o, ft, f.n, nil)
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, fs.ErrClosed)
	}
	if f.std != 0 {
		f.closed = true
		return nil
	}
	o, ft := begin("close", f.rp, f.n)
	f.closed = true
	openFiles--
	e := errOf(ft)
	if f.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		f.n.wopen--
		if x := f.n.writeback(f.rp, o.N); x != nil {
			o.Mut = true
			e = x
		}
	}
	end(o, ft, f.n, e)
	return perr("close", f.name, e)
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	o, ft := begin("truncate", f.rp, f.n)
	if e := errOf(ft); e != nil {
		end(o, ft, f.n, e)
		return perr("truncate", f.name, e)
	}
	if size < 0 || f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		end(o, ft, f.n, syscall.EINVAL)
		return perr("truncate", f.name, syscall.EINVAL)
	}
	o.Mut = true
	f.n.truncate(size)
	end(o, ft, f.n, nil)
	return nil
}

func (f *File) Chmod(m fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	o, ft := begin("chmod", f.rp, f.n)
	if e := errOf(ft); e != nil {
		end(o, ft, f.n, e)
		return perr("chmod", f.name, e)
	}
	f.n.mode = f.n.mode&^0777 | m&0777
	end(o, ft, f.n, nil)
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return nil, perr("stat", f.name, syscall.EINVAL)
	}
	o, ft := begin("fstat", f.rp, f.n)
	if e := errOf(ft); e != nil {
		end(o, ft, f.n, e)
		return nil, perr("stat", f.name, e)
	}
	end(o, ft, f.n, nil)
	return &fileInfo{path.Base(f.name), f.n, int64(len(f.n.data)), f.n.mode, f.n.mtime}, nil
}

func (f *File) SetDeadline(t time.Time) error { return os.ErrNoDeadline }
func (f *File) Sys() interface{}              { return nil }

func (f *File) SetReadDeadline(t time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return os.ErrNoDeadline }
func (f *File) Chown(uid, gid int) error           { return f.check("chown") }

type onlyW struct{ io.Writer }
type onlyR struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyW{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyR{f}) }

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range es {
		if i, e2 := e.Info(); e2 == nil {
			out = append(out, i)
		}
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	all := dirEntries(f.rp)
	rest := all[f.rdpos:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		if len(rest) > n {
			rest = rest[:n]
		}
	}
	f.rdpos += len(rest)
	return rest, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func dirEntries(d string) []fs.DirEntry {
	var out []fs.DirEntry
	for _, p := range sortedStrings(names.ks) {
		if p != "/" && path.Dir(p) == d {
			n := names.get(p)
			out = append(out, fs.FileInfoToDirEntry(&fileInfo{path.Base(p), n, int64(len(n.data)), n.mode, n.mtime}))
		}
	}
	return out
}

type fileInfo struct {
	name string
	n    *inode
	size int64
	mode fs.FileMode
	mt   int64
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() fs.FileMode  { return i.mode }
func (i *fileInfo) ModTime() time.Time { return time.Unix(0, i.mt).UTC() }
func (i *fileInfo) IsDir() bool        { return i.n.kind == 'd' }
func (i *fileInfo) Sys() interface{}   { return nil }

func statIt(op, name string, follow bool) (fs.FileInfo, error) {
	rp, n, err := resolve(name, follow)
	o, ft := begin(op, rp, n)
	if e := errOf(ft); e != nil {
		end(o, ft, n, e)
		return nil, perr(op, name, e)
	}
	_, n, err = resolve(name, follow)
	if name == "" {
		n, err = nil, syscall.ENOENT
	}
	if err != nil {
		end(o, ft, nil, err)
		return nil, perr(op, name, err)
	}
	end(o, ft, n, nil)
	return &fileInfo{path.Base(absPath(name)), n, int64(len(n.data)), n.mode, n.mtime}, nil
}

func Os_Stat(name string) (fs.FileInfo, error)  { return statIt("stat", name, true) }
func Os_Lstat(name string) (fs.FileInfo, error) { return statIt("lstat", name, false) }

func Os_SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok1 && ok2 && x.n == y.n
}

func Os_Remove(name string) error {
	rp, n, err := resolve(name, false)
	o, ft := begin("remove", rp, n)
	if e := errOf(ft); e != nil {
		end(o, ft, n, e)
		return perr("remove", name, e)
	}
	rp, n, err = resolve(name, false)
	if err == nil && n.kind == 'd' && len(dirEntries(rp)) > 0 {
		err = syscall.ENOTEMPTY
	}
	if err != nil {
		end(o, ft, n, err)
		return perr("remove", name, err)
	}
	o.Mut = true
	setName(rp, nil)
	end(o, ft, n, nil)
	return nil
}

func Os_RemoveAll(name string) error {
	rp, _, err := resolve(name, false)
	if err != nil {
		return nil
	}
	var victims []string
	for _, p := range names.ks {
		if p == rp || strings.HasPrefix(p, rp+"/") {
			victims = append(victims, p)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(victims)))
	for _, v := range victims {
		if err := Os_Remove(v); err != nil {
			return err
		}
	}
	return nil
}

func Os_Rename(from, to string) error {
	rf, n, err := resolve(from, false)
	rt, m, err2 := resolve(to, false)
	o, ft := begin("rename", rf, n)
	o.Flag = "to " + canonPath(rt)
	if e := errOf(ft); e != nil {
		end(o, ft, n, e)
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	rf, n, err = resolve(from, false)
	rt, m, err2 = resolve(to, false)
	if err == nil && err2 != nil && (err2 != syscall.ENOENT || names.get(path.Dir(rt)) == nil) {
		err = err2
	}
	if err == nil && m != nil && m.kind == 'd' && n.kind != 'd' {
		err = syscall.EEXIST
	}
	if err != nil {
		end(o, ft, n, err)
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	o.Mut = true
	if n != m {
		setName(rt, n)
		setName(rf, nil)
	}
	end(o, ft, n, nil)
	return nil
}

func Os_Link(from, to string) error {
	rf, n, err := resolve(from, false)
	rt, m, _ := resolve(to, false)
	o, ft := begin("link", rf, n)
	o.Flag = "to " + canonPath(rt)
	if e := errOf(ft); e != nil {
		err = e
	} else if err == nil && m != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		end(o, ft, n, err)
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	o.Mut = true
	setName(rt, n)
	end(o, ft, n, nil)
	return nil
}

func Os_Symlink(from, to string) error {
	rt, m, _ := resolve(to, false)
	o, ft := begin("symlink", rt, nil)
	var err error
	if e := errOf(ft); e != nil {
		err = e
	} else if m != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		end(o, ft, nil, err)
		return &os.LinkError{Op: "symlink", Old: from, New: to, Err: err}
	}
	n := newInode('l')
	n.to = from
	n.mode = 0777 | fs.ModeSymlink
	o.Mut = true
	setName(rt, n)
	end(o, ft, n, nil)
	return nil
}

func Os_Readlink(name string) (string, error) {
	_, n, err := resolve(name, false)
	if err == nil && n.kind != 'l' {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return n.to, nil
}

func Os_Mkdir(name string, perm fs.FileMode) error {
	rp, m, err := resolve(name, false)
	o, ft := begin("mkdir", rp, m)
	if e := errOf(ft); e != nil {
		end(o, ft, m, e)
		return perr("mkdir", name, e)
	}
	if m != nil {
		end(o, ft, m, syscall.EEXIST)
		return perr("mkdir", name, syscall.EEXIST)
	}
	if err != nil && names.get(path.Dir(rp)) == nil {
		end(o, ft, m, err)
		return perr("mkdir", name, err)
	}
	n := newInode('d')
	n.mode = 0755 | fs.ModeDir
	o.Mut = true
	setName(rp, n)
	end(o, ft, n, nil)
	return nil
}

func Os_MkdirAll(name string, perm fs.FileMode) error {
	p := absPath(name)
	if n := names.get(p); n != nil {
		if n.kind != 'd' {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		return nil
	}
	if err := Os_MkdirAll(path.Dir(p), perm); err != nil {
		return err
	}
	return Os_Mkdir(p, perm)
}

func Os_Truncate(name string, size int64) error {
	f, err := Os_OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Os_Chmod(name string, m fs.FileMode) error {
	rp, n, err := resolve(name, true)
	o, ft := begin("chmod", rp, n)
	if e := errOf(ft); e != nil {
		err = e
	}
	if err != nil {
		end(o, ft, n, err)
		return perr("chmod", name, err)
	}
	n.mode = n.mode&^0777 | m&0777
	end(o, ft, n, nil)
	return nil
}

func Os_Chtimes(name string, a, m time.Time) error {
	_, n, err := resolve(name, true)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.mtime = m.UnixNano()
	return nil
}

func Os_ReadFile(name string) ([]byte, error) {
	f, err := Os_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func Os_WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := Os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Os_ReadDir(name string) ([]fs.DirEntry, error) {
	rp, n, err := resolve(name, true)
	if err == nil && n.kind != 'd' {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	return dirEntries(rp), nil
}

func Os_Exit(code int) {
	endRun("exit", code, "")
}

func Os_Getwd() (string, error) { return cfg.Cwd, nil }
func Os_TempDir() string        { return "/tmp" }
func Os_Getenv(k string) string { return cfg.Env[k] }
func Os_LookupEnv(k string) (string, bool) {
	v, ok := cfg.Env[k]
	return v, ok
}
func Os_Environ() []string              { return nil }
func Os_Getppid() int                   { return 1 }
func Os_Getuid() int                    { return 0 }
func Os_Geteuid() int                   { return 0 }
func Os_Getgid() int                    { return 0 }
func Os_Getegid() int                   { return 0 }
func Os_Getpagesize() int               { return 4096 }
func Os_UserHomeDir() (string, error)   { return "/root", nil }
func Os_UserCacheDir() (string, error)  { return "/root/.cache", nil }
func Os_UserConfigDir() (string, error) { return "/root/.config", nil }
func Os_ExpandEnv(s string) string      { return os.Expand(s, Os_Getenv) }
func Os_Getpid() int                    { return 4242 }
func Os_Hostname() (string, error)      { return "sim", nil }
func Os_Executable() (string, error)    { return "/bin/vigilantbsp", nil }
func Os_IsNotExist(err error) bool      { return os.IsNotExist(err) }

// ---------------------------------------------------------------- path/filepath

func Filepath_Abs(p string) (string, error) { return absPath(p), nil }
func Filepath_EvalSymlinks(p string) (string, error) {
	rp, _, err := resolve(p, true)
	if err != nil {
		return "", perr("lstat", p, err)
	}
	if !strings.HasPrefix(p, "/") && strings.HasPrefix(rp, cfg.Cwd+"/") {
		return rp[len(cfg.Cwd)+1:], nil
	}
	return rp, nil
}

// ---------------------------------------------------------------- io/ioutil, fmt

func Ioutil_ReadFile(name string) ([]byte, error) { return Os_ReadFile(name) }
func Ioutil_WriteFile(name string, data []byte, perm fs.FileMode) error {
	return Os_WriteFile(name, data, perm)
}
func Ioutil_TempFile(dir, pattern string) (*File, error) { return Os_CreateTemp(dir, pattern) }
func Ioutil_TempDir(dir, pattern string) (string, error) { return Os_MkdirTemp(dir, pattern) }

// The real functions share pooled state; its synchronisation must not count as
// the program's own.
func fmtOf(f func() string) string {
	raceOff()
	defer raceOn()
	return f()
}

func Fmt_Sprint(a ...interface{}) string   { return fmtOf(func() string { return fmt.Sprint(a...) }) }
func Fmt_Sprintln(a ...interface{}) string { return fmtOf(func() string { return fmt.Sprintln(a...) }) }
func Fmt_Sprintf(f string, a ...interface{}) string {
	return fmtOf(func() string { return fmt.Sprintf(f, a...) })
}
func Fmt_Errorf(f string, a ...interface{}) error {
	raceOff()
	defer raceOn()
	return fmt.Errorf(f, a...)
}
func Fmt_Print(a ...interface{}) (int, error)   { return stdOut(Fmt_Sprint(a...)) }
func Fmt_Println(a ...interface{}) (int, error) { return stdOut(Fmt_Sprintln(a...)) }
func Fmt_Printf(f string, a ...interface{}) (int, error) {
	return stdOut(Fmt_Sprintf(f, a...))
}
func Fmt_Fprint(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(Fmt_Sprint(a...)))
}
func Fmt_Fprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(Fmt_Sprintln(a...)))
}
func Fmt_Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return w.Write([]byte(Fmt_Sprintf(f, a...)))
}

func stdOut(s string) (int, error) {
	stdoutBuf.WriteString(s)
	both(1, []byte(s))
	return len(s), nil
}
func stdErr(s string) {
	stderrBuf.WriteString(s)
	both(2, []byte(s))
}

func Fmt_Scan(a ...interface{}) (int, error)            { return 0, io.EOF }
func Fmt_Scanln(a ...interface{}) (int, error)          { return 0, io.EOF }
func Fmt_Scanf(f string, a ...interface{}) (int, error) { return 0, io.EOF }

func Log_Fatal(a ...interface{})            { stdErr(Fmt_Sprintln(a...)); endRun("exit", 1, "") }
func Log_Fatalln(a ...interface{})          { Log_Fatal(a...) }
func Log_Fatalf(f string, a ...interface{}) { Log_Fatal(fmt.Sprintf(f, a...)) }
