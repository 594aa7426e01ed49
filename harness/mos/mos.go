// Package mos is the part of the system the shell uses, under the controlled scheduler:
// pipes, processes, signals and the terminal are simulated, files are real.
package mos

import (
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/michaelmacinnis/oh/internal/zzverif/mc"
)

var _ = signal.Ignore

func always() int { return 1 }

// ---- Files.

type File struct {
	o      mc.Obj
	real   *os.File
	name   string
	p      *pipe
	write  bool
	both   bool // Open for reading and writing.
	sink   *sink
	closed bool
	busy   bool
}

type chunk struct {
	b []byte
	t mc.Token
}
type pipe struct {
	s, r    mc.Obj
	q       []chunk
	used    int
	readers int
	writers int
	room    []mc.Token
	eof     mc.Token
}

type sink struct {
	o    mc.Obj
	text []byte
	q    []chunk // for input
}

var (
	PipeCap  = 1 << 16
	PipeBuf  = 4096
	Fragment = false

	fs     = &mc.Obj{Name: "fs"}
	Stdin  = &File{name: "/dev/stdin", sink: &sink{}}
	Stdout = &File{name: "/dev/stdout", sink: &sink{}, write: true}
	Stderr = &File{name: "/dev/stderr", sink: &sink{}, write: true}
	serial int
	opened []*os.File
)

func Reset() {
	for _, f := range opened {
		f.Close()
	}
	opened = nil
	for _, f := range []*File{Stdin, Stdout, Stderr} {
		f.sink.text = nil
		f.sink.q = nil
		f.closed = false
	}
	procs, order = map[int]*Proc{}, nil
	nextPid = 1000
	fifos, stray = map[string]*fifo{}, nil
	pending = nil
	FgGroup = shellGroup
	Log = nil
	serial = 0
}

func Text(f *File) string { return string(f.sink.text) }

func fsop(kind string, k uint8, f func()) {
	mc.Do(&mc.Op{Kind: kind, Foot: []mc.Foot{{O: fs, K: k}}, Alts: always, Run: func(int) { f() }})
}

func Pipe() (*File, *File, error) {
	p := &pipe{readers: 1, writers: 1}
	p.s.Name, p.r.Name = "pipe w", "pipe r"
	return &File{p: p, name: "|0"}, &File{p: p, name: "|1", write: true}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666) }
func OpenFile(name string, flag int, perm os.FileMode) (f *File, err error) {
	return openAs(name, flag, perm, nil)
}

// A fifo is a pipe with a name, of which both ends may be opened any number of times.
type fifo struct {
	p       *pipe
	opens   [2]int // How often each end has been opened, ever.
	removed bool
}

var (
	fifos = map[string]*fifo{}
	stray []string // Ordinary files made in place of fifos that were gone.
)

// TempFifo makes a fifo.
func TempFifo(prefix string) (name string, err error) {
	fsop("mkfifo", mc.W, func() {
		name = fmt.Sprintf("/zzfifo/%s%d", prefix, len(fifos)+1)
		q := &pipe{}
		q.s.Name, q.r.Name = "fifo w", "fifo r"
		fifos[name] = &fifo{p: q}
	})
	return
}

// openFifo waits for the other end to be opened, as opening a fifo does.
func openFifo(q *fifo, name string, flag int, p *Proc) (f *File, err error) {
	end := map[int]int{os.O_RDONLY: 0, os.O_WRONLY: 1, os.O_RDWR: 2}[flag&(os.O_RDONLY|os.O_WRONLY|os.O_RDWR)]
	both := []mc.Foot{{O: &q.p.s, K: mc.W}, {O: &q.p.r, K: mc.W}}
	other, wait := 0, false
	p.op(&mc.Op{Kind: "open fifo", Foot: append([]mc.Foot{{O: fs, K: mc.R}}, both...), Wakes: []*mc.Obj{&q.p.s, &q.p.r}, Alts: always, Run: func(int) {
		f = &File{p: q.p, name: name, write: end == 1, both: end == 2}
		if end != 1 {
			q.p.readers++
			q.opens[0]++
		}
		if end != 0 {
			q.p.writers++
			q.opens[1]++
		}
		if end < 2 {
			other = q.opens[1-end]
			wait = []int{q.p.writers, q.p.readers}[end] == 0
		}
	}})
	if wait {
		p.do("opened fifo", both, func() int {
			if q.opens[1-end] != other || []int{q.p.writers, q.p.readers}[end] > 0 {
				return 1
			}
			return 0
		}, func() {})
	}
	if p != nil && p.killed != 0 {
		if f != nil {
			p.files = append(p.files, f)
		}
		return nil, syscall.EINTR
	}
	return f, nil
}

func openAs(name string, flag int, perm os.FileMode, p *Proc) (f *File, err error) {
	var q *fifo
	if strings.HasPrefix(name, "/zzfifo/") {
		p.do("look up fifo", []mc.Foot{{O: fs, K: mc.R}}, always, func() {
			q = fifos[name]
			if q == nil || q.removed {
				q = nil
				err = &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
				if flag&os.O_CREATE != 0 {
					stray = append(stray, name)
				}
			}
		})
		if q == nil {
			return nil, err
		}
		return openFifo(q, name, flag, p)
	}
	k := uint8(mc.R)
	if flag&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) != 0 {
		k = mc.W
	}
	fsop("open", k, func() {
		var r *os.File
		// Never wait for the other end of a named pipe.
		if s, e := os.Stat(name); e == nil && s.Mode()&os.ModeNamedPipe != 0 {
			err = errors.New("named pipes are not simulated")
			return
		}
		r, err = os.OpenFile(name, flag, perm)
		if err == nil {
			opened = append(opened, r)
			f = &File{real: r, name: name, write: flag&(os.O_WRONLY|os.O_RDWR) != 0}
		}
	})
	return
}
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}
func Stat(name string) (i os.FileInfo, err error)  { fsop("stat", mc.R, func() { i, err = os.Stat(name) }); return }
func Lstat(name string) (i os.FileInfo, err error) { fsop("lstat", mc.R, func() { i, err = os.Lstat(name) }); return }
func ReadDir(name string) (e []os.DirEntry, err error) {
	fsop("readdir", mc.R, func() { e, err = os.ReadDir(name) })
	return
}

func (f *File) Name() string {
	return f.name
}
func (f *File) Fd() uintptr {
	switch f {
	case Stdin:
		return 0
	case Stdout:
		return 1
	case Stderr:
		return 2
	}
	return 99
}
func (f *File) Stat() (os.FileInfo, error) {
	if f.real != nil {
		return f.real.Stat()
	}
	return nil, errors.New("not a file")
}
func (f *File) Seek(o int64, w int) (int64, error) {
	if f.real != nil {
		return f.real.Seek(o, w)
	}
	return 0, errors.New("seek " + f.name + ": illegal seek")
}
func (f *File) Sync() error           { return nil }
func (f *File) Truncate(n int64) error { return f.real.Truncate(n) }

func (f *File) err(op string, e error) error { return &os.PathError{Op: op, Path: f.name, Err: e} }

func (f *File) Write(b []byte) (int, error)       { return f.writeAs(b, nil) }
func (f *File) WriteString(s string) (int, error) { return f.writeAs([]byte(s), nil) }

func (f *File) writeAs(b []byte, p *Proc) (n int, err error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.sink != nil {
		p.do("write "+filepath.Base(f.name), []mc.Foot{{O: &f.sink.o, K: mc.W}}, always, func() { f.sink.text = append(f.sink.text, b...); n = len(b) })
		return
	}
	if f.real != nil {
		p.do("write file", []mc.Foot{{O: fs, K: mc.W}, {O: &f.o, K: mc.R}}, always, func() {
			if f.closed {
				err = f.err("write", os.ErrClosed)
				return
			}
			n, err = f.real.Write(b)
		})
		return
	}
	q := f.p
	if !f.write && !f.both {
		return 0, f.err("write", syscall.EBADF)
	}
	first := true
	for first || len(b) > 0 {
		part := b
		if len(part) > PipeBuf {
			part = part[:PipeBuf]
		}
		done := false
		p.op(&mc.Op{Kind: "write pipe", Foot: []mc.Foot{{O: &q.s, K: mc.W}, {O: &f.o, K: mc.R}}, Wakes: []*mc.Obj{&q.r}, Alts: func() int {
			if first && f.busy && !f.closed {
				return 0 // One write at a time on one file.
			}
			if f.closed || q.readers == 0 || q.used == 0 || q.used+len(part) <= PipeCap {
				return 1
			}
			return 0
		}, Join: func(g *mc.G, _ int) {
			for _, t := range q.room {
				t.Join(g)
			}
		}, Run: func(int) {
			switch {
			case f.closed && first:
				err = f.err("write", os.ErrClosed)
				done = true
			case q.readers == 0:
				err = f.err("write", syscall.EPIPE)
				done = true
			default:
				q.q = append(q.q, chunk{append([]byte(nil), part...), mc.NewToken()})
				q.used += len(part)
				n += len(part)
				b = b[len(part):]
				f.busy = len(b) > 0
			}
		}})
		first = false
		if p != nil && p.killed != 0 {
			return n, syscall.EINTR
		}
		if done {
			f.busy = false
			return
		}
	}
	return
}

func (f *File) Read(b []byte) (int, error) { return f.readAs(b, nil) }
func (f *File) readAs(b []byte, p *Proc) (n int, err error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.sink != nil {
		p.do("read "+filepath.Base(f.name), []mc.Foot{{O: &f.sink.o, K: mc.W}}, always, func() {
			if len(f.sink.q) == 0 {
				err = io.EOF
				return
			}
			n = copy(b, f.sink.q[0].b)
			f.sink.q[0].b = f.sink.q[0].b[n:]
			if len(f.sink.q[0].b) == 0 {
				f.sink.q = f.sink.q[1:]
			}
		})
		return
	}
	if f.real != nil {
		p.do("read file", []mc.Foot{{O: fs, K: mc.R}, {O: &f.o, K: mc.R}}, always, func() {
			if f.closed {
				err = f.err("read", os.ErrClosed)
				return
			}
			n, err = f.real.Read(b)
		})
		return
	}
	q := f.p
	if f.write {
		return 0, f.err("read", syscall.EBADF)
	}
	limit := len(b)
	if Fragment {
		limit = []int{len(b), 1}[mc.Choose(2)]
	}
	p.op(&mc.Op{Kind: "read pipe", Foot: []mc.Foot{{O: &q.r, K: mc.W}, {O: &f.o, K: mc.R}}, Wakes: []*mc.Obj{&q.s}, Alts: func() int {
		if f.closed || len(q.q) > 0 || q.writers == 0 {
			return 1
		}
		return 0
	}, Join: func(g *mc.G, _ int) {
		if len(q.q) > 0 {
			q.q[0].t.Join(g)
		} else {
			q.eof.Join(g)
		}
	}, Run: func(int) {
		switch {
		case f.closed:
			err = f.err("read", os.ErrClosed)
		case len(q.q) == 0:
			err = io.EOF
		default:
			n = copy(b[:limit], q.q[0].b)
			q.q[0].b = q.q[0].b[n:]
			q.used -= n
			if len(q.q[0].b) == 0 {
				q.q = q.q[1:]
			}
			q.room = append(q.room, mc.NewToken())
			if len(q.room) > 8 {
				q.room[1].Merge(q.room[0])
				q.room = q.room[1:]
			}
		}
	}})
	return
}

func (f *File) Close() (err error) {
	if f == nil {
		return os.ErrInvalid
	}
	foot := []mc.Foot{{O: &f.o, K: mc.W}}
	foot = append(foot, f.closeFoot()...)
	mc.Do(&mc.Op{Kind: "close " + f.name, Foot: foot, Wakes: f.ends(), Alts: always, Run: func(int) {
		if f.closed {
			err = f.err("close", os.ErrClosed)
			return
		}
		f.closed = true
		f.drop()
	}})
	return
}
func (f *File) ends() []*mc.Obj {
	if f == nil || f.p == nil {
		return nil
	}
	return []*mc.Obj{&f.p.s, &f.p.r}
}
func (f *File) closeFoot() []mc.Foot {
	if f.p != nil && f.both {
		return []mc.Foot{{O: &f.p.s, K: mc.W}, {O: &f.p.r, K: mc.W}}
	}
	if f.p != nil && !f.write {
		return []mc.Foot{{O: &f.p.s, K: mc.W}}
	}
	return nil
}
func (f *File) drop() {
	if f.real != nil {
		return // Closed at the end of the execution: a process may have it too.
	}
	if f.p == nil {
		return
	}
	if f.write || f.both {
		f.p.writers--
		t := mc.NewToken()
		f.p.eof.Merge(t)
	}
	if !f.write || f.both {
		f.p.readers--
	}
}

// ---- Processes.

type ProcAttr struct {
	Dir   string
	Env   []string
	Files []*File
	Sys   *syscall.SysProcAttr
}
type Process struct{ Pid int }

func (p *Process) Release() error             { return nil }
func (p *Process) Kill() error                { return Kill(p.Pid, syscall.SIGKILL) }
func (p *Process) Signal(s os.Signal) error   { return Kill(p.Pid, s.(syscall.Signal)) }
func FindProcess(pid int) (*Process, error)   { return &Process{pid}, nil }

type Proc struct {
	pid, pgid int
	argv      []string
	files     []*File
	zombie    bool
	status    syscall.WaitStatus
	reaped    bool
	stopped   bool
	killed    syscall.Signal
	change    bool // a stop or continue nobody has been told of
	changeTo  syscall.WaitStatus
	used      bool
}

var (
	ptable     = &mc.Obj{Name: "processes"}
	sigs       = &mc.Obj{Name: "signals"}
	procs      = map[int]*Proc{}
	order      []int
	nextPid    = 1000
	pending    []syscall.Signal
	shellPid   = os.Getpid()
	shellGroup = os.Getpid()
	FgGroup    = os.Getpid()
	handlers   = map[syscall.Signal][]chan os.Signal{}
	ignored    = map[syscall.Signal]bool{}
	Log        []string
)

// op performs op on behalf of the process, which may be stopped or killed meanwhile. A nil process is the shell.
func (p *Proc) op(op *mc.Op) {
	if p == nil {
		mc.Do(op)
		return
	}
	if p.killed != 0 {
		return
	}
	alts, run, join := op.Alts, op.Run, op.Join
	op.Foot = append(op.Foot, mc.Foot{O: ptable, K: mc.R})
	op.Alts = func() int {
		if p.stopped {
			return 0
		}
		if p.killed != 0 {
			return 1
		}
		return alts()
	}
	op.Join = func(g *mc.G, a int) {
		if p.killed == 0 && join != nil {
			join(g, a)
		}
	}
	op.Run = func(a int) {
		if p.killed == 0 && run != nil {
			run(a)
		}
	}
	mc.Do(op)
}
func (p *Proc) do(kind string, foot []mc.Foot, alts func() int, f func()) {
	p.op(&mc.Op{Kind: kind, Foot: foot, Alts: alts, Run: func(int) { f() }})
}

func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	var p *Proc
	var err error
	mc.Do(&mc.Op{Kind: "fork", Foot: []mc.Foot{{O: ptable, K: mc.W}, {O: fs, K: mc.R}}, Alts: always, Run: func(int) {
		if attr.Dir != "" {
			if s, e := os.Stat(attr.Dir); e != nil || !s.IsDir() {
				err = &os.PathError{Op: "chdir", Path: attr.Dir, Err: syscall.ENOENT}
				return
			}
		}
		path := name
		if !filepath.IsAbs(path) {
			path = filepath.Join(attr.Dir, path)
		}
		s, e := os.Stat(path)
		if e != nil || s.Mode()&0o111 == 0 {
			err = &os.PathError{Op: "fork/exec", Path: name, Err: syscall.EACCES}
			return
		}
		if strings.HasPrefix(filepath.Base(name), "p-bad") {
			err = &os.PathError{Op: "fork/exec", Path: name, Err: syscall.ENOEXEC}
			return
		}
		for _, f := range attr.Files {
			if f != nil && f.closed {
				err = &os.PathError{Op: "fork/exec", Path: name, Err: syscall.EBADF}
				return
			}
		}
		p = &Proc{pid: nextPid, argv: append([]string(nil), argv...), pgid: FgGroup}
		nextPid++
		if attr.Sys != nil && attr.Sys.Setpgid {
			p.pgid = attr.Sys.Pgid
			if p.pgid == 0 {
				p.pgid = p.pid
			}
		}
		if attr.Sys != nil && attr.Sys.Foreground {
			p.pgid = attr.Sys.Pgid
			if p.pgid == 0 {
				p.pgid = p.pid
			}
			FgGroup = p.pgid
		}
		for _, f := range attr.Files {
			if f == nil || f.closed {
				p.files = append(p.files, nil)
				continue
			}
			d := f
			if f.p != nil {
				d = &File{p: f.p, name: f.name, write: f.write}
				if f.write {
					f.p.writers++
				} else {
					f.p.readers++
				}
			}
			p.files = append(p.files, d)
		}
		procs[p.pid] = p
		order = append(order, p.pid)
		Log = append(Log, fmt.Sprintf("start %s", strings.Join(argv, " ")))
	}})
	if err != nil {
		return nil, err
	}
	mc.Go(func() { p.main(filepath.Base(name)) })
	return &Process{p.pid}, nil
}

func (p *Proc) exit(code int) {
	var wakes []*mc.Obj
	foot := []mc.Foot{{O: ptable, K: mc.W}, {O: sigs, K: mc.W}}
	for _, f := range p.files {
		if f != nil {
			foot = append(foot, f.closeFoot()...)
			wakes = append(wakes, f.ends()...)
		}
	}
	mc.Do(&mc.Op{Kind: "exit", Foot: foot, Wakes: wakes, Alts: func() int {
		if p.stopped {
			return 0
		}
		return 1
	}, Run: func(int) {
		if p.killed != 0 {
			p.status = syscall.WaitStatus(p.killed)
		} else {
			p.status = syscall.WaitStatus((code & 255) << 8)
		}
		p.zombie = true
		for _, f := range p.files {
			if f != nil && f.p != nil && !f.closed {
				f.closed = true
				f.drop()
			}
		}
		raise(syscall.SIGCHLD)
	}})
}

func (p *Proc) file(n int) *File {
	if n < len(p.files) {
		return p.files[n]
	}
	return nil
}
func (p *Proc) arg(n int, def int) int {
	if n < len(p.argv) {
		if v, err := strconv.Atoi(p.argv[n]); err == nil {
			return v
		}
	}
	return def
}

// out writes and reports whether to go on.
func (p *Proc) out(s string) bool {
	_, err := p.file(1).writeAs([]byte(s), p)
	if err != nil && errors.Is(err, syscall.EPIPE) && p.killed == 0 {
		p.killed = syscall.SIGPIPE
	}
	return err == nil && p.killed == 0
}

// line reads a line a byte at a time, as a program that shares its input would.
func (p *Proc) line() (string, bool) {
	var s []byte
	b := make([]byte, 1)
	for {
		n, err := p.file(0).readAs(b, p)
		if p.killed != 0 {
			return "", false
		}
		if n == 0 || err != nil {
			return string(s), len(s) > 0
		}
		if b[0] == '\n' {
			return string(s), true
		}
		s = append(s, b[0])
	}
}

func (p *Proc) main(name string) {
	code := 0
	switch name {
	case "p-exit":
		code = p.arg(1, 0)
	case "p-kill":
		p.killed = syscall.Signal(p.arg(1, 9))
	case "p-echo":
		p.out(strings.Join(p.argv[1:], " ") + "\n")
	case "p-yes":
		for i := 0; i < p.arg(1, 1); i++ {
			w := "y"
			if len(p.argv) > 2 {
				w = p.argv[2]
			}
			if !p.out(fmt.Sprintf("%s%d\n", w, i)) {
				break
			}
		}
	case "p-cat":
		b := make([]byte, 4096)
		for p.killed == 0 {
			n, err := p.file(0).readAs(b, p)
			if n > 0 && !p.out(string(b[:n])) {
				break
			}
			if err != nil || n == 0 {
				break
			}
		}
	case "p-head":
		for i := 0; i < p.arg(1, 1); i++ {
			l, ok := p.line()
			if !ok || !p.out(l+"\n") {
				break
			}
		}
	case "p-sink":
		n := 0
		for {
			_, ok := p.line()
			if !ok {
				break
			}
			n++
		}
		code = n
	case "p-sleep": // until a signal ends it
		p.do("sleep", nil, func() int { return 0 }, func() {})
	case "p-stop": // stops itself, then ends
		mc.Do(&mc.Op{Kind: "stop self", Foot: []mc.Foot{{O: ptable, K: mc.W}, {O: sigs, K: mc.W}}, Alts: always, Run: func(int) { p.signal(syscall.SIGSTOP) }})
		p.do("stopped", nil, always, func() {})
		code = p.arg(1, 0)
	case "p-send": // sends a signal to every other process
		p.do("send", []mc.Foot{{O: ptable, K: mc.W}, {O: sigs, K: mc.W}}, always, func() {
			for _, n := range order {
				if q := procs[n]; q != nil && q != p && !q.reaped {
					q.signal(syscall.Signal(p.arg(1, 15)))
				}
			}
		})
	case "rm":
		p.do("unlink", []mc.Foot{{O: fs, K: mc.W}}, always, func() {
			for _, a := range p.argv[1:] {
				if q := fifos[a]; q != nil {
					q.removed = true
				}
			}
		})
	case "p-from": // copies the files named to its output
		for _, a := range p.argv[1:] {
			f, err := openAs(a, os.O_RDONLY, 0, p)
			if err != nil {
				code = 1
				break
			}
			p.files = append(p.files, f)
			b := make([]byte, 4096)
			for p.killed == 0 {
				n, err := f.readAs(b, p)
				if n > 0 && !p.out(string(b[:n])) {
					break
				}
				if err != nil || n == 0 {
					break
				}
			}
		}
	case "p-onto": // writes its first argument to the files named
		for _, a := range p.argv[2:] {
			f, err := openAs(a, os.O_WRONLY, 0, p)
			if err != nil {
				code = 1
				break
			}
			p.files = append(p.files, f)
			if _, err := f.writeAs([]byte(p.argv[1]+"\n"), p); err != nil && p.killed == 0 {
				p.killed = syscall.SIGPIPE
			}
		}
	case "p-steps": // takes that many steps
		for i := 0; i < p.arg(1, 1); i++ {
			p.do("step", nil, always, func() {})
		}
		code = p.arg(2, 0)
	}
	p.exit(code)
}

func (p *Proc) signal(s syscall.Signal) {
	if p.zombie {
		return
	}
	switch s {
	case 0, syscall.SIGCHLD, syscall.SIGWINCH:
	case syscall.SIGSTOP, syscall.SIGTSTP, syscall.SIGTTIN, syscall.SIGTTOU:
		if !p.stopped {
			p.stopped = true
			p.change, p.changeTo = true, syscall.WaitStatus(0x7f|int(s)<<8)
			raise(syscall.SIGCHLD)
		}
	case syscall.SIGCONT:
		if p.stopped {
			p.stopped = false
			p.change, p.changeTo = true, syscall.WaitStatus(0xffff)
			raise(syscall.SIGCHLD)
		}
	default:
		p.killed = s
		p.stopped = p.stopped && s != syscall.SIGKILL
	}
}

func raise(s syscall.Signal) {
	for _, x := range pending {
		if x == s {
			return
		}
	}
	pending = append(pending, s)
}

func Wait4(pid int, ws interface{}, options int, ru interface{}) (got int, err error) {
	mc.Do(&mc.Op{Kind: "wait4", Foot: []mc.Foot{{O: ptable, K: mc.W}}, Alts: always, Run: func(int) {
		left := 0
		for _, n := range order {
			p := procs[n]
			if p == nil || p.reaped || (pid > 0 && p.pid != pid) {
				continue
			}
			left++
			st := syscall.WaitStatus(0)
			switch {
			case p.zombie:
				st = p.status
				p.reaped = true
			case p.change && p.changeTo == 0xffff && options&syscall.WCONTINUED != 0,
				p.change && p.changeTo != 0xffff && options&syscall.WUNTRACED != 0:
				st = p.changeTo
				p.change = false
			default:
				continue
			}
			setStatus(ws, st)
			got = p.pid
			return
		}
		if left == 0 {
			got, err = -1, syscall.ECHILD
		}
	}})
	return
}

func Kill(pid int, s syscall.Signal) (err error) {
	mc.Do(&mc.Op{Kind: fmt.Sprintf("kill %d", s), Foot: []mc.Foot{{O: ptable, K: mc.W}, {O: sigs, K: mc.W}}, Alts: always, Run: func(int) {
		found := false
		for _, n := range order {
			p := procs[n]
			if p != nil && !p.reaped && (p.pid == pid || p.pgid == -pid) {
				found = true
				p.signal(s)
			}
		}
		if !found {
			err = syscall.ESRCH
		}
	}})
	return
}

// Left lists the processes that have not been reaped.
func Left() string {
	var l []string
	for _, n := range order {
		p := procs[n]
		if !p.reaped {
			s := "running"
			if p.zombie {
				s = "zombie"
			} else if p.stopped {
				s = "stopped"
			}
			l = append(l, strings.Join(p.argv, " ")+": "+s)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// Fifos lists the fifos that have been left behind.
func Fifos() string {
	var l []string
	for n, q := range fifos {
		if !q.removed {
			l = append(l, n+": not removed")
		}
		if q.p.readers != 0 || q.p.writers != 0 {
			l = append(l, n+": still open")
		}
	}
	for _, n := range stray {
		l = append(l, n+": made as a file")
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// ---- Signals and the terminal.

func Notify(c chan<- os.Signal, ss ...os.Signal) {
	ch := bidi[c]
	_ = ch
	for _, s := range ss {
		handlers[s.(syscall.Signal)] = append(handlers[s.(syscall.Signal)], toBidi(c))
		delete(ignored, s.(syscall.Signal))
	}
	if !kernel {
		kernel = true
		mc.Go(kernelMain)
	}
}
func Ignore(ss ...os.Signal) {
	for _, s := range ss {
		ignored[s.(syscall.Signal)] = true
	}
}
func Reset_(...os.Signal) {}
func Stop(c chan<- os.Signal) {
	for s, cs := range handlers {
		var k []chan os.Signal
		for _, x := range cs {
			if x != toBidi(c) {
				k = append(k, x)
			}
		}
		handlers[s] = k
	}
}

var kernel bool

func kernelMain() {
	for {
		deliver()
	}
}

func deliver() {
	foot := []mc.Foot{{O: sigs, K: mc.W}}
	seen := map[chan os.Signal]bool{}
	for _, cs := range handlers {
		for _, c := range cs {
			if !seen[c] {
				seen[c] = true
				foot = append(foot, mc.ChanFoot(c)...)
			}
		}
	}
	var c []chan os.Signal
	var s syscall.Signal
	mc.Do(&mc.Op{Kind: "deliver", Foot: foot, Blocked: foot[:1], Alts: func() int { return len(pending) }, Run: func(alt int) {
		s = pending[alt]
		pending = append(append([]syscall.Signal(nil), pending[:alt]...), pending[alt+1:]...)
		c = handlers[s]
		for _, x := range c {
			mc.TrySend[os.Signal](x, s)
		}
	}})
}

// Type is what a key that sends a signal does: everything in the foreground group gets it.
func Type(s syscall.Signal) {
	mc.Do(&mc.Op{Kind: fmt.Sprintf("key %d", s), Foot: []mc.Foot{{O: ptable, K: mc.W}, {O: sigs, K: mc.W}}, Alts: always, Run: func(int) {
		Log = append(Log, fmt.Sprintf("key %d", s))
		if FgGroup == shellGroup && !ignored[s] {
			raise(s)
		}
		for _, n := range order {
			p := procs[n]
			if p != nil && !p.zombie && p.pgid == FgGroup {
				p.signal(s)
			}
		}
	}})
}

func IoctlGetInt(fd int, req uint) (int, error) { return FgGroup, nil }
func IoctlSetPointerInt(fd int, req uint, v int) error {
	mc.Do(&mc.Op{Kind: "tcsetpgrp", Foot: []mc.Foot{{O: ptable, K: mc.W}}, Alts: always, Run: func(int) { FgGroup = v }})
	return nil
}
func IoctlSetInt(fd int, req uint, v int) error { return IoctlSetPointerInt(fd, req, v) }
func Setpgid(pid, pgid int) error               { return nil }
func Getpgid(pid int) (int, error)              { return shellGroup, nil }

var (
	umaskO = &mc.Obj{Name: "umask"}
	mask   = 0o22
)

func Umask(n int) (old int) {
	mc.Do(&mc.Op{Kind: "umask", Foot: []mc.Foot{{O: umaskO, K: mc.W}}, Alts: always, Run: func(int) { old = mask; mask = n & 0o777 }})
	return
}

func Exit(code int) { mc.Fatal(fmt.Sprintf("exit %d", code)) }
