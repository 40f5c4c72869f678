package core

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"
)

type fkind int

const (
	kFile fkind = iota
	kTTY
	kPipeIn
	kSink
	kNull
	kRandom
	kClosed
)

// Chunk is a piece of piped input and the delay before it arrives.
type Chunk struct {
	Data  string `json:"d"`
	Delay int64  `json:"t,omitempty"`
}

// File is an open file description of the simulated process.
type File struct {
	p      *Proc
	Name   string
	kind   fkind
	node   *Inode
	flag   int
	off    int64
	fd     int
	cat    string // fault category
	closed bool
	dirty  int // bytes written

	// kSink
	Buf    []byte
	Tried  []byte // including what was lost
	screen bool   // output also appears on the terminal
	limit  int64
	nospc  bool

	// kPipeIn
	chunks  []Chunk
	pending []byte
	armed   bool
	arrived bool
	endErr  error
}

// NewSink makes an output stream.
func NewSink(p *Proc, name, cat string, fd int, screen bool) *File {
	return &File{p: p, Name: name, kind: kSink, cat: cat, fd: fd, screen: screen, limit: -1}
}

// NewPipeIn makes an input pipe; endErr nil means EOF after the last chunk.
func NewPipeIn(p *Proc, chunks []Chunk, endErr error) *File {
	return &File{p: p, Name: "/dev/stdin", kind: kPipeIn, cat: "stdin", chunks: chunks, endErr: endErr}
}
func NewTTYIn(p *Proc) *File  { return &File{p: p, Name: "/dev/stdin", kind: kTTY, cat: "tty"} }
func NewNullIn(p *Proc) *File { return &File{p: p, Name: "/dev/stdin", kind: kNull, cat: "stdin"} }
func NewClosed(p *Proc, fd int, name string) *File {
	return &File{p: p, Name: name, kind: kClosed, fd: fd, cat: "stdin"}
}

func (f *File) IsTTY() bool { return f.kind == kTTY || (f.kind == kSink && f.screen) }
func (f *File) Fd() int     { return f.fd }

// rawAppend bypasses faults (used for panic text written by the runtime).
func (f *File) rawAppend(b []byte) {
	f.Buf = append(f.Buf, b...)
	if f.screen && f.p.W.TTY != nil {
		f.p.W.TTY.show(b...)
	}
}

func (f *File) err(op string, e error) error { return &fs.PathError{Op: op, Path: f.Name, Err: e} }

// Read implements (*os.File).Read.
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if Dead() {
		exitDead()
	}
	if f.closed {
		return 0, f.err("read", os.ErrClosed)
	}
	n, e := f.sysRead(b)
	if e != nil {
		return 0, f.err("read", e)
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

// sysRead is the read system call.
func (f *File) sysRead(b []byte) (int, error) {
	p := f.p
	flt := Enter(f.cat, fmt.Sprintf("read %s %d", f.Name, len(b)))
	if p.dead {
		exitDead()
	}
	max := len(b)
	if flt != nil {
		switch flt.Kind {
		case "errno":
			p.Hit(flt)
			return 0, ErrnoOf(flt)
		case "eof":
			p.Hit(flt)
			if f.kind == kPipeIn {
				f.chunks, f.pending, f.endErr, f.armed, f.arrived = nil, nil, nil, false, true
			}
			if f.kind == kFile {
				f.off = int64(len(f.node.Data))
			}
			if f.kind == kTTY {
				p.W.TTY.Hang(p)
				if p.dead {
					exitDead()
				}
			}
			return 0, nil
		case "short":
			if max > 1 {
				p.Hit(flt)
				max = 1 + int(flt.Arg)%max
				if max > len(b) {
					max = len(b)
				}
			}
		case "stall":
			p.Hit(flt)
			Sleep(time.Duration(flt.Arg))
		}
	}
	if len(b) == 0 {
		return 0, nil
	}
	b = b[:max]
	switch f.kind {
	case kNull:
		return 0, nil
	case kRandom:
		p.W.Secure.Fill(b)
		return len(b), nil
	case kClosed, kSink:
		return 0, syscall.EBADF
	case kFile:
		if f.node.Mode.IsDir() {
			return 0, syscall.EISDIR
		}
		if f.flag&syscall.O_ACCMODE == syscall.O_WRONLY {
			return 0, syscall.EBADF
		}
		if f.off >= int64(len(f.node.Data)) {
			return 0, nil
		}
		n := copy(b, f.node.Data[f.off:])
		f.off += int64(n)
		return n, nil
	case kPipeIn:
		if len(f.pending) == 0 {
			if !f.armed && len(f.chunks) > 0 {
				c := f.chunks[0]
				f.armed = true
				f.arrived = c.Delay <= 0
				if !f.arrived {
					p.W.AddTimer(time.Duration(c.Delay), func() { f.arrived = true })
				}
			}
			if f.armed {
				Block(func() bool { return f.arrived }, false)
				if p.dead {
					exitDead()
				}
				f.pending = []byte(f.chunks[0].Data)
				f.chunks = f.chunks[1:]
				f.armed = false
			}
			if len(f.pending) == 0 {
				if len(f.chunks) > 0 {
					return f.sysRead(b)
				}
				if f.endErr != nil {
					return 0, f.endErr
				}
				return 0, nil
			}
		}
		n := copy(b, f.pending)
		f.pending = f.pending[n:]
		return n, nil
	case kTTY:
		return p.W.TTY.read(p, b)
	}
	return 0, syscall.EBADF
}

// Write implements (*os.File).Write: it loops over short writes like the
// runtime's poller does.
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if Dead() {
		exitDead()
	}
	if f.closed {
		return 0, f.err("write", os.ErrClosed)
	}
	n, e := f.sysWrite(b)
	if e != nil {
		if e == syscall.EPIPE && (f == f.p.Fds[1] || f == f.p.Fds[2]) {
			f.p.Signal(syscall.SIGPIPE)
			if f.p.dead {
				exitDead()
			}
		}
		return n, f.err("write", e)
	}
	return n, nil
}

func (f *File) sysWrite(b []byte) (int, error) {
	p := f.p
	flt := Enter(f.cat, fmt.Sprintf("write %s %d", f.Name, len(b)))
	if p.dead {
		exitDead()
	}
	if f.kind == kSink {
		f.Tried = append(f.Tried, b...)
	}
	take := len(b)
	var ferr error
	if flt != nil {
		switch flt.Kind {
		case "errno":
			p.Hit(flt)
			return 0, ErrnoOf(flt)
		case "partial": // some bytes land, then the error
			p.Hit(flt)
			take = cut(take, flt.Arg)
			ferr = syscall.ENOSPC
			f.nospc = true
		case "enospc": // and everything after fails too
			p.Hit(flt)
			f.nospc = true
		case "epipe":
			p.Hit(flt)
			return 0, syscall.EPIPE
		case "stall":
			p.Hit(flt)
			Sleep(time.Duration(flt.Arg))
		case "crashpartial": // crash in the middle of the write
			p.Hit(flt)
			take = cut(take, flt.Arg)
			f.put(b[:take])
			p.Kill("KILL")
			exitDead()
		}
	}
	if f.nospc && ferr == nil && f.kind != kNull {
		return 0, syscall.ENOSPC
	}
	switch f.kind {
	case kNull:
		return len(b), nil
	case kClosed, kPipeIn, kRandom:
		return 0, syscall.EBADF
	case kFile:
		if f.flag&syscall.O_ACCMODE == syscall.O_RDONLY {
			return 0, syscall.EBADF
		}
	}
	f.put(b[:take])
	return take, ferr
}

// cut says how much of n bytes gets through; a negative argument counts from
// the end.
func cut(n int, arg int64) int {
	switch {
	case n == 0:
		return 0
	case arg < 0 && -arg <= int64(n):
		return n + int(arg)
	case arg < 0:
		return 0
	}
	return int(arg % int64(n))
}

func (f *File) put(b []byte) {
	switch f.kind {
	case kFile:
		if f.flag&syscall.O_APPEND != 0 {
			f.off = int64(len(f.node.Data))
		}
		end := f.off + int64(len(b))
		if int64(len(f.node.Data)) < end {
			f.node.Data = append(f.node.Data, make([]byte, end-int64(len(f.node.Data)))...)
		}
		copy(f.node.Data[f.off:], b)
		f.dirty += len(b)
		f.off = end
		f.node.MTime = f.p.W.Wall + f.p.W.Mono
	case kSink, kTTY:
		f.Buf = append(f.Buf, b...)
		if (f.screen || f.kind == kTTY) && f.p.W.TTY != nil {
			f.p.W.TTY.show(b...)
		}
	}
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.kind != kFile {
		return 0, f.err("seek", syscall.ESPIPE)
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.node.Data))
	}
	if off < 0 {
		return 0, f.err("seek", syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if Dead() {
		return nil
	}
	if f.closed {
		return f.err("close", os.ErrClosed)
	}
	cat := "fsclose"
	flt := Enter(cat, "close "+f.Name)
	if f.p.dead {
		exitDead()
	}
	f.closed = true
	if flt != nil && flt.Kind == "errno" {
		f.p.Hit(flt)
		if f.kind == kFile && f.dirty > 0 {
			// write-behind failed (quota, network file system): what this
			// descriptor wrote never reached the disk
			n := len(f.node.Data) - f.dirty
			if n < 0 {
				n = 0
			}
			f.node.Data = f.node.Data[:n]
		}
		return f.err("close", ErrnoOf(flt))
	}
	return nil
}

func (f *File) Sync() error {
	if f == nil {
		return os.ErrInvalid
	}
	flt := Enter("fs", "sync "+f.Name)
	if f.p.dead {
		exitDead()
	}
	if flt != nil && flt.Kind == "errno" {
		f.p.Hit(flt)
		return f.err("sync", ErrnoOf(flt))
	}
	if f.kind != kFile {
		return f.err("sync", syscall.EINVAL)
	}
	f.dirty = 0
	return nil
}

func (f *File) Truncate(n int64) error {
	if f.kind != kFile || f.flag&syscall.O_ACCMODE == syscall.O_RDONLY {
		return f.err("truncate", syscall.EINVAL)
	}
	Enter("fs", "ftruncate "+f.Name)
	for int64(len(f.node.Data)) < n {
		f.node.Data = append(f.node.Data, 0)
	}
	f.node.Data = f.node.Data[:n]
	return nil
}

func (f *File) Chmod(m fs.FileMode) error {
	if f.kind != kFile {
		return f.err("chmod", syscall.EINVAL)
	}
	Enter("fs", "fchmod "+f.Name)
	if f.p.dead {
		exitDead()
	}
	f.node.Mode = f.node.Mode&^fs.ModePerm | m.Perm()
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return FileInfo{}, os.ErrInvalid
	}
	if f.closed {
		return FileInfo{}, f.err("stat", os.ErrClosed)
	}
	Enter("fs", "fstat "+f.Name)
	if f.p.dead {
		exitDead()
	}
	switch f.kind {
	case kFile:
		return FileInfo{f.Name, *f.node}, nil
	case kTTY, kNull, kRandom:
		return FileInfo{f.Name, Inode{Mode: fs.ModeDevice | fs.ModeCharDevice | 0620}}, nil
	case kSink:
		if f.screen {
			return FileInfo{f.Name, Inode{Mode: fs.ModeDevice | fs.ModeCharDevice | 0620}}, nil
		}
		return FileInfo{f.Name, Inode{Mode: fs.ModeNamedPipe | 0600}}, nil
	case kPipeIn:
		return FileInfo{f.Name, Inode{Mode: fs.ModeNamedPipe | 0600}}, nil
	}
	return FileInfo{}, f.err("stat", syscall.EBADF)
}

// FileByFd finds the standard stream behind a descriptor number.
func (p *Proc) FileByFd(fd int) *File {
	if fd >= 0 && fd < 3 {
		return p.Fds[fd]
	}
	return p.extraFd[fd]
}

// RegisterFd makes a later-opened file reachable by number (for ioctls).
func (p *Proc) RegisterFd(f *File) {
	if p.extraFd == nil {
		p.extraFd = map[int]*File{}
	}
	p.extraFd[f.fd] = f
}
