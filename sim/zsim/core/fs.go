package core

import (
	"io/fs"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

func exitDead() { runtime.Goexit() }

// Inode is a file, directory or symbolic link.
type Inode struct {
	Data  []byte
	Mode  fs.FileMode
	UID   int
	MTime int64
	Link  string // symlink target
	Ino   int

	Chunks []Chunk // a named pipe: what its writer sends
}

// FS is the simulated filesystem (page cache included: it survives a process
// crash).
type FS struct {
	Nodes map[string]*Inode
	next  int
}

func NewFS() *FS {
	f := &FS{Nodes: map[string]*Inode{}}
	for _, d := range []string{"/", "/work", "/tmp", "/home", "/home/user", "/dev", "/etc"} {
		m := fs.ModeDir | 0755
		if d == "/tmp" {
			m = fs.ModeDir | 0777 | fs.ModeSticky
		}
		uid := 0
		if d == "/work" || d == "/home/user" {
			uid = 1000
		}
		f.next++
		f.Nodes[d] = &Inode{Mode: m, UID: uid, Ino: f.next}
	}
	return f
}

// Put creates or replaces a file from outside the process.
func (f *FS) Put(p string, data []byte, mode fs.FileMode) *Inode {
	f.next++
	n := &Inode{Data: append([]byte{}, data...), Mode: mode, UID: 1000, Ino: f.next}
	f.Nodes[p] = n
	return n
}
func (f *FS) MkdirAll(p string, mode fs.FileMode) {
	if _, ok := f.Nodes[p]; !ok {
		f.next++
		f.Nodes[p] = &Inode{Mode: fs.ModeDir | mode, UID: 1000, Ino: f.next}
	}
}
func (f *FS) Symlink(target, p string) {
	f.next++
	f.Nodes[p] = &Inode{Mode: fs.ModeSymlink | 0777, UID: 1000, Link: target, Ino: f.next}
}
func (f *FS) Del(p string) { delete(f.Nodes, p) }

// Snapshot renders the whole filesystem for comparison.
func (f *FS) Snapshot() map[string]string {
	out := map[string]string{}
	for p, n := range f.Nodes {
		if n.Mode.IsDir() {
			out[p] = n.Mode.String()
		} else {
			out[p] = n.Mode.String() + "|" + n.Link + "|" + string(n.Data)
		}
	}
	return out
}

func (f *FS) abs(cwd, p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	trail := strings.HasSuffix(p, "/") && len(p) > 1
	p = path.Clean(p)
	if trail {
		p += "/"
	}
	return p
}

func (pr *Proc) access(n *Inode, want fs.FileMode) bool {
	if pr.UID == 0 {
		return true
	}
	bits := n.Mode.Perm() & 7
	if n.UID == pr.UID {
		bits = n.Mode.Perm() >> 6 & 7
	}
	return bits&want == want
}

// resolve walks p; follow decides whether a final symlink is followed.
// It returns the canonical path, the inode (nil if absent) and an errno.
func (f *FS) resolve(pr *Proc, p string, follow bool) (string, *Inode, syscall.Errno) {
	if p == "" {
		return "", nil, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return "", nil, syscall.EINVAL
	}
	p = f.abs(pr.Cwd, p)
	needDir := strings.HasSuffix(p, "/") && len(p) > 1
	p = strings.TrimSuffix(p, "/")
	if p == "" {
		p = "/"
	}
	for hops := 0; hops < 20; hops++ {
		parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
		if p == "/" {
			parts = nil
		}
		at := "/"
		restart := false
		for i, c := range parts {
			if len(c) > 255 {
				return "", nil, syscall.ENAMETOOLONG
			}
			dir := f.Nodes[at]
			if dir == nil {
				return "", nil, syscall.ENOENT
			}
			if !dir.Mode.IsDir() {
				return "", nil, syscall.ENOTDIR
			}
			if !pr.access(dir, 1) {
				return "", nil, syscall.EACCES
			}
			next := path.Join(at, c)
			n := f.Nodes[next]
			last := i == len(parts)-1
			if n != nil && n.Mode&fs.ModeSymlink != 0 && (!last || follow || needDir) {
				t := n.Link
				if !strings.HasPrefix(t, "/") {
					t = path.Join(at, t)
				}
				p = path.Clean(path.Join(append([]string{t}, parts[i+1:]...)...))
				restart = true
				break
			}
			if n == nil && !last {
				return "", nil, syscall.ENOENT
			}
			at = next
		}
		if restart {
			continue
		}
		n := f.Nodes[at]
		if n != nil && needDir && !n.Mode.IsDir() {
			return "", nil, syscall.ENOTDIR
		}
		if n == nil && needDir {
			return at, nil, syscall.EISDIR
		}
		return at, n, 0
	}
	return "", nil, syscall.ELOOP
}

// FileInfo implements fs.FileInfo for an inode.
type FileInfo struct {
	N string
	I Inode
}

func (i FileInfo) Name() string { return i.N }
func (i FileInfo) Size() int64 {
	if i.I.Mode&fs.ModeNamedPipe != 0 {
		return 0
	}
	return int64(len(i.I.Data))
}
func (i FileInfo) Mode() fs.FileMode  { return i.I.Mode }
func (i FileInfo) ModTime() time.Time { return time.Unix(0, i.I.MTime) }
func (i FileInfo) IsDir() bool        { return i.I.Mode.IsDir() }
func (i FileInfo) Sys() any           { return nil }

func (pr *Proc) fsEnter(op, p string) error {
	f := Enter("fs", op+" "+p)
	if pr.dead {
		exitDead()
	}
	if f != nil && f.Kind == "errno" {
		pr.Hit(f)
		return ErrnoOf(f)
	}
	return nil
}

func pathErr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// Stat implements os.Stat and os.Lstat.
func (pr *Proc) Stat(p string, follow bool) (FileInfo, error) {
	op := "stat"
	if !follow {
		op = "lstat"
	}
	if err := pr.fsEnter(op, p); err != nil {
		return FileInfo{}, pathErr(op, p, err)
	}
	_, n, e := pr.W.FS.resolve(pr, p, follow)
	if e != 0 {
		return FileInfo{}, pathErr(op, p, e)
	}
	if n == nil {
		return FileInfo{}, pathErr(op, p, syscall.ENOENT)
	}
	return FileInfo{path.Base(p), *n}, nil
}

// Open implements os.OpenFile.
func (pr *Proc) Open(p string, flag int, perm fs.FileMode) (*File, error) {
	if err := pr.fsEnter("open", p); err != nil {
		return nil, pathErr("open", p, err)
	}
	w := pr.W
	switch f := w.FS; {
	case p == "/dev/null":
		return &File{p: pr, Name: p, kind: kNull, fd: pr.newFd()}, nil
	case p == "/dev/stdin" || p == "/dev/fd/0":
		return pr.Fds[0], nil
	case p == "/dev/stdout" || p == "/dev/fd/1":
		return pr.Fds[1], nil
	case p == "/dev/stderr" || p == "/dev/fd/2":
		return pr.Fds[2], nil
	case p == "/dev/urandom" || p == "/dev/random":
		return &File{p: pr, Name: p, kind: kRandom, fd: pr.newFd()}, nil
	case p == "/dev/tty":
		if w.TTY == nil {
			return nil, pathErr("open", p, syscall.ENXIO)
		}
		return &File{p: pr, Name: p, kind: kTTY, fd: pr.newFd(), cat: "tty", screen: true}, nil
	default:
		excl := flag&syscall.O_EXCL != 0 && flag&syscall.O_CREAT != 0
		at, n, e := f.resolve(pr, p, !excl && flag&syscall.O_NOFOLLOW == 0)
		if e != 0 {
			return nil, pathErr("open", p, e)
		}
		acc := flag & syscall.O_ACCMODE
		if n == nil {
			if flag&syscall.O_CREAT == 0 {
				return nil, pathErr("open", p, syscall.ENOENT)
			}
			dir := f.Nodes[path.Dir(at)]
			if dir == nil {
				return nil, pathErr("open", p, syscall.ENOENT)
			}
			if !dir.Mode.IsDir() {
				return nil, pathErr("open", p, syscall.ENOTDIR)
			}
			if !pr.access(dir, 3) {
				return nil, pathErr("open", p, syscall.EACCES)
			}
			f.next++
			n = &Inode{Mode: perm.Perm() &^ fs.FileMode(pr.Umask), UID: pr.UID, MTime: w.Wall + w.Mono, Ino: f.next}
			f.Nodes[at] = n
		} else {
			if excl {
				return nil, pathErr("open", p, syscall.EEXIST)
			}
			if n.Mode&fs.ModeSymlink != 0 {
				return nil, pathErr("open", p, syscall.ELOOP)
			}
			if n.Mode.IsDir() && (acc != syscall.O_RDONLY || flag&syscall.O_CREAT != 0) {
				return nil, pathErr("open", p, syscall.EISDIR)
			}
			want := fs.FileMode(4)
			if acc == syscall.O_WRONLY {
				want = 2
			} else if acc == syscall.O_RDWR {
				want = 6
			}
			if !pr.access(n, want) {
				return nil, pathErr("open", p, syscall.EACCES)
			}
			if n.Mode&fs.ModeNamedPipe != 0 && acc == syscall.O_RDONLY {
				return &File{p: pr, Name: p, kind: kPipeIn, fd: pr.newFd(), cat: "fs", chunks: append([]Chunk{}, n.Chunks...)}, nil
			}
			if flag&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY {
				n.Data = nil
			}
		}
		return &File{p: pr, Name: p, kind: kFile, node: n, flag: flag, fd: pr.newFd(), cat: "fs"}, nil
	}
}

func (pr *Proc) newFd() int { pr.nextFd++; return pr.nextFd + 2 }

func (pr *Proc) Remove(p string) error {
	if err := pr.fsEnter("unlink", p); err != nil {
		return pathErr("remove", p, err)
	}
	f := pr.W.FS
	at, n, e := f.resolve(pr, p, false)
	if e != 0 {
		return pathErr("remove", p, e)
	}
	if n == nil {
		return pathErr("remove", p, syscall.ENOENT)
	}
	if !pr.access(f.Nodes[path.Dir(at)], 3) {
		return pathErr("remove", p, syscall.EACCES)
	}
	if n.Mode.IsDir() {
		for q := range f.Nodes {
			if strings.HasPrefix(q, at+"/") {
				return pathErr("remove", p, syscall.ENOTEMPTY)
			}
		}
	}
	delete(f.Nodes, at)
	return nil
}

func (pr *Proc) Rename(from, to string) error {
	le := func(e error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if err := pr.fsEnter("rename", from+" "+to); err != nil {
		return le(err)
	}
	f := pr.W.FS
	a, n, e := f.resolve(pr, from, false)
	if e != 0 {
		return le(e)
	}
	if n == nil {
		return le(syscall.ENOENT)
	}
	b, m, e := f.resolve(pr, to, false)
	if e != 0 {
		return le(e)
	}
	if d := f.Nodes[path.Dir(b)]; d == nil || !pr.access(d, 3) {
		return le(syscall.EACCES)
	}
	if m != nil && m.Mode.IsDir() && !n.Mode.IsDir() {
		return le(syscall.EISDIR)
	}
	delete(f.Nodes, a)
	f.Nodes[b] = n
	return nil
}

func (pr *Proc) Link(from, to string) error {
	le := func(e error) error { return &os.LinkError{Op: "link", Old: from, New: to, Err: e} }
	if err := pr.fsEnter("link", from+" "+to); err != nil {
		return le(err)
	}
	f := pr.W.FS
	_, n, e := f.resolve(pr, from, false)
	if e != 0 {
		return le(e)
	}
	if n == nil {
		return le(syscall.ENOENT)
	}
	b, m, e := f.resolve(pr, to, false)
	if e != 0 {
		return le(e)
	}
	if m != nil {
		return le(syscall.EEXIST)
	}
	if d := f.Nodes[path.Dir(b)]; d == nil || !pr.access(d, 3) {
		return le(syscall.EACCES)
	}
	f.Nodes[b] = n
	return nil
}

func (pr *Proc) SymlinkAt(target, p string) error {
	if err := pr.fsEnter("symlink", p); err != nil {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: err}
	}
	f := pr.W.FS
	b, m, e := f.resolve(pr, p, false)
	if e != 0 {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: e}
	}
	if m != nil {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: syscall.EEXIST}
	}
	f.Symlink(target, b)
	return nil
}

func (pr *Proc) Readlink(p string) (string, error) {
	if err := pr.fsEnter("readlink", p); err != nil {
		return "", pathErr("readlink", p, err)
	}
	_, n, e := pr.W.FS.resolve(pr, p, false)
	if e != 0 {
		return "", pathErr("readlink", p, e)
	}
	if n == nil {
		return "", pathErr("readlink", p, syscall.ENOENT)
	}
	if n.Mode&fs.ModeSymlink == 0 {
		return "", pathErr("readlink", p, syscall.EINVAL)
	}
	return n.Link, nil
}

func (pr *Proc) Chmod(p string, mode fs.FileMode) error {
	if err := pr.fsEnter("chmod", p); err != nil {
		return pathErr("chmod", p, err)
	}
	_, n, e := pr.W.FS.resolve(pr, p, true)
	if e != 0 {
		return pathErr("chmod", p, e)
	}
	if n == nil {
		return pathErr("chmod", p, syscall.ENOENT)
	}
	if n.UID != pr.UID && pr.UID != 0 {
		return pathErr("chmod", p, syscall.EPERM)
	}
	n.Mode = n.Mode&^fs.ModePerm | mode.Perm()
	return nil
}

func (pr *Proc) Mkdir(p string, mode fs.FileMode) error {
	if err := pr.fsEnter("mkdir", p); err != nil {
		return pathErr("mkdir", p, err)
	}
	f := pr.W.FS
	at, n, e := f.resolve(pr, p, false)
	if e != 0 && e != syscall.EISDIR {
		return pathErr("mkdir", p, e)
	}
	if n != nil {
		return pathErr("mkdir", p, syscall.EEXIST)
	}
	if d := f.Nodes[path.Dir(at)]; d == nil || !pr.access(d, 3) {
		return pathErr("mkdir", p, syscall.EACCES)
	}
	f.next++
	f.Nodes[at] = &Inode{Mode: fs.ModeDir | mode.Perm()&^fs.FileMode(pr.Umask), UID: pr.UID, Ino: f.next}
	return nil
}

// List returns the entries of a directory.
func (pr *Proc) List(p string) ([]FileInfo, error) {
	if err := pr.fsEnter("readdir", p); err != nil {
		return nil, pathErr("open", p, err)
	}
	f := pr.W.FS
	at, n, e := f.resolve(pr, p, true)
	if e != 0 {
		return nil, pathErr("open", p, e)
	}
	if n == nil {
		return nil, pathErr("open", p, syscall.ENOENT)
	}
	if !n.Mode.IsDir() {
		return nil, pathErr("readdirent", p, syscall.ENOTDIR)
	}
	var out []FileInfo
	for q, m := range f.Nodes {
		if q != "/" && path.Dir(q) == at {
			out = append(out, FileInfo{path.Base(q), *m})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].N < out[j].N })
	return out, nil
}
