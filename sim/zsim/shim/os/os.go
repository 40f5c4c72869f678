// Package os is the simulated os package.
package os

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"zsim/core"
)

// File is a simulated open file.
type File struct {
	f    *core.File
	name string
}

var (
	Stdin, Stdout, Stderr *File
	Args                  []string
	// ErrProcessDone and friends keep their identity through the aliases.
)

func init() {
	core.OnProcStart(func(p *core.Proc) {
		Stdin = &File{p.Fds[0], "/dev/stdin"}
		Stdout = &File{p.Fds[1], "/dev/stdout"}
		Stderr = &File{p.Fds[2], "/dev/stderr"}
		Args = append([]string{}, p.Args...)
	})
}

func cf(f *File) *core.File {
	if f == nil {
		return nil
	}
	return f.f
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	return f.f.Read(b)
}
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	return f.f.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	save, err := f.f.Seek(0, 1)
	if err != nil {
		return 0, err
	}
	defer f.f.Seek(save, 0)
	f.f.Seek(off, 0)
	n, err := io.ReadFull(f, b)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	save, err := f.f.Seek(0, 1)
	if err != nil {
		return 0, err
	}
	defer f.f.Seek(save, 0)
	f.f.Seek(off, 0)
	return f.Write(b)
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}
func (f *File) Seek(off int64, whence int) (int64, error) { return cf(f).Seek(off, whence) }
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	return f.f.Close()
}
func (f *File) Sync() error               { return cf(f).Sync() }
func (f *File) Truncate(n int64) error    { return f.f.Truncate(n) }
func (f *File) Chmod(m fs.FileMode) error { return f.f.Chmod(m) }
func (f *File) Chown(uid, gid int) error  { return nil }
func (f *File) Name() string              { return f.name }
func (f *File) Fd() uintptr {
	if f == nil {
		return ^uintptr(0)
	}
	return uintptr(f.f.Fd())
}
func (f *File) Stat() (fs.FileInfo, error) {
	i, err := cf(f).Stat()
	if err != nil {
		return nil, err
	}
	i.N = filepath.Base(f.name)
	return i, nil
}
func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) {
	core.NotSupported("os.File.SyscallConn")
	return nil, nil
}
func (f *File) Chdir() error { core.NotSupported("os.File.Chdir"); return nil }
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := core.Cur().List(f.name)
	var out []string
	for _, e := range l {
		out = append(out, e.N)
	}
	return out, err
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := core.Cur().List(f.name)
	var out []fs.FileInfo
	for _, e := range l {
		out = append(out, e)
	}
	return out, err
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) { return ReadDir(f.name) }

func NewFile(fd uintptr, name string) *File {
	p := core.Cur()
	if p == nil {
		return nil
	}
	c := p.FileByFd(int(fd))
	if c == nil {
		return nil
	}
	return &File{c, name}
}

func dead() error { return syscall.EIO }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if core.Dead() {
		return nil, dead()
	}
	p := core.Cur()
	c, err := p.Open(name, flag, perm)
	if err != nil {
		return nil, err
	}
	p.RegisterFd(c)
	return &File{c, name}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (fs.FileInfo, error) {
	if core.Dead() {
		return nil, dead()
	}
	i, err := core.Cur().Stat(name, true)
	if err != nil {
		return nil, err
	}
	return i, nil
}
func Lstat(name string) (fs.FileInfo, error) {
	if core.Dead() {
		return nil, dead()
	}
	i, err := core.Cur().Stat(name, false)
	if err != nil {
		return nil, err
	}
	return i, nil
}
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(core.FileInfo)
	y, ok2 := b.(core.FileInfo)
	return ok1 && ok2 && x.I.Ino == y.I.Ino && x.I.Ino != 0
}
func Remove(name string) error {
	if core.Dead() {
		return dead()
	}
	return core.Cur().Remove(name)
}
func RemoveAll(name string) error {
	if core.Dead() {
		return dead()
	}
	err := core.Cur().Remove(name)
	if os.IsNotExist(err) {
		return nil
	}
	return err
}
func Rename(a, b string) error {
	if core.Dead() {
		return dead()
	}
	return core.Cur().Rename(a, b)
}
func Link(a, b string) error {
	if core.Dead() {
		return dead()
	}
	return core.Cur().Link(a, b)
}
func Symlink(a, b string) error {
	if core.Dead() {
		return dead()
	}
	return core.Cur().SymlinkAt(a, b)
}
func Readlink(a string) (string, error) {
	if core.Dead() {
		return "", dead()
	}
	return core.Cur().Readlink(a)
}
func Chmod(name string, m fs.FileMode) error {
	if core.Dead() {
		return dead()
	}
	return core.Cur().Chmod(name, m)
}
func Chown(name string, uid, gid int) error { return nil }
func Mkdir(name string, m fs.FileMode) error {
	if core.Dead() {
		return dead()
	}
	return core.Cur().Mkdir(name, m)
}
func MkdirAll(name string, m fs.FileMode) error {
	if core.Dead() {
		return dead()
	}
	if i, err := Stat(name); err == nil {
		if i.IsDir() {
			return nil
		}
		return &fs.PathError{Op: "mkdir", Path: name, Err: syscall.ENOTDIR}
	}
	if d := filepath.Dir(name); d != name {
		if err := MkdirAll(d, m); err != nil {
			return err
		}
	}
	err := core.Cur().Mkdir(name, m)
	if os.IsExist(err) {
		return nil
	}
	return err
}
func ReadDir(name string) ([]fs.DirEntry, error) {
	if core.Dead() {
		return nil, dead()
	}
	l, err := core.Cur().List(name)
	var out []fs.DirEntry
	for _, e := range l {
		out = append(out, fs.FileInfoToDirEntry(e))
	}
	return out, err
}
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}
func tempName(pattern string) string {
	r := fmt.Sprint(core.W.Ambient.Uint64() % 1000000000)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i] + r + pattern[i+1:]
	}
	return pattern + r
}
func CreateTemp(dir, pattern string) (*File, error) {
	if core.Dead() {
		return nil, dead()
	}
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		f, err := OpenFile(filepath.Join(dir, tempName(pattern)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) && i < 10000 {
			continue
		}
		return f, err
	}
}
func MkdirTemp(dir, pattern string) (string, error) {
	if core.Dead() {
		return "", dead()
	}
	if dir == "" {
		dir = TempDir()
	}
	n := filepath.Join(dir, tempName(pattern))
	return n, Mkdir(n, 0700)
}
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}
func Getwd() (string, error) { return core.Cur().Cwd, nil }
func Chdir(d string) error {
	core.Cur().Cwd = d
	return nil
}

func Exit(code int) {
	p := core.Cur()
	if p == nil {
		panic("os.Exit outside a simulated process")
	}
	p.Exit(code)
}

func env() map[string]string {
	if p := core.Cur(); p != nil {
		return p.Env
	}
	return map[string]string{}
}
func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func LookupEnv(k string) (string, bool) {
	v, ok := env()[k]
	if p := core.Cur(); !ok && p != nil && p.EnvAny != "" && k != "" {
		return p.EnvAny, true
	}
	return v, ok
}
func Setenv(k, v string) error { env()[k] = v; return nil }
func Unsetenv(k string) error  { delete(env(), k); return nil }
func Clearenv() {
	e := env()
	for k := range e {
		delete(e, k)
	}
}
func Environ() []string {
	var out []string
	for k, v := range env() {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Getpid() int                    { return 4242 }
func Getppid() int                   { return 4241 }
func Getuid() int                    { return core.Cur().UID }
func Geteuid() int                   { return core.Cur().UID }
func Getgid() int                    { return core.Cur().UID }
func Getegid() int                   { return core.Cur().UID }
func Hostname() (string, error)      { return Getenv("HOSTNAME"), nil }
func UserHomeDir() (string, error)   { return Getenv("HOME"), nil }
func UserConfigDir() (string, error) { return Getenv("HOME") + "/.config", nil }
func UserCacheDir() (string, error)  { return Getenv("HOME") + "/.cache", nil }
func Executable() (string, error)    { return "/usr/bin/mnemonikey", nil }
func Getpagesize() int               { return 4096 }
