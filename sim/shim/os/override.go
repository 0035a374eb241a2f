// Package os is the simulator's stand-in for os.
//
// With a World set, standard streams, files and process exit belong to the
// simulation: streams and virtual files are served by the harness, everything
// below World.Root is a real scratch directory reached through injectable
// operations, and anything else can be read but not changed.
package os

import (
	"errors"
	"io"
	"io/fs"
	orig "os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verifsim.local/hook"
)

// Fault is the simulator's decision about one operation.
type Fault struct {
	Err  error // fail with this error
	N    int   // bytes transferred before failing or dying
	Kill int   // 1: die before the operation, 2: die after (N bytes of) it
}

// World is the simulated environment of the running process.
type World struct {
	Args  []string
	Read  func(p []byte) (int, error)         // standard input
	Write func(fd int, p []byte) (int, error) // standard output (1), error (2)
	Files map[string]*VFile
	Root  string
	FS    func(op, path string, n int) Fault
	// Denied lists attempts to change something outside Root.
	Denied []string
}

// VFile is a virtual read-only file.
type VFile struct {
	OpenErr error
	Read    func(off int, p []byte) (int, error)
}

// W is the current world, or nil.
var W *World

const siteIO = 32760

var (
	errDead   = errors.New("process is dead")
	errDenied = syscall.EACCES
)

// KilledCode is the exit code of a simulated kill.
const KilledCode = 137

var (
	Stdin  = &File{name: "/dev/stdin", kind: kStdin}
	Stdout = &File{name: "/dev/stdout", kind: kStdout}
	Stderr = &File{name: "/dev/stderr", kind: kStderr}
	Args   = orig.Args
)

const (
	kReal = iota
	kStdin
	kStdout
	kStderr
	kVirtual
)

// File stands in for os.File.
type File struct {
	name   string
	kind   int
	real   *orig.File
	v      *VFile
	off    int
	closed bool
	write  bool
	synced int64 // size when it was last stored
}

// Reset installs a world.
func Reset(w *World) {
	W = w
	Stdin = &File{name: "/dev/stdin", kind: kStdin}
	Stdout = &File{name: "/dev/stdout", kind: kStdout}
	Stderr = &File{name: "/dev/stderr", kind: kStderr}
	Args = orig.Args
	if w != nil {
		Args = append([]string{"prog"}, w.Args...)
	}
}

func abs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}

func inRoot(p string) bool {
	return W != nil && W.Root != "" && (p == W.Root || strings.HasPrefix(p, W.Root+"/"))
}

func perr(op, path string, err error) error {
	return &orig.PathError{Op: op, Path: path, Err: err}
}

// step is called at the start of every operation of the simulated world.
func step() { hook.Y(siteIO) }

// fault asks the harness about an operation below Root.
func fault(op, path string, n int) Fault {
	if W.FS == nil {
		return Fault{}
	}
	f := W.FS(op, path, n)
	if f.Kill == 1 {
		hook.Exit(KilledCode)
	}
	return f
}

// mutate guards an operation which changes the file system.
func mutate(op, path string, do func() error) error {
	step()
	if W == nil {
		return do()
	}
	if hook.Dead() {
		return errDead
	}
	p := abs(path)
	if !inRoot(p) {
		W.Denied = append(W.Denied, op+" "+p)
		return perr(op, path, errDenied)
	}
	f := fault(op, p, 0)
	if f.Err != nil {
		return perr(op, path, f.Err)
	}
	err := do()
	if f.Kill == 2 {
		hook.Exit(KilledCode)
	}
	return err
}

func inspect(op, path string) error {
	step()
	if W == nil {
		return nil
	}
	if hook.Dead() {
		return errDead
	}
	if p := abs(path); inRoot(p) {
		f := fault(op, p, 0)
		if f.Kill == 2 {
			hook.Exit(KilledCode)
		}
		if f.Err != nil {
			return perr(op, path, f.Err)
		}
	}
	return nil
}

func Open(name string) (*File, error) { return OpenFile(name, orig.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, orig.O_RDWR|orig.O_CREATE|orig.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if W != nil {
		switch name {
		case "/dev/stdin", "/dev/fd/0":
			return &File{name: name, kind: kStdin}, nil
		case "/dev/stdout", "/dev/fd/1":
			return &File{name: name, kind: kStdout}, nil
		case "/dev/stderr", "/dev/fd/2":
			return &File{name: name, kind: kStderr}, nil
		}
		if v, ok := W.Files[name]; ok {
			step()
			if hook.Dead() {
				return nil, errDead
			}
			if v.OpenErr != nil {
				return nil, perr("open", name, v.OpenErr)
			}
			if flag&(orig.O_WRONLY|orig.O_RDWR) != 0 {
				return nil, perr("open", name, errDenied)
			}
			return &File{name: name, kind: kVirtual, v: v}, nil
		}
	}
	var f *orig.File
	write := flag&(orig.O_WRONLY|orig.O_RDWR|orig.O_CREATE|orig.O_TRUNC|orig.O_APPEND) != 0
	do := func() (err error) {
		f, err = orig.OpenFile(name, flag, perm)
		return err
	}
	var err error
	if write {
		err = mutate("openw", name, do)
	} else if err = inspect("open", name); err == nil {
		err = do()
	}
	if err != nil {
		return nil, err
	}
	return &File{name: name, real: f, write: write}, nil
}

func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	f := orig.NewFile(fd, name)
	if f == nil {
		return nil
	}
	return &File{name: name, real: f}
}

// TempDir is outside the directories that simulations compare.
func TempDir() string {
	if W != nil && W.Root != "" {
		d := W.Root + "/tmp"
		orig.MkdirAll(d, 0o700)
		return d
	}
	return orig.TempDir()
}

// Temps are the names of the temporary files and directories ever created.
var Temps = map[string]bool{}

func tempName(name string) {
	if _, err := orig.Lstat(abs(name)); err != nil {
		Temps[abs(name)] = true
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	for i := 0; ; i++ {
		name := filepath.Join(dir, prefix+"sim"+string(rune('a'+i%26))+strings.Repeat("z", i/26)+suffix)
		tempName(name)
		f, err := OpenFile(name, orig.O_RDWR|orig.O_CREATE|orig.O_EXCL, 0o600)
		if orig.IsExist(err) && i < 500 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		name := filepath.Join(dir, strings.ReplaceAll(pattern, "*", "")+"sim"+string(rune('a'+i%26))+strings.Repeat("z", i/26))
		tempName(name)
		err := Mkdir(name, 0o700)
		if orig.IsExist(err) && i < 500 {
			continue
		}
		return name, err
	}
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, orig.O_WRONLY|orig.O_CREATE|orig.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Rename(a, b string) error {
	if W != nil && !inRoot(abs(a)) {
		W.Denied = append(W.Denied, "rename "+a)
		return perr("rename", a, errDenied)
	}
	return mutate("rename", b, func() error { return orig.Rename(a, b) })
}
func Link(a, b string) error { return mutate("link", b, func() error { return orig.Link(a, b) }) }
func Symlink(a, b string) error {
	return mutate("symlink", b, func() error { return orig.Symlink(a, b) })
}
func Remove(p string) error { return mutate("remove", p, func() error { return orig.Remove(p) }) }
func RemoveAll(p string) error {
	return mutate("removeall", p, func() error { return orig.RemoveAll(p) })
}
func Mkdir(p string, m fs.FileMode) error {
	return mutate("mkdir", p, func() error { return orig.Mkdir(p, m) })
}
func MkdirAll(p string, m fs.FileMode) error {
	if fi, err := orig.Stat(p); err == nil && fi.IsDir() {
		return inspect("stat", p)
	}
	return mutate("mkdir", p, func() error { return orig.MkdirAll(p, m) })
}
func Chmod(p string, m fs.FileMode) error {
	return mutate("chmod", p, func() error { return orig.Chmod(p, m) })
}
func Chown(p string, u, g int) error {
	return mutate("chown", p, func() error { return orig.Chown(p, u, g) })
}
func Chtimes(p string, a, m time.Time) error {
	return mutate("chtimes", p, func() error { return orig.Chtimes(p, a, m) })
}
func Truncate(p string, n int64) error {
	return mutate("truncate", p, func() error { return orig.Truncate(p, n) })
}

func Stat(p string) (fs.FileInfo, error) {
	if err := inspect("stat", p); err != nil {
		return nil, err
	}
	return orig.Stat(p)
}
func Lstat(p string) (fs.FileInfo, error) {
	if err := inspect("stat", p); err != nil {
		return nil, err
	}
	return orig.Lstat(p)
}
func ReadDir(p string) ([]fs.DirEntry, error) {
	if err := inspect("readdir", p); err != nil {
		return nil, err
	}
	return orig.ReadDir(p)
}

// Exit ends the simulated process.
func Exit(code int) {
	if W != nil && hook.Active() || hook.Dead() {
		hook.Exit(code)
	}
	orig.Exit(code)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	switch f.kind {
	case kStdin:
		return 0
	case kStdout:
		return 1
	case kStderr:
		return 2
	}
	return f.real.Fd()
}

func (f *File) Read(p []byte) (int, error) {
	step()
	if hook.Dead() {
		return 0, errDead
	}
	if f.closed {
		return 0, perr("read", f.name, orig.ErrClosed)
	}
	switch f.kind {
	case kStdin:
		if W == nil {
			return orig.Stdin.Read(p)
		}
		n, err := W.Read(p)
		return n, wrap("read", f.name, err)
	case kStdout, kStderr:
		return 0, perr("read", f.name, syscall.EBADF)
	case kVirtual:
		n, err := f.v.Read(f.off, p)
		f.off += n
		return n, wrap("read", f.name, err)
	}
	if W != nil && W.FS != nil && inRoot(abs(f.name)) {
		ft := fault("read", f.name, len(p))
		if ft.Kill == 2 {
			hook.Exit(KilledCode)
		}
		if ft.Err != nil {
			n := 0
			if ft.N > 0 && ft.N < len(p) {
				n, _ = f.real.Read(p[:ft.N])
			}
			return n, perr("read", f.name, ft.Err)
		}
		if ft.N > 0 && ft.N < len(p) {
			p = p[:ft.N]
		}
	}
	return f.real.Read(p)
}

func wrap(op, name string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return perr(op, name, err)
}

func (f *File) Write(p []byte) (int, error) {
	step()
	if hook.Dead() {
		return len(p), nil
	}
	if f.closed {
		return 0, perr("write", f.name, orig.ErrClosed)
	}
	switch f.kind {
	case kStdout, kStderr:
		fd := 1
		if f.kind == kStderr {
			fd = 2
		}
		if W == nil {
			if fd == 1 {
				return orig.Stdout.Write(p)
			}
			return orig.Stderr.Write(p)
		}
		n, err := W.Write(fd, p)
		return n, wrap("write", f.name, err)
	case kStdin, kVirtual:
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if W != nil {
		ft := fault("write", f.name, len(p))
		if ft.Err != nil || ft.Kill == 2 {
			n := ft.N
			if n > len(p) {
				n = len(p)
			}
			n, _ = f.real.Write(p[:n])
			if ft.Kill == 2 {
				hook.Exit(KilledCode)
			}
			return n, perr("write", f.name, ft.Err)
		}
	}
	return f.real.Write(p)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	step()
	if f.kind == kVirtual {
		return f.v.Read(int(off), p)
	}
	if f.real == nil {
		return 0, perr("read", f.name, syscall.ESPIPE)
	}
	return f.real.ReadAt(p, off)
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if f.real == nil {
		return 0, perr("write", f.name, syscall.ESPIPE)
	}
	if _, err := f.real.Seek(off, 0); err != nil {
		return 0, err
	}
	return f.Write(p)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	step()
	if f.kind == kVirtual {
		switch whence {
		case 0:
			f.off = int(off)
		case 1:
			f.off += int(off)
		default:
			return 0, perr("seek", f.name, syscall.EINVAL)
		}
		return int64(f.off), nil
	}
	if f.real == nil {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	return f.real.Seek(off, whence)
}

func (f *File) Close() error {
	step()
	if f.closed {
		return perr("close", f.name, orig.ErrClosed)
	}
	if f.real == nil {
		if !hook.Dead() {
			f.closed = true
		}
		return nil
	}
	f.closed = true
	if W != nil && !hook.Dead() && f.write {
		ft := fault("close", f.name, 0)
		if ft.Kill == 2 {
			f.real.Close()
			hook.Exit(KilledCode)
		}
		if ft.Err != nil {
			f.lose()
			f.real.Close()
			return perr("close", f.name, ft.Err)
		}
	}
	return f.real.Close()
}

// lose drops half of what was written and is not known to be stored.
func (f *File) lose() {
	if fi, err := f.real.Stat(); err == nil && fi.Size() > f.synced {
		f.real.Truncate(f.synced + (fi.Size()-f.synced)/2)
	}
}

func (f *File) Sync() error {
	step()
	if f.real == nil {
		return nil
	}
	if W != nil && !hook.Dead() {
		ft := fault("sync", f.name, 0)
		if ft.Kill == 2 {
			hook.Exit(KilledCode)
		}
		if ft.Err != nil {
			f.lose()
			return perr("sync", f.name, ft.Err)
		}
		if fi, err := f.real.Stat(); err == nil {
			f.synced = fi.Size()
		}
	}
	return nil
}

func (f *File) Truncate(n int64) error {
	if f.real == nil {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	return mutate("truncate", f.name, func() error { return f.real.Truncate(n) })
}

func (f *File) Chmod(m fs.FileMode) error {
	if f.real == nil {
		return nil
	}
	return mutate("chmod", f.name, func() error { return f.real.Chmod(m) })
}

type info struct {
	name string
	mode fs.FileMode
}

func (i info) Name() string       { return filepath.Base(i.name) }
func (i info) Size() int64        { return 0 }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if f.real == nil {
		m := fs.ModeNamedPipe
		if f.kind == kVirtual {
			m = 0
		}
		return info{f.name, m}, nil
	}
	return f.real.Stat()
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.real == nil {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	return f.real.ReadDir(n)
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	if f.real == nil {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	return f.real.Readdir(n)
}
func (f *File) Readdirnames(n int) ([]string, error) {
	if f.real == nil {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	return f.real.Readdirnames(n)
}
func (f *File) SetDeadline(t time.Time) error      { return orig.ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return orig.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return orig.ErrNoDeadline }

// Getpid is another number in every execution.
func Getpid() int  { return hook.Pid() }
func Getppid() int { return hook.Pid() + 1 }
