// Package vos stands in for package os in the overlay build of /repo: paths
// under vw.Prefix live in an in-memory world, every other path goes to package os.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"time"

	"verif.local/w/vw"
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull

	ModeDir     = os.ModeDir
	ModePerm    = os.ModePerm
	ModeAppend  = os.ModeAppend
	ModeType    = os.ModeType
	ModeSymlink = os.ModeSymlink
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	LinkError    = os.LinkError
	Signal       = os.Signal
	SyscallError = os.SyscallError
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Args      = os.Args
	Interrupt = os.Interrupt
	Kill      = os.Kill

	Stdin  = &File{r: os.Stdin}
	Stdout = &File{r: os.Stdout}
	Stderr = &File{r: os.Stderr}

	IsNotExist      = os.IsNotExist
	IsExist         = os.IsExist
	IsPermission    = os.IsPermission
	IsTimeout       = os.IsTimeout
	IsPathSeparator = os.IsPathSeparator
	Getenv          = os.Getenv
	Setenv          = os.Setenv
	Unsetenv        = os.Unsetenv
	LookupEnv       = os.LookupEnv
	Environ         = os.Environ
	ExpandEnv       = os.ExpandEnv
	Expand          = os.Expand
	Exit            = os.Exit
	Getpid          = os.Getpid
	Getppid         = os.Getppid
	Getuid          = os.Getuid
	Getgid          = os.Getgid
	Getpagesize     = os.Getpagesize
	Getwd           = os.Getwd
	Chdir           = os.Chdir
	Hostname        = os.Hostname
	TempDir         = os.TempDir
	MkdirTemp       = os.MkdirTemp
	UserHomeDir     = os.UserHomeDir
	Executable      = os.Executable
	SameFile        = os.SameFile
	NewSyscallError = os.NewSyscallError
)

func perr(op, p string, err error) error { return &os.PathError{Op: op, Path: p, Err: err} }

// File is either a real file or an open handle on a file of a world.
type File struct {
	r      *os.File
	w      *vw.World
	n      *vw.Node
	name   string
	off    int64
	closed bool
	rd, wr bool
	app    bool
	dir    bool
	dirPos int
}

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{r: f}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func NewFile(fd uintptr, name string) *File {
	f := os.NewFile(fd, name)
	if f == nil {
		return nil
	}
	return &File{r: f}
}
func CreateTemp(dir, pattern string) (*File, error) { return wrap(os.CreateTemp(dir, pattern)) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	w, in := vw.Lookup(name)
	if w == nil {
		return wrap(os.OpenFile(name, flag, perm))
	}
	if fl := w.Fault; fl != nil {
		if err := fl(vw.EvCreate, in); err != nil {
			return nil, perr("open", name, err)
		}
	}
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	f := &File{w: w, name: name, rd: acc != O_WRONLY, wr: acc != O_RDONLY, app: flag&O_APPEND != 0}
	w.Mu.Lock()
	isDir := w.Dirs[in]
	n := w.Files[in]
	pd := path.Dir(in)
	if pd == "." {
		pd = ""
	}
	okp := w.Dirs[pd]
	w.Mu.Unlock()
	if isDir {
		if f.wr {
			return nil, perr("open", name, errors.New("is a directory"))
		}
		f.dir = true
		return f, nil
	}
	if n == nil {
		if flag&O_CREATE == 0 || !okp {
			return nil, perr("open", name, os.ErrNotExist)
		}
		n = w.CreateIn(in)
	} else if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, os.ErrExist)
	}
	f.n = n
	if flag&O_TRUNC != 0 && w.SizeNode(n) != 0 {
		w.TruncNode(n, 0)
	}
	w.Mu.Lock()
	w.OpenHandles++
	w.Mu.Unlock()
	return f, nil
}

func (f *File) Name() string {
	if f.r != nil {
		return f.r.Name()
	}
	return f.name
}

func (f *File) Fd() uintptr {
	if f.r != nil {
		return f.r.Fd()
	}
	return ^uintptr(0)
}

func (f *File) chk(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	if f.w != nil && f.w.Fault != nil {
		k := vw.EvMark
		switch op {
		case "write":
			k = vw.EvWrite
		case "sync":
			k = vw.EvSync
		case "truncate":
			k = vw.EvTrunc
		}
		if k != vw.EvMark && f.n != nil {
			if err := f.w.Fault(k, f.n.Path); err != nil {
				return perr(op, f.name, err)
			}
		}
	}
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.r != nil {
		return f.r.Close()
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	if !f.dir {
		f.w.Mu.Lock()
		f.w.OpenHandles--
		f.w.Mu.Unlock()
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if f != nil && f.r != nil {
		return f.r.Read(b)
	}
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if !f.rd {
		return 0, perr("read", f.name, errors.New("bad file descriptor"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := f.w.ReadNode(f.n, f.off, b)
	if n == 0 {
		return 0, io.EOF
	}
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f != nil && f.r != nil {
		return f.r.ReadAt(b, off)
	}
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	n := f.w.ReadNode(f.n, off, b)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.r != nil {
		return f.r.Write(b)
	}
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if !f.wr {
		return 0, perr("write", f.name, errors.New("bad file descriptor"))
	}
	if f.app {
		f.off = f.w.AppendNode(f.n, b) + int64(len(b))
		return len(b), nil
	}
	f.w.WriteNode(f.n, f.off, b)
	f.off += int64(len(b))
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f != nil && f.r != nil {
		return f.r.WriteAt(b, off)
	}
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if !f.wr {
		return 0, perr("write", f.name, errors.New("bad file descriptor"))
	}
	f.w.WriteNode(f.n, off, b)
	return len(b), nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f != nil && f.r != nil {
		return f.r.Seek(off, whence)
	}
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
	case 1:
		off += f.off
	case 2:
		off += f.w.SizeNode(f.n)
	default:
		return 0, perr("seek", f.name, os.ErrInvalid)
	}
	if off < 0 {
		return 0, perr("seek", f.name, os.ErrInvalid)
	}
	f.off = off
	return off, nil
}

func (f *File) Truncate(size int64) error {
	if f != nil && f.r != nil {
		return f.r.Truncate(size)
	}
	if err := f.chk("truncate"); err != nil {
		return err
	}
	if !f.wr || size < 0 {
		return perr("truncate", f.name, os.ErrInvalid)
	}
	f.w.TruncNode(f.n, size)
	return nil
}

func (f *File) Sync() error {
	if f != nil && f.r != nil {
		return f.r.Sync()
	}
	if err := f.chk("sync"); err != nil {
		return err
	}
	if f.dir {
		return nil
	}
	f.w.SyncNode(f.n)
	return nil
}

func (f *File) Chmod(mode FileMode) error {
	if f.r != nil {
		return f.r.Chmod(mode)
	}
	return f.chk("chmod")
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if f.r != nil {
		return f.r.ReadFrom(r)
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}

func (f *File) Stat() (FileInfo, error) {
	if f.r != nil {
		return f.r.Stat()
	}
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	if f.dir {
		return info{name: path.Base(f.name), dir: true}, nil
	}
	return info{name: path.Base(f.name), size: f.w.SizeNode(f.n)}, nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if f.r != nil {
		return f.r.ReadDir(n)
	}
	l, err := ReadDir(f.name)
	if err != nil {
		return nil, err
	}
	l = l[f.dirPos:]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	f.dirPos += len(l)
	return l, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.ReadDir(n)
	var r []FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() FileMode {
	if i.dir {
		return os.ModeDir | 0700
	}
	return 0700
}
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) IsDir() bool                { return i.dir }
func (i info) Sys() interface{}           { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func Stat(name string) (FileInfo, error) {
	w, in := vw.Lookup(name)
	if w == nil {
		return os.Stat(name)
	}
	w.Mu.Lock()
	n, d := w.Files[in], w.Dirs[in]
	kvd := w.KVs[in] != nil
	w.Mu.Unlock()
	if d || kvd {
		return info{name: path.Base(name), dir: true}, nil
	}
	if n == nil {
		return nil, perr("stat", name, os.ErrNotExist)
	}
	return info{name: path.Base(name), size: w.SizeNode(n)}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm FileMode) error {
	w, in := vw.Lookup(name)
	if w == nil {
		return os.Mkdir(name, perm)
	}
	if in != "" {
		pd := path.Dir(in)
		if pd == "." {
			pd = ""
		}
		w.Mu.Lock()
		ok := w.Dirs[pd]
		w.Mu.Unlock()
		if !ok {
			return perr("mkdir", name, os.ErrNotExist)
		}
	}
	if !w.MkdirIn(in) {
		return perr("mkdir", name, os.ErrExist)
	}
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	w, in := vw.Lookup(name)
	if w == nil {
		return os.MkdirAll(name, perm)
	}
	w.MkdirIn("")
	for i := 0; i <= len(in); i++ {
		if i == len(in) || in[i] == '/' {
			w.MkdirIn(in[:i])
		}
	}
	return nil
}

func Remove(name string) error {
	w, in := vw.Lookup(name)
	if w == nil {
		return os.Remove(name)
	}
	if fl := w.Fault; fl != nil {
		if err := fl(vw.EvRemove, in); err != nil {
			return perr("remove", name, err)
		}
	}
	if !w.RemoveIn(in) {
		return perr("remove", name, os.ErrNotExist)
	}
	return nil
}

func RemoveAll(name string) error {
	w, in := vw.Lookup(name)
	if w == nil {
		return os.RemoveAll(name)
	}
	w.Mu.Lock()
	var l []string
	for p := range w.Files {
		if p == in || in == "" || len(p) > len(in) && p[:len(in)+1] == in+"/" {
			l = append(l, p)
		}
	}
	for p := range w.Dirs {
		if p == in || in == "" || len(p) > len(in) && p[:len(in)+1] == in+"/" {
			l = append(l, p)
		}
	}
	w.Mu.Unlock()
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	for _, p := range l {
		w.RemoveIn(p)
	}
	return nil
}

func Rename(a, b string) error {
	w, ia := vw.Lookup(a)
	if w == nil {
		return os.Rename(a, b)
	}
	_, ib := vw.Lookup(b)
	if !w.RenameIn(ia, ib) {
		return perr("rename", a, os.ErrNotExist)
	}
	return nil
}

func ReadDir(name string) ([]DirEntry, error) {
	w, in := vw.Lookup(name)
	if w == nil {
		return os.ReadDir(name)
	}
	names, dirs, ok := w.List(in)
	if !ok {
		return nil, perr("open", name, os.ErrNotExist)
	}
	var r []DirEntry
	for i, n := range names {
		var sz int64
		p := n
		if in != "" {
			p = in + "/" + n
		}
		if !dirs[i] {
			w.Mu.Lock()
			nd := w.Files[p]
			w.Mu.Unlock()
			sz = w.SizeNode(nd)
		}
		r = append(r, info{name: n, dir: dirs[i], size: sz})
	}
	return r, nil
}

func ReadFile(name string) ([]byte, error) {
	w, in := vw.Lookup(name)
	if w == nil {
		return os.ReadFile(name)
	}
	w.Mu.Lock()
	n := w.Files[in]
	w.Mu.Unlock()
	if n == nil {
		return nil, perr("open", name, os.ErrNotExist)
	}
	return w.Bytes(in), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Truncate(name string, size int64) error {
	if w, _ := vw.Lookup(name); w == nil {
		return os.Truncate(name, size)
	}
	f, err := OpenFile(name, O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chmod(name string, mode FileMode) error {
	if w, _ := vw.Lookup(name); w == nil {
		return os.Chmod(name, mode)
	}
	return nil
}
