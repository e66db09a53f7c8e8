package zzsym

// A model of the part of package os that the code under test may use, for the engine.  Natively the real package os
// works on a scratch directory.

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type fsNode struct {
	path string
	data []byte
	dir  bool
	gen  func() []byte // contents made when first needed
}

var (
	fsNodes []*fsNode
	fsFiles []*fsFile
	fsTmp   int
	// fsHook, if set, runs after every step of an operation, for what it does itself excepted.
	fsHook   func()
	fsInHook bool
	// fsLimit bounds the size of any file written (RLIMIT_FSIZE); negative: none.
	fsLimit = -1
	// fsFail, if set, makes operations fail.
	fsFail func(op, path string) bool
)

type fsFile struct {
	f      *os.File
	n      *fsNode
	path   string
	off    int
	closed bool
	append bool
}

// TempDir is a fresh scratch directory.
func TempDir() string {
	d, err := os.MkdirTemp("", "zzfs")
	if err != nil {
		panic(err)
	}
	return d
}

// FsHook, FsFail and FsLimit act under the engine only; FsLimit natively sets the file size limit of the process.
func FsHook(f func())                     { fsHook = f }
func FsFail(f func(op, path string) bool) { fsFail = f }

//gosym:model itko.dev/internal/zzsym.FsLimit
func fsLimitModel(n int) { fsLimit = n }

//gosym:model itko.dev/internal/zzsym.TempDir
func fsTempDirModel() string {
	fsTmp++
	d := "/zz" + string([]byte{'0' + byte(fsTmp)})
	fsNodes = append(fsNodes, &fsNode{path: d, dir: true})
	return d
}

func fsErr(op, path string, e syscall.Errno) error {
	return &fs.PathError{Op: op, Path: path, Err: e}
}

func fsClean(p string) string {
	if IsSym([]byte(p)) {
		return p
	}
	return filepath.Clean(p)
}

func fsFind(p string) *fsNode {
	for _, n := range fsNodes {
		if n.path == p {
			if n.gen != nil {
				g := n.gen
				n.gen = nil
				n.data = g()
			}
			return n
		}
	}
	if len(fsFams) > 0 && !IsSym([]byte(p)) {
		for _, g := range fsGone {
			if g == p || strings.HasPrefix(p, g+"/") {
				return nil
			}
		}
		for _, f := range fsFams {
			if rest, ok := strings.CutPrefix(p, f.prefix); ok {
				if i, err := strconv.Atoi(rest); err == nil && i >= 1 && i <= f.max && strconv.Itoa(i) == rest {
					n := &fsNode{path: p, data: f.gen(i)}
					fsNodes = append(fsNodes, n)
					return n
				}
			}
		}
	}
	return nil
}

type fsFam struct {
	prefix string
	max    int
	gen    func(i int) []byte
}

var (
	fsFams []fsFam
	fsGone []string // what was removed from the families
)

// FsRemove removes a file or directory.
func FsRemove(path string) {
	if err := os.RemoveAll(path); err != nil {
		panic(err)
	}
}

//gosym:model itko.dev/internal/zzsym.FsRemove
func fsRemoveModel(path string) {
	path = fsClean(path)
	var keep []*fsNode
	for _, n := range fsNodes {
		if n.path != path && (IsSym([]byte(n.path)) || !strings.HasPrefix(n.path, path+"/")) {
			keep = append(keep, n)
		}
	}
	fsNodes = keep
	fsGone = append(fsGone, path)
}

// FsPutAll makes the files prefix+"1" ... prefix+max.
func FsPutAll(prefix string, max int, gen func(i int) []byte) {
	for i := 1; i <= max; i++ {
		FsPut(prefix+strconv.Itoa(i), func() []byte { return gen(i) })
	}
}

//gosym:model itko.dev/internal/zzsym.FsPutAll
func fsPutAllModel(prefix string, max int, gen func(i int) []byte) {
	fsMkdirAll(filepath.Dir(prefix), 0755)
	for i, g := range fsGone {
		if strings.HasPrefix(prefix, g+"/") {
			fsGone = append(fsGone[:i:i], fsGone[i+1:]...)
			break
		}
	}
	fsFams = append(fsFams, fsFam{fsClean(filepath.Dir(prefix)) + "/" + filepath.Base(prefix + "x")[:len(filepath.Base(prefix+"x"))-1], max, gen})
}

// FsPut makes a file with the contents gen returns, and its directories.
func FsPut(path string, gen func() []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, gen(), 0644); err != nil {
		panic(err)
	}
}

//gosym:model itko.dev/internal/zzsym.FsPut
func fsPutModel(path string, gen func() []byte) {
	path = fsClean(path)
	if n := fsFind(path); n != nil {
		n.data, n.gen = nil, gen
		return
	}
	if !IsSym([]byte(path)) {
		fsMkdirAll(filepath.Dir(path), 0755)
	}
	fsNodes = append(fsNodes, &fsNode{path: path, gen: gen})
}

func fsStep() {
	if fsHook != nil && !fsInHook {
		fsInHook = true
		fsHook()
		fsInHook = false
	}
}

// fsParentMissing reports the error of using p's directory: none, missing or not a directory.
func fsParentErr(p string) syscall.Errno {
	if IsSym([]byte(p)) {
		return 0
	}
	for d := filepath.Dir(p); ; d = filepath.Dir(d) {
		n := fsFind(d)
		if n != nil {
			if !n.dir {
				return syscall.ENOTDIR
			}
			return 0
		}
		if d == "/" || d == "." {
			return 0
		}
		if d == filepath.Dir(p) {
			// missing, unless an ancestor is a file
			for a := filepath.Dir(d); a != "/" && a != "."; a = filepath.Dir(a) {
				if m := fsFind(a); m != nil {
					if !m.dir {
						return syscall.ENOTDIR
					}
					break
				}
			}
			return syscall.ENOENT
		}
	}
}

func fsFails(op, path string) bool { return fsFail != nil && fsFail(op, path) }

//gosym:model os.ReadFile
func fsReadFile(name string) ([]byte, error) {
	name = fsClean(name)
	if fsFails("read", name) {
		return nil, fsErr("open", name, syscall.EIO)
	}
	n := fsFind(name)
	if n == nil {
		if e := fsParentErr(name); e == syscall.ENOTDIR {
			return nil, fsErr("open", name, e)
		}
		return nil, fsErr("open", name, syscall.ENOENT)
	}
	if n.dir {
		return nil, fsErr("read", name, syscall.EISDIR)
	}
	fsStep() // between opening and reading
	return append([]byte{}, n.data...), nil
}

func fsOpen(name string, flag int) (*fsNode, error) {
	name = fsClean(name)
	if fsFails("open", name) {
		return nil, fsErr("open", name, syscall.EIO)
	}
	n := fsFind(name)
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n == nil {
		if flag&os.O_CREATE == 0 {
			fsStep()
			return nil, fsErr("open", name, syscall.ENOENT)
		}
		if e := fsParentErr(name); e != 0 {
			fsStep()
			return nil, fsErr("open", name, e)
		}
		n = &fsNode{path: name}
		fsNodes = append(fsNodes, n)
		fsStep()
		return n, nil
	}
	if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, fsErr("open", name, syscall.EEXIST)
	}
	if n.dir && wr {
		return nil, fsErr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && len(n.data) > 0 {
		n.data = nil
	}
	fsStep()
	return n, nil
}

// fsWriteAt writes b at off, stopping at every crash point on the way.
func fsWriteAt(n *fsNode, path string, off int, b []byte) (int, error) {
	if fsFails("write", path) {
		return 0, fsErr("write", path, syscall.EIO)
	}
	w := len(b)
	var err error
	if fsLimit >= 0 && off+w > fsLimit {
		w = fsLimit - off
		if w < 0 {
			w = 0
		}
		err = fsErr("write", path, syscall.EFBIG)
	}
	data := append([]byte{}, n.data...)
	for len(data) < off {
		data = append(data, 0)
	}
	data = append(data[:off], append(append([]byte{}, b[:w]...), fsTail(data, off+w)...)...)
	if fsHook != nil && w > 1 {
		// a crash in the middle of the write
		h := w / 2
		n.data = append(append([]byte{}, data[:off+h]...), fsTail(n.data, off+h)...)
		fsStep()
	}
	n.data = data
	fsStep()
	return w, err
}

func fsTail(b []byte, off int) []byte {
	if off >= len(b) {
		return nil
	}
	return append([]byte{}, b[off:]...)
}

//gosym:model os.WriteFile
func fsWriteFile(name string, data []byte, perm os.FileMode) error {
	n, err := fsOpen(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC)
	if err != nil {
		return err
	}
	_, err = fsWriteAt(n, fsClean(name), 0, data)
	return err
}

//gosym:model os.MkdirAll
func fsMkdirAll(path string, perm os.FileMode) error {
	path = fsClean(path)
	if fsFails("mkdir", path) {
		return fsErr("mkdir", path, syscall.EIO)
	}
	if IsSym([]byte(path)) {
		return nil
	}
	var miss []string
	for d := path; d != "/" && d != "."; d = filepath.Dir(d) {
		n := fsFind(d)
		if n == nil {
			miss = append(miss, d)
		} else if !n.dir {
			return fsErr("mkdir", d, syscall.ENOTDIR)
		} else {
			break
		}
	}
	fsStep()
	for i := len(miss) - 1; i >= 0; i-- {
		// another process may have made it meanwhile
		if n := fsFind(miss[i]); n == nil {
			fsNodes = append(fsNodes, &fsNode{path: miss[i], dir: true})
		} else if !n.dir {
			return fsErr("mkdir", miss[i], syscall.ENOTDIR)
		}
		fsStep()
	}
	return nil
}

//gosym:model os.Mkdir
func fsMkdir(path string, perm os.FileMode) error {
	path = fsClean(path)
	if fsFails("mkdir", path) {
		return fsErr("mkdir", path, syscall.EIO)
	}
	if fsFind(path) != nil {
		fsStep()
		return fsErr("mkdir", path, syscall.EEXIST)
	}
	if e := fsParentErr(path); e != 0 {
		fsStep()
		return fsErr("mkdir", path, e)
	}
	fsNodes = append(fsNodes, &fsNode{path: path, dir: true})
	fsStep()
	return nil
}

type fsInfo struct {
	n    *fsNode
	size int
}

func (i fsInfo) Name() string       { return filepath.Base(i.n.path) }
func (i fsInfo) Size() int64        { return int64(i.size) }
func (i fsInfo) IsDir() bool        { return i.n.dir }
func (i fsInfo) ModTime() time.Time { return time.Time{} }
func (i fsInfo) Sys() any           { return nil }
func (i fsInfo) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}

//gosym:model os.Stat
func fsStat(name string) (os.FileInfo, error) {
	name = fsClean(name)
	if fsFails("stat", name) {
		return nil, fsErr("stat", name, syscall.EIO)
	}
	n := fsFind(name)
	if n == nil {
		e := syscall.ENOENT
		if fsParentErr(name) == syscall.ENOTDIR {
			e = syscall.ENOTDIR
		}
		fsStep()
		return nil, fsErr("stat", name, e)
	}
	i := fsInfo{n, len(n.data)}
	fsStep()
	return i, nil
}

//gosym:model os.Lstat
func fsLstat(name string) (os.FileInfo, error) { return fsStat(name) }

//gosym:model os.Remove
func fsRemove(name string) error {
	name = fsClean(name)
	for i, n := range fsNodes {
		if n.path == name {
			fsNodes = append(fsNodes[:i:i], fsNodes[i+1:]...)
			fsStep()
			return nil
		}
	}
	return fsErr("remove", name, syscall.ENOENT)
}

//gosym:model os.RemoveAll
func fsRemoveAll(name string) error {
	name = fsClean(name)
	var keep []*fsNode
	for _, n := range fsNodes {
		if n.path != name && !strings.HasPrefix(n.path, name+"/") {
			keep = append(keep, n)
		}
	}
	fsNodes = keep
	fsStep()
	return nil
}

//gosym:model os.Rename
func fsRename(from, to string) error {
	from, to = fsClean(from), fsClean(to)
	if fsFails("rename", to) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EIO}
	}
	n := fsFind(from)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if e := fsParentErr(to); e != 0 {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	if from == to {
		return nil
	}
	var keep []*fsNode
	for _, o := range fsNodes {
		if o.path == to {
			if o.dir {
				return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
			}
			continue
		}
		keep = append(keep, o)
	}
	fsNodes = keep
	n.path = to
	fsStep()
	return nil
}

func fsNewFile(n *fsNode, name string, app bool) *os.File {
	f := new(os.File)
	fsFiles = append(fsFiles, &fsFile{f: f, n: n, path: name, append: app})
	return f
}

func fsOf(f *os.File) *fsFile {
	for _, x := range fsFiles {
		if x.f == f {
			return x
		}
	}
	return nil
}

//gosym:model os.OpenFile
func fsOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n, err := fsOpen(name, flag)
	if err != nil {
		return nil, err
	}
	return fsNewFile(n, name, flag&os.O_APPEND != 0), nil
}

//gosym:model os.Open
func fsOpenRO(name string) (*os.File, error) { return fsOpenFile(name, os.O_RDONLY, 0) }

//gosym:model os.Create
func fsCreate(name string) (*os.File, error) {
	return fsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//gosym:model os.CreateTemp
func fsCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/zztmp"
		fsMkdirAll(dir, 0755)
	}
	fsTmp++
	num := string([]byte{'0' + byte(fsTmp/100%10), '0' + byte(fsTmp/10%10), '0' + byte(fsTmp%10)})
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pattern = pattern[:i] + num + pattern[i+1:]
	} else {
		pattern += num
	}
	return fsOpenFile(dir+"/"+pattern, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

//gosym:model os.MkdirTemp
func fsMkdirTemp(dir, pattern string) (string, error) { return TempDir(), nil }

//gosym:model (*os.File).Name
func fsName(f *os.File) string { return fsOf(f).path }

//gosym:model (*os.File).Write
func fsFileWrite(f *os.File, b []byte) (int, error) {
	x := fsOf(f)
	if x == nil || x.closed {
		return 0, os.ErrClosed
	}
	if x.append {
		x.off = len(x.n.data)
	}
	w, err := fsWriteAt(x.n, x.path, x.off, b)
	x.off += w
	return w, err
}

//gosym:model (*os.File).WriteString
func fsFileWriteString(f *os.File, s string) (int, error) { return fsFileWrite(f, []byte(s)) }

//gosym:model (*os.File).Read
func fsFileRead(f *os.File, b []byte) (int, error) {
	x := fsOf(f)
	if x == nil || x.closed {
		return 0, os.ErrClosed
	}
	if x.n.dir {
		return 0, fsErr("read", x.path, syscall.EISDIR)
	}
	if x.off >= len(x.n.data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, x.n.data[x.off:])
	x.off += n
	fsStep()
	return n, nil
}

//gosym:model (*os.File).Stat
func fsFileStat(f *os.File) (os.FileInfo, error) {
	n := fsOf(f).n
	i := fsInfo{n, len(n.data)}
	fsStep()
	return i, nil
}

//gosym:model (*os.File).Sync
func fsFileSync(f *os.File) error {
	if fsFails("sync", fsOf(f).path) {
		return fsErr("sync", fsOf(f).path, syscall.EIO)
	}
	return nil
}

//gosym:model (*os.File).Chmod
func fsFileChmod(f *os.File, m os.FileMode) error { return nil }

//gosym:model os.Chmod
func fsChmod(name string, m os.FileMode) error { return nil }

//gosym:model (*os.File).Truncate
func fsFileTruncate(f *os.File, size int64) error {
	x := fsOf(f)
	for int64(len(x.n.data)) < size {
		x.n.data = append(x.n.data, 0)
	}
	x.n.data = append([]byte{}, x.n.data[:size]...)
	fsStep()
	return nil
}

//gosym:model (*os.File).Close
func fsFileClose(f *os.File) error {
	x := fsOf(f)
	if x == nil || x.closed {
		return os.ErrClosed
	}
	x.closed = true
	if fsFails("close", x.path) {
		return fsErr("close", x.path, syscall.EIO)
	}
	return nil
}

// ---- environment variables

var env = map[string]string{}

//gosym:model os.Getenv
func osGetenv(k string) string { return env[k] }

//gosym:model os.LookupEnv
func osLookupEnv(k string) (string, bool) {
	v, ok := env[k]
	return v, ok
}

//gosym:model os.Setenv
func osSetenv(k, v string) error {
	env[k] = v
	return nil
}
