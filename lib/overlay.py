"""Builds the overlay that lets the harness see (and fail, or stop at) every
file-system change made through package os, without touching /repo or GOROOT.
"""
import json, os, subprocess

ZZ = r'''
package os

import "io"

// VerifFS, if set, is called for every call that changes the file system; it
// performs the change itself by calling do (with the bytes to write, for a
// write) as often and with as much as it likes.
var VerifFS func(op, path, path2 string, data []byte, do func([]byte) error) error

// VerifRead, if set, is called before a file or folder is opened to be read, and may refuse it.
var VerifRead func(path string) error

// VerifExit, if set, is called when the process is to end by itself.
var VerifExit func(code int)

func Exit(code int) {
	if h := VerifExit; h != nil {
		h(code)
	}
	verifExit(code)
}

func openDirNolog(name string) (*File, error) {
	if h := VerifRead; h != nil {
		if err := h(name); err != nil {
			return nil, &PathError{Op: "open", Path: name, Err: err}
		}
	}
	return verifopenDirNolog(name)
}

func (f *File) Write(b []byte) (n int, err error) {
	h := VerifFS
	if h == nil || f == nil || f == Stdout || f == Stderr {
		return f.verifWrite(b)
	}
	err = h("write", f.name, "", b, func(b []byte) error {
		m, err := f.verifWrite(b)
		n += m
		return err
	})
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	h := VerifFS
	if h == nil || f == nil {
		return f.verifWriteAt(b, off)
	}
	err = h("writeat", f.name, "", b, func(b []byte) error {
		m, err := f.verifWriteAt(b, off+int64(n))
		n += m
		return err
	})
	return n, err
}

func (f *File) ReadFrom(r io.Reader) (n int64, err error) {
	if VerifFS == nil {
		return f.verifReadFrom(r)
	}
	if err := f.checkValid("write"); err != nil {
		return 0, err
	}
	return genericReadFrom(f, r)
}

func (f *File) Truncate(size int64) error {
	h := VerifFS
	if h == nil || f == nil {
		return f.verifTruncate(size)
	}
	return h("truncate", f.name, "", nil, func([]byte) error { return f.verifTruncate(size) })
}

func Mkdir(name string, perm FileMode) error {
	h := VerifFS
	if h == nil {
		return verifMkdir(name, perm)
	}
	return h("mkdir", name, "", nil, func([]byte) error { return verifMkdir(name, perm) })
}

func rename(oldname, newname string) error {
	h := VerifFS
	if h == nil {
		return verifrename(oldname, newname)
	}
	return h("rename", oldname, newname, nil, func([]byte) error { return verifrename(oldname, newname) })
}

func Remove(name string) error {
	h := VerifFS
	if h == nil {
		return verifRemove(name)
	}
	return h("remove", name, "", nil, func([]byte) error { return verifRemove(name) })
}

func removeAll(path string) error {
	h := VerifFS
	if h == nil {
		return verifremoveAll(path)
	}
	return h("removeall", path, "", nil, func([]byte) error { return verifremoveAll(path) })
}

func Truncate(name string, size int64) error {
	h := VerifFS
	if h == nil {
		return verifTruncatePath(name, size)
	}
	return h("truncate", name, "", nil, func([]byte) error { return verifTruncatePath(name, size) })
}

func Link(oldname, newname string) error {
	h := VerifFS
	if h == nil {
		return verifLink(oldname, newname)
	}
	return h("link", oldname, newname, nil, func([]byte) error { return verifLink(oldname, newname) })
}

func Symlink(oldname, newname string) error {
	h := VerifFS
	if h == nil {
		return verifSymlink(oldname, newname)
	}
	return h("symlink", oldname, newname, nil, func([]byte) error { return verifSymlink(oldname, newname) })
}

func openFileNolog(name string, flag int, perm FileMode) (f *File, err error) {
	h := VerifFS
	if r := VerifRead; r != nil && flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) == 0 {
		if err := r(name); err != nil {
			return nil, &PathError{Op: "open", Path: name, Err: err}
		}
	}
	if h == nil || flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) == 0 {
		return verifopenFileNolog(name, flag, perm)
	}
	op := "open"
	if flag&O_TRUNC != 0 {
		op = "opentrunc"
	}
	err = h(op, name, "", nil, func([]byte) error {
		var err error
		f, err = verifopenFileNolog(name, flag, perm)
		return err
	})
	if err != nil {
		if f != nil {
			f.Close()
		}
		return nil, err
	}
	return f, nil
}
'''

SUBST = {
    "file.go": [
        ("func (f *File) Write(b []byte)", "func (f *File) verifWrite(b []byte)"),
        ("func (f *File) WriteAt(b []byte", "func (f *File) verifWriteAt(b []byte"),
        ("func (f *File) ReadFrom(r io.Reader)", "func (f *File) verifReadFrom(r io.Reader)"),
        ("func Mkdir(name string", "func verifMkdir(name string"),
    ],
    "file_unix.go": [
        ("func rename(oldname, newname", "func verifrename(oldname, newname"),
        ("func Remove(name string)", "func verifRemove(name string)"),
        ("func Truncate(name string", "func verifTruncatePath(name string"),
        ("func Link(oldname", "func verifLink(oldname"),
        ("func Symlink(oldname", "func verifSymlink(oldname"),
        ("func openFileNolog(name string", "func verifopenFileNolog(name string"),
        ("func openDirNolog(name string", "func verifopenDirNolog(name string"),
    ],
    "proc.go": [("func Exit(code int)", "func verifExit(code int)")],
    "file_posix.go": [("func (f *File) Truncate(size", "func (f *File) verifTruncate(size")],
    "removeall_at.go": [("func removeAll(path string)", "func verifremoveAll(path string)")],
}

YIELD = r'''
package sync

// VerifYield, if set, is called around every lock operation.
var VerifYield func()

func verifYield() {
	if f := VerifYield; f != nil {
		f()
	}
}

func (m *Mutex) Lock() {
	if m != &allPoolsMu { // unlocked while the goroutine may not give way
		verifYield()
	}
	m.mu.Lock()
}
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if m != &allPoolsMu {
		verifYield()
	}
}
func (rw *RWMutex) Lock()   { verifYield(); rw.verifLock() }
func (rw *RWMutex) Unlock() { rw.verifUnlock(); verifYield() }
func (rw *RWMutex) RLock()  { verifYield(); rw.verifRLock() }
func (rw *RWMutex) RUnlock() { rw.verifRUnlock(); verifYield() }
'''
YSUBST = {
    "mutex.go": [("func (m *Mutex) Lock() {", "func (m *Mutex) verifLock() {"),
                 ("func (m *Mutex) Unlock() {", "func (m *Mutex) verifUnlock() {")],
    "rwmutex.go": [("func (rw *RWMutex) Lock() {", "func (rw *RWMutex) verifLock() {"),
                   ("func (rw *RWMutex) Unlock() {", "func (rw *RWMutex) verifUnlock() {"),
                   ("func (rw *RWMutex) RLock() {", "func (rw *RWMutex) verifRLock() {"),
                   ("func (rw *RWMutex) RUnlock() {", "func (rw *RWMutex) verifRUnlock() {")],
}


def _patch(src, dst, subst, repl):
    for name, subs in subst.items():
        text = open(os.path.join(src, name)).read()
        for a, b in subs:
            if text.count(a) != 1:
                raise RuntimeError("overlay: %s: %r found %d times" % (name, a, text.count(a)))
            text = text.replace(a, b)
        out = os.path.join(dst, os.path.basename(src) + "_" + name)
        open(out, "w").write(text)
        repl[os.path.join(src, name)] = out


def make(dst, yields=True, extra=None):
    """Writes the overlay's files under dst; returns the path of its JSON."""
    goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
    repl = dict(extra or {})
    osdir = os.path.join(goroot, "src", "os")
    _patch(osdir, dst, SUBST, repl)
    zz = os.path.join(dst, "zz_verif_os.go")
    open(zz, "w").write(ZZ)
    repl[os.path.join(osdir, "zz_verif.go")] = zz
    if yields:
        sdir = os.path.join(goroot, "src", "sync")
        _patch(sdir, dst, YSUBST, repl)
        zz = os.path.join(dst, "zz_verif_sync.go")
        open(zz, "w").write(YIELD)
        repl[os.path.join(sdir, "zz_verif.go")] = zz
    ov = os.path.join(dst, "overlay.json")
    json.dump({"Replace": repl}, open(ov, "w"))
    return ov
