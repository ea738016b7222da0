package verifharness

import (
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
)

// The hook into package os. Every change of the file system goes through it:
// it refuses (and reports) one outside the scratch folder, and inside a watched
// folder lets the driver look at, stop or fail it.

type fsOp struct {
	op, path, path2 string
	data            []byte
}

type fsWatch struct {
	root string
	// see is called before the operation, in order, one at a time
	see func(op fsOp)
	// fault, if it returns an error, makes the operation fail after that many bytes
	fault func(op fsOp) (int, error)
	// around, if set, does the operation itself; calls of it overlap
	around func(op fsOp, do func([]byte) error) error
}

var (
	hookMu   sync.Mutex
	watching atomic.Pointer[fsWatch]
	escapes  atomic.Pointer[[]string]
	// linger, if set, may take its time before a change to that path. It must not
	// block: whoever it holds up may hold a lock, and virtual time stands still then.
	linger atomic.Pointer[func(path string)]
	// frozen is where a process that has died would still change files
	frozen atomic.Pointer[string]
	// jail is the folder nothing may leave
	jail = ""
)

func inside(root, path string) bool {
	if path == "" {
		return true
	}
	abs, err := filepath.Abs(path)
	if err != nil {
		return false
	}
	return abs == root || strings.HasPrefix(abs, root+"/")
}

// readFrozen stops whoever has to do with a path that is frozen.
func readFrozen(path string) error {
	if f := frozen.Load(); f != nil && path != "" && inside(*f, path) {
		<-never
	}
	return nil
}

func installHook() {
	jail, _ = filepath.Abs(envScratch)
	os.VerifFS = func(op, path, path2 string, data []byte, do func([]byte) error) error {
		if path == os.DevNull || path == "|1" || path == "|0" {
			return do(data)
		}
		if !inside(jail, path) || !inside(jail, path2) {
			if inside(jailOut(), path) && inside(jailOut(), path2) {
				return do(data) // the driver's own output files
			}
			escaped(op + " " + path + " " + path2)
			return os.ErrPermission
		}
		if g := guard.Load(); g != nil && (g.breach(path) || g.breach(path2)) {
			escaped(op + " " + path + " " + path2)
		}
		if l := linger.Load(); l != nil && op != "mkdir" {
			(*l)(path)
		}
		readFrozen(path)
		readFrozen(path2)
		w := watching.Load()
		if w == nil || (!inside(w.root, path) && (path2 == "" || !inside(w.root, path2))) {
			return do(data)
		}
		o := fsOp{op, path, path2, data}
		if w.around != nil {
			return w.around(o, do)
		}
		hookMu.Lock()
		defer hookMu.Unlock()
		if w.see != nil {
			w.see(o)
		}
		if w.fault != nil {
			if n, err := w.fault(o); err != nil {
				if n > 0 && n < len(data) {
					do(data[:n])
				}
				return err
			}
		}
		return do(data)
	}
}

// While a guard is set, whatever changes below base belongs into one of the roots.
type fsGuard struct {
	base  string
	roots []string
}

var guard atomic.Pointer[fsGuard]

func (g *fsGuard) breach(path string) bool {
	if path == "" || !inside(g.base, path) {
		return false
	}
	for _, r := range g.roots {
		if inside(r, path) {
			return false
		}
	}
	return true
}

func escaped(what string) {
	for {
		old := escapes.Load()
		var list []string
		if old != nil {
			list = append(list, *old...)
		}
		list = append(list, what)
		if escapes.CompareAndSwap(old, &list) {
			break
		}
	}
	// The process may not live long enough to report it
	if envMark != "" {
		os.WriteFile(envMark+".esc", []byte(what), 0644)
	}
}

func jailOut() string {
	d, _ := filepath.Abs(filepath.Dir(envOut))
	return d
}

func takeEscapes() []string {
	p := escapes.Swap(nil)
	if p == nil {
		return nil
	}
	return *p
}
