package scen

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// ofd is an open file description as the simulated flock(2) sees it.
type ofd struct {
	file  string
	level int // LOCK_UN, LOCK_SH, LOCK_EX
	// want is the level of the call in progress or of the lock held, as the
	// user asked for it (vroot.LockLevel; 0: none)
	want vroot.LockLevel
	name string
}

// flocks is the lock table of the simulated kernel. Conversions drop the lock
// they held first, as on Linux.
type flocks struct {
	s      *vsim.Sim
	fds    map[int]*ofd
	all    []*ofd
	intr   float64 // of a wait: ended by a signal
	fail   float64 // of a call: refused
	fired  int
	maxf   int
	refuse map[string]bool
}

func (k *flocks) conflict(o *ofd, level int) bool {
	for _, p := range k.all {
		if p != o && p.file == o.file && p.level != 0 && (level == syscall.LOCK_EX || p.level == syscall.LOCK_EX) {
			return true
		}
	}
	return false
}

func (k *flocks) chance(p float64, kind string) bool {
	if k.fired >= k.maxf || !k.s.Chance(vsim.SFault, p) {
		return false
	}
	k.fired++
	k.s.Fault(kind)
	return true
}

// flock is the system call.
func (k *flocks) flock(fd, how int) error {
	vsim.Yield(vsim.KIO, 0xda000001)
	o := k.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	return k.lock(o, how)
}

func (k *flocks) lock(o *ofd, how int) error {
	s := k.s
	if k.chance(k.fail, "flock-refused") {
		k.refuse[o.name] = true
		return syscall.ENOLCK
	}
	nb, how := how&syscall.LOCK_NB != 0, how&^syscall.LOCK_NB
	level := 0
	switch how {
	case syscall.LOCK_UN:
	case syscall.LOCK_SH, syscall.LOCK_EX:
		level = how
	default:
		return syscall.EINVAL
	}
	if o.level == level {
		return nil
	}
	o.level = 0
	if level == 0 {
		return nil
	}
	for k.conflict(o, level) {
		if nb {
			return syscall.EWOULDBLOCK
		}
		s.Probe("waited")
		if k.chance(k.intr, "interrupted-wait") {
			for i := s.Draw(vsim.SFault, 4); i > 0; i-- {
				vsim.Yield(vsim.KIO, 0xda000002)
			}
			return syscall.EINTR
		}
		vsim.Block("flock "+o.name, func() bool { return !k.conflict(o, level) })
	}
	o.level = level
	if level == syscall.LOCK_EX && o.want != vroot.LockExclusive {
		s.Fail("locked-too-much", "%s asked for a shared lock and got an exclusive one", o.name)
	}
	return nil
}

// lockHandle is a handle under test with what the user knows of it.
type lockHandle struct {
	o *ofd
	f interface {
		vroot.Locker
		Close() error
	}
	fd   int
	held vroot.LockLevel // what a successful Lock said; 0 none
}

func (k *flocks) drop(h *lockHandle) {
	h.o.level, h.o.want = 0, 0
	if k.fds[h.fd] == h.o {
		delete(k.fds, h.fd)
	}
	for i, o := range k.all {
		if o == h.o {
			k.all = append(k.all[:i], k.all[i+1:]...)
			break
		}
	}
}

func kernelLevel(l vroot.LockLevel) int {
	switch l {
	case vroot.LockShared:
		return syscall.LOCK_SH
	case vroot.LockExclusive:
		return syscall.LOCK_EX
	}
	return 0
}

func lockRun(s *vsim.Sim) {
	s.Configure()
	tmp := scratchDir(s, "locks-")
	if tmp == "" {
		return
	}
	nf := 1 + s.Draw(vsim.SCfg, 2)
	for i := range nf {
		_ = os.WriteFile(filepath.Join(tmp, "f"+itoa(i)), []byte("x"), 0o644)
	}
	k := &flocks{s: s, fds: map[int]*ofd{}, refuse: map[string]bool{}, maxf: s.Draw(vsim.SCfg, 12)}
	switch s.Draw(vsim.SCfg, 3) {
	case 1:
		k.intr = 0.5
	case 2:
		k.intr, k.fail = 0.3, 0.08
	}
	vsim.FlockFn = k.flock
	defer func() { vsim.FlockFn = nil }()
	fsys, err := osfs.NewFs(tmp)
	if err != nil {
		s.Fail("open", "NewFs: %v", err)
		return
	}
	root, err := osfs.NewRoot(tmp)
	if err != nil {
		s.Fail("open", "NewRoot: %v", err)
		return
	}
	defer root.Close()
	users := map[string][]*lockHandle{} // by file
	exclusion := func(h *lockHandle) {
		for _, p := range users[h.o.file] {
			if p != h && h.held != 0 && p.held != 0 && (h.held == vroot.LockExclusive || p.held == vroot.LockExclusive) {
				s.Fail("not-exclusive", "%s holds level %d while %s holds level %d", h.o.name, h.held, p.o.name, p.held)
			}
		}
		if h.held != 0 && h.o.level != kernelLevel(h.held) {
			s.Fail("lock-not-held", "%s was told it holds level %d, the kernel has flock level %d", h.o.name, h.held, h.o.level)
		}
	}
	handles := 0
	open := func(file string) *lockHandle {
		var f *osfs.File
		var err error
		flag := []int{os.O_RDWR, os.O_RDONLY, os.O_WRONLY}[s.Draw(vsim.SOps, 3)]
		if s.Draw(vsim.SOps, 2) == 0 {
			f, err = fsys.OpenFile(file, flag, 0)
		} else {
			f, err = root.OpenFile(file, flag, 0)
		}
		if err != nil {
			s.Fail("open", "%v", err)
			return nil
		}
		l, ok := any(f).(vroot.Locker)
		if !ok {
			s.Fail("no-locker", "osfs files do not lock")
			return nil
		}
		handles++
		h := &lockHandle{fd: int(f.Fd()), o: &ofd{file: file, name: "h" + itoa(handles) + "(" + file + ")"}, f: struct {
			vroot.Locker
			closer
		}{l, f}}
		k.fds[h.fd] = h.o
		k.all = append(k.all, h.o)
		users[file] = append(users[file], h)
		s.Logf("open %s", h.o.name)
		return h
	}
	closeH := func(h *lockHandle) {
		h.held = 0
		s.Logf("close %s", h.o.name)
		if err := h.f.Close(); err != nil {
			s.Fail("close", "closing %s: %v", h.o.name, errText(err, tmp))
		}
		// what the kernel does when the last descriptor goes
		k.drop(h)
		for i, p := range users[h.o.file] {
			if p == h {
				users[h.o.file] = append(users[h.o.file][:i:i], users[h.o.file][i+1:]...)
				break
			}
		}
	}
	lock := func(h *lockHandle, level vroot.LockLevel) bool {
		h.held, h.o.want = 0, level // a conversion may let the lock go
		delete(k.refuse, h.o.name)
		s.Logf("lock %s %d", h.o.name, level)
		err := h.f.Lock(level)
		s.Logf("lock %s %d -> %s", h.o.name, level, fsop.Class(err))
		if err == nil {
			h.held = level
			exclusion(h)
			return true
		}
		h.o.want = 0
		if errors.Is(err, syscall.EINTR) {
			s.Fail("interrupted", "locking %s was not retried after a signal", h.o.name)
		} else if !k.refuse[h.o.name] {
			s.Fail("lock-fails", "locking %s with nothing failing: %v", h.o.name, errText(err, tmp))
		} else if !errors.Is(err, syscall.ENOLCK) {
			s.Fail("wrong-error", "locking %s, refused with ENOLCK: %v", h.o.name, errText(err, tmp))
		}
		return false
	}
	unlock := func(h *lockHandle) {
		was := h.held
		h.held = 0
		delete(k.refuse, h.o.name)
		err := h.f.Unlock()
		s.Logf("unlock %s -> %s", h.o.name, fsop.Class(err))
		switch {
		case err == nil && h.o.level != 0:
			s.Fail("not-released", "%s is still locked after Unlock", h.o.name)
		case err == nil:
			h.o.want = 0
		case !k.refuse[h.o.name]:
			s.Fail("unlock-fails", "unlocking %s (level %d) with nothing failing: %v", h.o.name, was, errText(err, tmp))
		default:
			// still locked; closing is what is left
			closeH(h)
		}
	}
	for t := range 2 + s.Draw(vsim.SCfg, 3) {
		n := 2 + s.Draw(vsim.SOps, 8)
		s.Go("t"+itoa(t), func() {
			hs := make([]*lockHandle, nf)
			for i := 0; i < n && !s.Failed(); i++ {
				vsim.Yield(vsim.KOp, 0xda000010)
				j := s.Draw(vsim.SOps, nf)
				if hs[j] == nil || hs[j].f == nil {
					if hs[j] = open("f" + itoa(j)); hs[j] == nil {
						return
					}
				}
				h := hs[j]
				// a task waits only for files after those it holds: no deadlock of its own making
				for _, o := range hs[j+1:] {
					if o != nil && o.o.level != 0 {
						unlock(o)
						if s.Failed() {
							return
						}
						if k.fds[o.fd] != o.o {
							for x := range hs {
								if hs[x] == o {
									hs[x] = nil
								}
							}
						}
					}
				}
				switch s.Weighted(vsim.SOps, 4, 4, 3, 2, 1) {
				case 0, 1:
					level := vroot.LockShared
					if s.Draw(vsim.SOps, 2) == 0 {
						level = vroot.LockExclusive
					}
					if lock(h, level) {
						s.State(itoa(int(level)) + h.o.file)
						for i := s.Draw(vsim.SOps, 3); i > 0 && !s.Failed(); i-- {
							vsim.Yield(vsim.KOp, 0xda000011)
							exclusion(h)
						}
					}
				case 2:
					unlock(h)
				case 3:
					closeH(h)
				case 4:
					was := h.o.level
					if err := h.f.Lock(vroot.LockLevel([]int{0, 3, -1, 99}[s.Draw(vsim.SOps, 4)])); !errors.Is(err, syscall.EINVAL) {
						s.Fail("level-accepted", "a level that does not exist: %v", err)
					}
					if h.o.level != was {
						s.Fail("level-changed", "refusing a level changed the lock of %s", h.o.name)
					}
				}
				if s.Failed() {
					return
				}
				if k.fds[h.fd] != h.o {
					hs[j] = nil
				}
			}
			for _, h := range hs {
				if h == nil || s.Failed() {
					continue
				}
				if s.Draw(vsim.SOps, 2) == 0 {
					unlock(h)
				}
				if k.fds[h.fd] == h.o {
					closeH(h)
					if err := h.f.Lock(vroot.LockExclusive); err == nil {
						s.Fail("closed-locks", "locking the closed %s succeeded", h.o.name)
					}
				}
			}
		})
	}
	s.Run()
	if s.Failed() || s.Stuck != "" {
		for _, l := range users {
			for _, h := range l {
				_ = h.f.Close()
			}
		}
	}
}

// errText is err without the name of the scratch directory.
func errText(err error, tmp string) string { return strings.ReplaceAll(fmt.Sprint(err), tmp, "") }

type closer interface{ Close() error }

// lockFs gives every handle of a disk an advisory lock.
type lockFs struct {
	fsop.FS
	k *flocks
}

type lockFile struct {
	vroot.File
	h *lockHandle
	k *flocks
}

func (l *lockFs) OpenFile(name string, flag int, perm os.FileMode) (vroot.File, error) {
	f, err := l.FS.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	lf := &lockFile{f, &lockHandle{o: &ofd{file: name, want: vroot.LockExclusive, name: l.k.s.CurName() + ":" + name}}, l.k}
	l.k.all = append(l.k.all, lf.h.o)
	return lf, nil
}

func (l *lockFile) Lock(level vroot.LockLevel) error {
	vsim.Yield(vsim.KIO, 0xda000003)
	l.h.o.want = vroot.LockExclusive
	err := l.k.lock(l.h.o, kernelLevel(level))
	l.k.s.Logf("  %s lock %d -> %v", l.h.o.name, level, err)
	return err
}

func (l *lockFile) Unlock() error {
	vsim.Yield(vsim.KIO, 0xda000004)
	return l.k.lock(l.h.o, syscall.LOCK_UN)
}

func (l *lockFile) Close() error {
	l.k.drop(l.h)
	return l.File.Close()
}

// lockStore: the metadata store over a file system with locks: while one is
// open, nobody else who takes the lock of its database gets it.
func lockStore(s *vsim.Sim) {
	s.Configure()
	d := simfs.New("disk")
	k := &flocks{s: s, fds: map[int]*ofd{}, refuse: map[string]bool{}}
	fsys := &lockFs{d, k}
	wrote := 0
	storeHolds := false
	s.Go("store", func() {
		for range 1 + s.Draw(vsim.SOps, 2) {
			st, err := overlayfs.NewMetadataStoreSQLite[vroot.File](fsys, "meta.db")
			if err != nil {
				s.Fail("store-does-not-open", "%v", err)
				return
			}
			s.Logf("store open")
			for range 1 + s.Draw(vsim.SOps, 3) {
				if err := st.SetWhiteout("n" + itoa(wrote)); err != nil {
					s.Fail("change-fails", "%v", err)
					return
				}
				wrote++
				storeHolds = true
				s.Logf("store wrote")
			}
			storeHolds = false
			if err := st.Close(); err != nil {
				s.Fail("close", "closing the store: %v", err)
				return
			}
			s.Logf("store closed")
		}
	})
	for t := range 1 + s.Draw(vsim.SOps, 2) {
		n := 1 + s.Draw(vsim.SOps, 3)
		level := []vroot.LockLevel{vroot.LockShared, vroot.LockExclusive}[s.Draw(vsim.SOps, 2)]
		s.Go("u"+itoa(t), func() {
			for range n {
				f, err := fsys.OpenFile("meta.db", os.O_RDWR|os.O_CREATE, 0o644)
				if err != nil {
					s.Fail("open", "%v", err)
					return
				}
				if err := f.(vroot.Locker).Lock(level); err != nil {
					s.Fail("lock-fails", "%v", err)
					return
				}
				before := wrote
				for i := s.Draw(vsim.SOps, 4); i > 0; i-- {
					if storeHolds {
						s.Fail("store-unlocked", "the lock of the database was given out while the store that wrote it is open")
						return
					}
					vsim.Yield(vsim.KOp, 0xda000020)
				}
				if wrote != before {
					s.Fail("wrote-without-lock", "the store changed its database while another held the lock")
					return
				}
				if s.Draw(vsim.SOps, 2) == 0 {
					if err := f.(vroot.Locker).Unlock(); err != nil {
						s.Fail("unlock-fails", "%v", err)
					}
				}
				_ = f.Close()
			}
		})
	}
	s.Run()
}

func init() {
	locks := &Scenario{Name: "file-locks", Run: lockRun,
		Doc: "2-4 tasks lock, convert, unlock and close handles of 1-2 real scratch files; the lock system call is simulated: every grant order, waits ended by signals, refused calls"}
	store := &Scenario{Name: "store-locks", Run: lockStore,
		Doc: "the built-in metadata store next to 1-2 other users of its database's lock"}
	register(&Check{Property: "P28", Quick: 60000, Thorough: 3000000, Parts: []Part{{locks, 60}, {store, 1}},
		Real: []string{"vroot/osfs (File.Lock, File.Unlock, Fs and Root opening)", "fsutil.LockLevel", "overlayfs sqlvfs lock mapping and SQLite in a sixtieth of the runs"},
		Stub: []string{"flock(2): a lock table with Linux's conversion (drops first), EINTR and ENOLCK; lock release at close is done by the harness where the kernel would"}})
}
