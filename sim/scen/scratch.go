package scen

import (
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verif.local/sim/vsim"
)

// nobody is who runs that touch a real file system run as: code under test that
// fails to contain a path then reaches nothing but its scratch directory.
const nobody = 65534

var atEnd []func()

// EndRun undoes what a run set up outside the simulator, once its last task is gone.
func EndRun() {
	for len(atEnd) > 0 {
		f := atEnd[len(atEnd)-1]
		atEnd = atEnd[:len(atEnd)-1]
		f()
	}
}

// scratchDir makes a real directory for the rest of the run and, for root, gives
// up root's rights until the run has ended. "" if that is not possible here.
func scratchDir(s *vsim.Sim, name string) string {
	dir, err := os.MkdirTemp("", name)
	if err != nil {
		s.HarnessFail("scratch: %v", err)
		return ""
	}
	atEnd = append(atEnd, func() { _ = os.RemoveAll(dir) })
	if os.Getuid() != 0 {
		return dir
	}
	// the way there, made by check, must be open to others
	for p := filepath.Dir(dir); strings.Contains(p, "/dst-"); p = filepath.Dir(p) {
		_ = os.Chmod(p, 0o711)
	}
	if err := os.Chown(dir, nobody, nobody); err != nil {
		s.Probe("no-confinement")
		return ""
	}
	err = syscall.Setgroups(nil)
	if err == nil {
		err = syscall.Setresgid(-1, nobody, -1)
	}
	if err == nil {
		err = syscall.Setresuid(-1, nobody, -1)
	}
	if err != nil || os.Geteuid() != nobody {
		_ = syscall.Setresgid(-1, 0, -1)
		s.Probe("no-confinement")
		return ""
	}
	atEnd = append(atEnd, func() {
		if err := syscall.Setresuid(-1, 0, -1); err != nil {
			panic(err)
		}
		_ = syscall.Setresgid(-1, 0, -1)
	})
	return dir
}
