package main

import (
	"flag"
	"fmt"
	"os"
	"syscall"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// cmdSelftest validates the reference model: random histories executed on the
// simulated disk and on the real operating system (inside a scratch directory,
// through os.Root) must give the same results.
func cmdSelftest(args []string) {
	fl := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fl.Int("n", 2000, "")
	ops := fl.Int("ops", 40, "")
	_ = fl.Parse(args)
	syscall.Umask(0o022)
	bad := 0
	for i := 0; i < *n && bad < 5; i++ {
		dir, err := os.MkdirTemp("", "selftest")
		if err != nil {
			die("%v", err)
		}
		s := vsim.New(uint64(i)+1, nil)
		m := simfs.Model("m")
		root, err := osfs.NewRoot(dir)
		if err != nil {
			die("%v", err)
		}
		rw := fsop.NewWorld(vroot.Widen(root))
		mw := fsop.NewWorld(m)
		g := fsop.NewGen(s, []string{"a", "b", "c"}, 3, fsop.SelfMix, nil)
		var hist []string
		stop := false
		for k := 0; k < *ops; k++ {
			op := g.Next()
			if op.Kind == "rename" {
				// os.Rename refuses to replace any directory; POSIX, which the
				// model follows, replaces an empty one.
				if i, err := m.Lstat(op.B); err == nil && i.IsDir() {
					continue
				}
			}
			a, b := rw.Do(op), mw.Do(op)
			if op.Kind == "mkdirall" && a.Class == "ok" && b.Class == "EEXIST" {
				// os.Root.MkdirAll creates the target of a dangling link on the way;
				// os.MkdirAll and the model do not.
				stop = true
				break
			}
			hist = append(hist, fmt.Sprintf("%s real %s model %s", op, a, b))
			if (a.Class == "ok") != (b.Class == "ok") || a.Val != b.Val {
				fmt.Printf("seed %d differs at step %d: %v / %v\n", i, k, a.Err, b.Err)
				for _, h := range hist {
					fmt.Println("   ", h)
				}
				bad++
				break
			}
		}
		da, ea := fsop.Dump(rw.FS, ".", fsop.DumpOpt{Perm: true})
		db, eb := fsop.Dump(mw.FS, ".", fsop.DumpOpt{Perm: true})
		if bad == 0 && !stop && (da != db || (ea == nil) != (eb == nil)) {
			fmt.Println("trees differ", i, ea, eb, "\n"+da, "\n"+db)
			bad++
		}
		for _, h := range rw.H {
			h.Close()
		}
		root.Close()
		os.RemoveAll(dir)
	}
	fmt.Println("differences:", bad)
}
