package scen

import (
	"io"
	"io/fs"
	"path"
	"sort"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// buildTree fills d below dir with a drawn tree and returns its paths.
func buildTree(s *vsim.Sim, d *simfs.Disk, n int, links bool) []string {
	names := []string{"a", "b", "c", "d e", "ü"}
	dirs := []string{"."}
	var all []string
	have := map[string]bool{}
	perms := []fs.FileMode{0o644, 0o600, 0o755, 0o666, 0o777, 0o444, 0o640}
	for i := 0; i < n; i++ {
		p := path.Join(dirs[s.Draw(vsim.SOps, len(dirs))], names[s.Draw(vsim.SOps, len(names))])
		if have[p] {
			continue
		}
		have[p] = true
		switch k := s.Weighted(vsim.SOps, 5, 3, 2); {
		case k == 1:
			_ = d.Mkdir(p, 0o755)
			_ = d.Chmod(p, []fs.FileMode{0o755, 0o700, 0o777, 0o555}[s.Draw(vsim.SOps, 4)])
			dirs = append(dirs, p)
		case k == 2 && links:
			_ = d.Symlink([]string{"a", "../b", "nowhere", "b/a", "."}[s.Draw(vsim.SOps, 5)], p)
		default:
			sz := s.Draw(vsim.SOps, 40)
			if s.Chance(vsim.SOps, 0.04) {
				sz = 65530 + s.Draw(vsim.SOps, 70000)
			}
			_ = fsop.WriteFile(d, p, pattern(i, sz), 0o644)
			_ = d.Chmod(p, perms[s.Draw(vsim.SOps, len(perms))])
		}
		all = append(all, p)
	}
	far := s.Draw(vsim.SOps, 200)
	if far >= 198 {
		s.MaxSteps = max(s.MaxSteps, farSteps)
	}
	switch far {
	case 198:
		// very many in one directory
		_ = d.Mkdir("mn", 0o755)
		all = append(all, "mn")
		for i := range 90 + s.Draw(vsim.SOps, 100) {
			_ = fsop.WriteFile(d, "mn/e"+itoa(i), []byte(itoa(i)), 0o644)
			all = append(all, "mn/e"+itoa(i))
		}
	case 199:
		// many levels down
		p := "dp"
		for range 30 + s.Draw(vsim.SOps, 30) {
			_ = d.Mkdir(p, 0o755)
			all = append(all, p)
			p += "/d"
		}
		_ = fsop.WriteFile(d, p, []byte("deep"), 0o644)
		all = append(all, p)
	}
	sort.Strings(all)
	return all
}

var copyTree = &Scenario{
	Name: "copy-tree",
	Doc:  "one or two CopyAll or CopyPath at once from one simulated disk to another with failing, short and partial operations on both; success is compared with the source entry by entry",
	Run: func(s *vsim.Sim) {
		s.Configure()
		src, dst := simfs.New("src"), simfs.New("dst")
		all := buildTree(s, src.Plain(), 1+s.Draw(vsim.SOps, 10), true)
		root := []string{".", "out", "out/x"}[s.Draw(vsim.SOps, 3)]
		_ = dst.Plain().MkdirAll(path.Dir(root), 0o755)
		var paths []string
		if s.Chance(vsim.SOps, 0.4) {
			for _, p := range all {
				if s.Chance(vsim.SOps, 0.5) {
					paths = append(paths, p)
				}
			}
		}
		// something of the same kind may be there already
		occupied := false
		if s.Chance(vsim.SOps, 0.4) {
			_ = dst.Plain().MkdirAll(root, 0o755)
			for _, p := range all {
				i, err := src.Plain().Lstat(p)
				if err != nil || !s.Chance(vsim.SOps, 0.4) {
					continue
				}
				switch {
				case i.IsDir():
					_ = dst.Plain().Mkdir(path.Join(root, p), 0o700)
				case i.Mode().IsRegular():
					_ = fsop.WriteFile(dst.Plain(), path.Join(root, p), pattern(50, 30+s.Draw(vsim.SOps, 60)), 0o600)
				case i.Mode()&fs.ModeSymlink != 0:
					// a link cannot be made where something is already
					_ = dst.Plain().Symlink("elsewhere", path.Join(root, p))
					occupied = true
				}
			}
		}
		all2 := []string{"open", "create", "read", "write", "close", "readdir", "readlink", "symlink", "lstat", "stat", "mkdir", "chmod", "fstat"}
		for _, d := range []*simfs.Disk{src, dst} {
			// what was there a moment ago may be gone, what was not may be there
			d.Plan = &simfs.Plan{Sim: s, CloseLoses: true, Also: map[string]error{"open": fs.ErrNotExist, "readdir": fs.ErrNotExist, "lstat": fs.ErrNotExist,
				"stat": fs.ErrNotExist, "fstat": fs.ErrNotExist, "readlink": fs.ErrInvalid, "symlink": fs.ErrExist, "create": fs.ErrExist, "chmod": fs.ErrPermission, "close": io.ErrClosedPipe}}
			d.ReadDirReverse = s.Chance(vsim.SCfg, 0.3)
			if s.Chance(vsim.SCfg, 0.6) {
				d.Plan.Kinds = kinds(all2...)
				d.Plan.MeanGap = float64([]int{4, 12, 40}[s.Draw(vsim.SCfg, 3)])
				d.Plan.Max = 1 + s.Draw(vsim.SCfg, 2)
				d.Plan.ShortWrites = true
			}
			if s.Chance(vsim.SCfg, 0.5) {
				d.Plan.ShortReads = 0.5
			}
		}
		// a failing close of a source that was only read says nothing
		src.Plan.Filter = func(op simfs.Op) bool { return op.Kind != "close" }
		var hard []string
		src.Observe = func(op simfs.Op) {
			if op.Write {
				s.Fail("source-modified", "the source got %s %s", op.Kind, op.Path)
			}
		}
		_ = hard
		before := src.Dump(simfs.DumpOpt{Perm: true})
		s.State(before + root)
		opt := fsutil.CopyFsOption[*simfs.Disk, vroot.File]{}
		if s.Chance(vsim.SCfg, 0.5) {
			opt.MaskChmodMode = fsutil.MaskChmodMode
		}
		// one copy, or two into different places at once
		roots := []string{root, "second"}[:1+s.Weighted(vsim.SCfg, 2, 1)]
		errs := make([]error, len(roots))
		done := 0
		iofs := vroot.ToIoFs(vroot.Fs[vroot.File](src))
		for i, root := range roots {
			s.Go("copy"+itoa(i), func() {
				if paths != nil {
					s.Logf("CopyPath root=%s %v", root, paths)
					errs[i] = opt.CopyPath(dst, iofs, root, paths...)
				} else {
					s.Logf("CopyAll root=%s", root)
					errs[i] = opt.CopyAll(dst, iofs, root)
				}
				done++
				s.Logf("%s -> %v", root, errs[i])
			})
		}
		s.Run()
		if s.Failed() || s.Stuck != "" || done < len(roots) {
			return
		}
		if n := src.OpenHandles() + dst.OpenHandles(); n != 0 {
			s.Fail("handle-leak", "%d handles left open: %v %v", n, src.OpenNames(), dst.OpenNames())
			return
		}
		if after := src.Dump(simfs.DumpOpt{Perm: true}); after != before {
			s.Fail("source-modified", "source was\n%sand is\n%s", before, after)
			return
		}
		want := map[string]bool{}
		for _, p := range paths {
			for q := p; q != "."; q = path.Dir(q) {
				want[q] = true
			}
		}
		sp, dp := src.Plain(), dst.Plain()
		for i, root := range roots {
			s.State(errClass(errs[i]))
			if errs[i] != nil {
				if src.Plan.Fired+dst.Plan.Fired == 0 && !(occupied && i == 0) {
					s.Fail("spurious-error", "no operation failed, the copy to %s reports %v", root, errs[i])
					return
				}
				continue
			}
			s.Probe("copy-succeeded")
			for _, p := range all {
				if paths != nil && !want[p] {
					continue
				}
				a, b := entryStr(sp, p), entryStr(dp, path.Join(root, p))
				if a != b {
					s.Fail("copy-differs", "success reported, but %s is %s in the source and %s in the copy at %s", p, a, b, root)
					return
				}
			}
		}
	},
}

func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	return fsop.Class(err)
}

func entryStr(d *simfs.Disk, p string) string {
	i, err := d.Lstat(p)
	if err != nil {
		return "missing"
	}
	switch {
	case i.IsDir():
		return "dir " + i.Mode().Perm().String()
	case i.Mode()&fs.ModeSymlink != 0:
		t, _ := d.ReadLink(p)
		return "link " + t
	}
	b, err := fsop.ReadFile(d, p)
	if err != nil {
		return "unreadable"
	}
	return "file " + i.Mode().Perm().String() + " " + fsop.Digest(b)
}

func init() {
	register(&Check{Property: "P05", Quick: 200000, Thorough: 6000000, Parts: []Part{{copyTree, 1}},
		Real:        []string{"fsutil (copy_fs, bufpool, pathutil)", "vroot.ToIoFs, vroot.ReadDir"},
		Stub:        []string{"source and destination disks (simfs)", "sync.Pool"},
		Assumptions: []string{"entries already at the destination are of the same kind as what is copied over them", "failing closes of files only read are ignored by design"}})
}
