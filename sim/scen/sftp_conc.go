package scen

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/sftpfs"
	"github.com/pkg/sftp"
	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/simsftp"
	"verif.local/sim/vsim"
)

var sftpConcMix = []fsop.KW{{"lstat", 2}, {"mkdir", 3}, {"mkdirall", 3}, {"remove", 3}, {"removeall", 3}, {"readfile", 4}, {"writefile", 6},
	{"list", 3}, {"listpieces", 2}, {"open", 5}, {"read", 3}, {"readat", 2}, {"write", 4}, {"seek", 2}, {"fstat", 2}, {"close", 2}, {"rename", 2}}

// sftpConc: several tasks on one connection.
func sftpConc(s *vsim.Sim) {
	s.Configure()
	disk := simfs.Model("server")
	srv := &simsftp.Server{Disk: disk, Plan: &simsftp.Plan{Sim: s}, OpenSSH: s.Chance(vsim.SCfg, 0.5), Fsync: true, Batch: 1 + s.Draw(vsim.SCfg, 3)}
	tasks := 2 + s.Draw(vsim.SCfg, 2)
	must := func(err error) {
		if err != nil {
			s.HarnessFail("set-up: %v", err)
		}
	}
	entries := s.Draw(vsim.SOps, 7)
	must(disk.MkdirAll(sftpBase+"/shared", 0o755))
	must(disk.MkdirAll(sftpBase+"/doomed", 0o755))
	for i := 0; i < entries; i++ {
		must(vroot.WriteFile[vroot.File](disk, sftpBase+"/shared/e"+itoa(i), nil, 0o644))
		must(disk.MkdirAll(sftpBase+"/doomed/d"+itoa(i%3), 0o755))
		must(vroot.WriteFile[vroot.File](disk, sftpBase+"/doomed/d"+itoa(i%3)+"/e"+itoa(i), nil, 0o644))
	}
	must(disk.MkdirAll("srv/out", 0o755))
	must(vroot.WriteFile[vroot.File](disk, "srv/out/secret", []byte("secret"), 0o600))
	must(disk.Symlink("../../out", sftpBase+"/doomed/link"))
	for t := 0; t < tasks; t++ {
		must(disk.MkdirAll(sftpBase+"/t"+itoa(t), 0o755))
	}
	conn := srv.Dial()
	c, err := sftp.NewClientPipe(conn, conn, sftp.UseConcurrentReads(false), sftp.UseFstat(true))
	if err != nil {
		s.HarnessFail("sftp client: %v", err)
		return
	}
	fsys := sftpfs.New(c, s.Chance(vsim.SCfg, 0.5), "/"+sftpBase)
	dir, err := fsys.Open("shared")
	if err != nil {
		s.Fail("shared-open", "opening an existing directory: %v", err)
		return
	}
	var got []string
	closer := s.Chance(vsim.SCfg, 0.25)
	closed := false
	doom := s.Chance(vsim.SCfg, 0.5)
	common := s.Chance(vsim.SCfg, 0.5)
	models := make([]*fsop.World, tasks)
	for t := 0; t < tasks; t++ {
		own := "t" + itoa(t)
		models[t] = fsop.NewWorld(simfs.Model(own))
		must(models[t].FS.Mkdir(own, 0o755))
		w := fsop.NewWorld(fsys)
		g := fsop.NewGen(s, []string{"a", "b", "c"}, 2, sftpConcMix, nil)
		g.Perms = []fs.FileMode{0o755}
		g.Flags = []int{0, 2, 2 | 0x40, 1 | 0x40 | 0x200}
		g.WholeDirs = true
		g.Plan = fsop.NewWorld(simfs.Model("plan"))
		n := 2 + s.Draw(vsim.SOps, 6)
		s.Go("u"+itoa(t), func() {
			if doom {
				if err := fsys.RemoveAll("doomed"); err != nil {
					s.Fail("removeall", "RemoveAll of a tree only others remove too: %v", err)
					return
				}
				if _, err := fsys.Lstat("doomed"); !errors.Is(err, fs.ErrNotExist) {
					s.Fail("removeall", "after RemoveAll the tree is there: %v", err)
					return
				}
			}
			if common {
				if err := fsys.MkdirAll("common/x/y", 0o755); err != nil {
					s.Fail("mkdirall", "MkdirAll of directories others make too: %v", err)
					return
				}
			}
			for i := 0; i < n && !s.Failed(); i++ {
				if s.Draw(vsim.SOps, 3) == 0 {
					was := closed
					k := s.Draw(vsim.SOps, 4)
					var l []string
					var err error
					switch s.Draw(vsim.SOps, 3) {
					case 0:
						l, err = dir.Readdirnames(k)
					case 1:
						var es []fs.DirEntry
						es, err = dir.ReadDir(k)
						for _, e := range es {
							l = append(l, e.Name())
						}
					default:
						var es []fs.FileInfo
						es, err = dir.Readdir(k)
						for _, e := range es {
							l = append(l, e.Name())
						}
					}
					s.Logf("u%d takes %d of the shared directory -> %q %v", t, k, l, err)
					got = append(got, l...)
					switch {
					case was && !errors.Is(err, fs.ErrClosed):
						s.Fail("closed-lists", "a closed directory handle lists %q, %v", l, err)
						return
					case err != nil && !(err == io.EOF && k > 0) && !(errors.Is(err, fs.ErrClosed) && closer):
						s.Fail("shared-list", "a shared directory handle gives %v", err)
						return
					}
					continue
				}
				if closer && s.Draw(vsim.SOps, 8) == 0 {
					_ = dir.Close()
					closed = true
					s.Logf("u%d closes the shared directory", t)
					continue
				}
				op := g.Next()
				if op.Kind == "rename" && srv.OpenSSH {
					continue
				}
				if h := models[t].H[op.H]; h == nil && strings.Contains("read readat write seek fstat close", op.Kind) {
					continue
				} else if h != nil && op.Kind != "close" {
					if st, err := h.Stat(); err == nil && st.IsDir() && op.Kind != "fstat" {
						continue
					}
				}
				if op.A != "" {
					op.A = path.Join(own, op.A)
				}
				if op.B != "" {
					op.B = path.Join(own, op.B)
				}
				res, want := w.Do(op), models[t].Do(op)
				s.Logf("u%d %s -> %s %v", t, op, res, res.Err)
				s.State(op.Kind + res.Class)
				if op.Kind == "read" && res.Err == io.EOF && want.Err == nil && !strings.HasPrefix(res.Val, "0:") {
					res.Err = nil
				}
				if (res.Err == nil) != (want.Err == nil) && !(op.Kind == "removeall" && want.Class != "ok") || res.Val != want.Val && res.Err == nil {
					s.Fail("outcome-differs", "u%d, which has %s to itself: %s -> %s %v, a plain file system gives %s %v", t, own, op, res, res.Err, want, want.Err)
					return
				}
			}
			for _, h := range sortedHandles(w.H) {
				_ = w.H[h].Close()
			}
		})
	}
	s.Run()
	defer c.Close()
	if s.Failed() || s.Stuck != "" {
		return
	}
	if l, err := dir.Readdirnames(-1); err == nil {
		got = append(got, l...)
		sort.Strings(got)
		var want []string
		for i := 0; i < entries; i++ {
			want = append(want, "e"+itoa(i))
		}
		if !closed && fmt.Sprint(got) != fmt.Sprint(want) {
			s.Fail("shared-list", "the tasks together took %q of a directory of %q", got, want)
			return
		}
	}
	_ = dir.Close()
	for t, m := range models {
		a, _ := fsop.Dump(disk, sftpBase+"/t"+itoa(t), fsop.DumpOpt{Tolerant: true})
		a = strings.ReplaceAll(a, sftpBase+"/", "")
		b, _ := fsop.Dump(m.FS, "t"+itoa(t), fsop.DumpOpt{Tolerant: true})
		if a != b {
			s.Fail("tree-differs", "u%d left\n%s\na plain file system has\n%s", t, a, b)
			return
		}
	}
	if b, err := vroot.ReadFile[vroot.File](disk, "srv/out/secret"); err != nil || string(b) != "secret" {
		s.Fail("touched-outside", "a file outside of the base: %q %v", b, err)
	}
	if n := srv.Open(); n != 0 {
		s.Fail("handle-leak", "%d handles are open on the server after all were closed", n)
	}
}

func sortedHandles(m map[int]vroot.File) []int {
	var hs []int
	for h := range m {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	return hs
}
