package scen

import (
	"fmt"
	"io/fs"
	"strings"

	"verif.local/sim/fsop"
	"verif.local/sim/simfs"
	"verif.local/sim/vsim"
)

// recorder collects a concurrent history.
type recorder struct {
	s     *vsim.Sim
	clock int64
	hist  []fsop.Event
}

// do runs op from a task and records it.
func (r *recorder) do(task int, w *fsop.World, op fsop.Op) fsop.Result {
	r.clock++
	i := len(r.hist)
	r.hist = append(r.hist, fsop.Event{Task: task, Op: op, Inv: r.clock, Ret: 1 << 61, Pending: true})
	vsim.Yield(vsim.KOp, uint32(task))
	r.s.Logf("t%d> %s", task, op)
	res := w.Do(op)
	r.clock++
	r.hist[i].Res, r.hist[i].Ret, r.hist[i].Pending = res, r.clock, false
	if res.Err != nil {
		r.s.Logf("t%d< %s (%v)", task, res, res.Err)
	} else {
		r.s.Logf("t%d< %s", task, res)
	}
	r.s.State(op.Kind + res.Class)
	return res
}

// sameErr treats two failures as equal whatever their class, except for the
// distinctions callers branch on.
func sameErr(op fsop.Op, got, want fsop.Result) bool {
	if op.Kind == "close" {
		// closing twice: an error or not
		return true
	}
	if got.Val == "" && (op.Kind == "setowner" || op.Kind == "setlowner") {
		want.Val = "" // not every file information tells whose it is
	}
	if got.Val != want.Val {
		return false
	}
	if got.Class == want.Class {
		return true
	}
	if got.Class == "ok" || want.Class == "ok" || got.Class == "EOF" || want.Class == "EOF" {
		return false
	}
	return true
}

// seedTree builds the same initial tree in a file system and a model.
func seedTree(s *vsim.Sim, g *fsop.Gen, n int, worlds ...*fsop.World) {
	kinds := []fsop.KW{{Kind: "writefile", W: 5}, {Kind: "mkdirall", W: 6}, {Kind: "symlink", W: 2}}
	gg := *g
	gg.Mix = kinds
	gg.Views = 0
	gg.Perms = []fs.FileMode{0o755}
	for i := 0; i < n; i++ {
		op := gg.Next()
		var rs []string
		for _, w := range worlds {
			rs = append(rs, w.Do(op).Class)
		}
		s.Logf("setup %s %s", op, strings.Join(rs, "/"))
	}
}

// farSteps is the step budget of a run that goes a long way.
const farSteps = 20_000_000

// seedFar puts something a long way off into a tree: behind a chain of links, well
// below the forty a system follows, in a directory many levels down,
// or among hundreds of entries. The
// generator names it from then on.
func seedFar(s *vsim.Sim, g *fsop.Gen, worlds ...*fsop.World) {
	s.MaxSteps = max(s.MaxSteps, farSteps)
	nm := g.Names[0]
	do := func(op fsop.Op) {
		for _, w := range worlds {
			w.Do(op)
		}
	}
	how := s.Draw(vsim.SOps, 3)
	if how == 2 {
		// or among very many
		n := 90 + s.Draw(vsim.SOps, 200)
		do(fsop.Op{Kind: "mkdir", A: "mn", Perm: 0o755})
		for i := range n {
			do(fsop.Op{Kind: "writefile", A: "mn/e" + itoa(i)})
		}
		g.Far = []string{"mn", "mn", "mn/e0", "mn/e" + itoa(n-1), "mn/new"}
		s.Logf("mn holds %d files", n)
		return
	}
	if how == 0 {
		n := 6 + s.Draw(vsim.SOps, 26)
		do(fsop.Op{Kind: "mkdirall", A: "ln/t", Perm: 0o755})
		for i := 0; i <= n; i++ {
			to := "c" + itoa(i+1)
			if i == n {
				to = "t"
			}
			do(fsop.Op{Kind: "symlink", A: to, B: "ln/c" + itoa(i)})
		}
		do(fsop.Op{Kind: "writefile", A: "ln/t/" + nm, Data: "far"})
		g.Far = []string{"ln/c0", "ln/c0/" + nm, "ln/c0/new", "ln/c1", "ln/c1/" + nm}
		s.Logf("ln/c0 is %d links away from ln/t", n+1)
		return
	}
	n := 30 + s.Draw(vsim.SOps, 30)
	p := "dp" + strings.Repeat("/d", n)
	do(fsop.Op{Kind: "mkdirall", A: p, Perm: 0o755})
	do(fsop.Op{Kind: "writefile", A: p + "/" + nm, Data: "far"})
	do(fsop.Op{Kind: "symlink", A: nm, B: p + "/l"})
	do(fsop.Op{Kind: "symlink", A: p, B: "far"})
	g.Far = []string{p, p + "/" + nm, p + "/new", p + "/l", p + "/../d/" + nm, "far/" + nm, "far/l"}
	s.Logf("dp/d/... is %d levels down", n)
}

func checkLin(s *vsim.Sim, class string, init *simfs.Disk, hist []fsop.Event, acc fsop.Accept, final func(*simfs.Disk) bool) {
	if err := fsop.Linearize(init, hist, acc, final); err != nil {
		s.Fail(class, "%v", err)
	}
	if fsop.Undecided {
		s.Probe("linearizability-undecided")
	}
}

func itoa(n int) string { return fmt.Sprint(n) }
