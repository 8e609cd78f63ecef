package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// P01/P03: every operation that can panic is guarded on every path.

func init() {
	checks["P01"] = check{level: "proof", run: func(c *Ctx, r *Report) { runPanics(c, r, c.parseRoots()) }}
	checks["P25"] = check{level: "proof", run: func(c *Ctx, r *Report) { runPanics(c, r, append(c.verifyRoots(), c.anonRoots()...)) }}
	checks["P03"] = check{level: "proof", run: func(c *Ctx, r *Report) { runPanics(c, r, c.marshalRoots()) }}
}

func runPanics(c *Ctx, r *Report, roots []*ssa.Function) {
	reach := c.P.reach(roots...)
	e := newNumEng(c)
	e.scope = reach
	var fs []*ssa.Function
	for _, f := range sortedFuncs(reach) {
		if isRepoFunc(f) && len(f.Blocks) > 0 && !isProtoPkg(funcPkg(f)) {
			fs = append(fs, f)
		}
	}
	if pre := os.Getenv("NUMROOT"); pre != "" {
		fs = nil
		for _, f := range sortedFuncs(c.P.All) {
			if strings.HasPrefix(f.Name(), pre) && len(f.Blocks) > 0 && isRepoFunc(f) {
				fs = append(fs, f)
				i := e.analyse(f)
				for _, o := range i.open {
					fmt.Printf("%s: %s in %s opaque=%v %s\n", f.Name(), o.ob.what, fname(o.in.Parent()), o.opaque, o.detail)
				}
				if len(i.open) == 0 {
					fmt.Printf("%s: clean\n", f.Name())
				}
			}
		}
		return
	}
	trace := os.Getenv("NUMTRACE") != ""
	for _, f := range fs {
		t := time.Now()
		i := e.analyse(f)
		if trace && time.Since(t) > 300*time.Millisecond {
			fmt.Printf("  %-60s %v blocks=%d fm=%d open=%d\n", fname(f), time.Since(t).Round(time.Millisecond), i.size, i.fm, len(i.open))
		}
	}
	if os.Getenv("NUMPOSTS") != "" {
		for _, f := range fs {
			fmt.Printf("posts %s size=%d: %v covered0=%v\n", fname(f), e.info[f].size, e.info[f].posts, e.info[f].covered(0))
		}
	}
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	inSites := map[*ssa.Function]int{}
	for _, f := range fs {
		for _, ci := range callsOf(f) {
			if g := ci.Common().StaticCallee(); g != nil {
				if _, ok := ci.(*ssa.Call); ok {
					inSites[g]++
				} else {
					e.refused[g] = true
				}
			}
		}
	}
	n, undecided := 0, 0
	for _, f := range fs {
		i := e.info[f]
		n += i.obls
		if !i.dirty() || !(isRoot[f] || e.refused[f] || inSites[f] == 0 && f.Parent() == nil) {
			continue
		}
		for _, o := range i.open {
			fn := o.in.Parent()
			if o.opaque {
				undecided++
				if trace {
					fmt.Printf("  undecided %s: %s in %s at %s: %s\n", fname(f), o.ob.what, fname(fn), c.P.instrPos(o.in), o.detail)
				}
				continue
			}
			via := ""
			if fn != f {
				via = fmt.Sprintf(" (analysed from %s)", fname(f))
			}
			r.add(Finding{Rule: o.ob.kind, Fn: fname(fn), What: o.ob.what, Pos: c.P.instrPos(o.in),
				Msg: fmt.Sprintf("%s can fail: cannot be shown that %s%s", o.ob.what, o.detail, via)})
		}
	}
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Pos < r.Findings[j].Pos })
	r.Cov["obligations"] = n
	r.Cov["functions"] = len(fs)
	r.Cov["undecided"] = undecided
	r.Cov["entailment_queries"] = e.fmTotal
	r.floor("functions reachable from the entry points", len(fs), 40)
}
