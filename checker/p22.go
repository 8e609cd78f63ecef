package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P22"] = check{level: "proof", run: runP22} }

// isOutput: calls that write to standard output.
func isOutput(name string) bool {
	switch name {
	case "fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "io.WriteString", "(*os.File).Write", "(*os.File).WriteString",
		"(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(io.Writer).Write", "(*encoding/json.Encoder).Encode":
		return true
	}
	return strings.HasPrefix(name, "(*github.com/spf13/cobra.Command).Print")
}

// reachesFunc: f or something it calls (closures included) calls the named function.
func reachesFunc(f *ssa.Function, name string, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, h := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		for _, ci := range callsOf(h) {
			if callName(ci.Common()) == name {
				return true
			}
			if g := ci.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && inMainModule(g) && reachesFunc(g, name, seen) {
				return true
			}
			for _, a := range ci.Common().Args {
				if g, ok := a.(*ssa.Function); ok && inMainModule(g) && reachesFunc(g, name, seen) {
					return true
				}
			}
		}
	}
	return false
}

func inMainModule(g *ssa.Function) bool {
	p := funcPkg(g)
	return p != nil && p.Name() == "main"
}

func runP22(c *Ctx, r *Report) {
	unm := modPath + ".UnmarshalFile"
	// the command bodies: functions stored into a Run field of a cobra command
	type body struct {
		f     *ssa.Function
		field string
	}
	var bodies []body
	var mains []*ssa.Function
	for _, f := range sortedFuncs(c.P.All) {
		if !inMainModule(f) || len(f.Blocks) == 0 {
			continue
		}
		if f.Name() == "main" && f.Parent() == nil {
			mains = append(mains, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(fa.X.Type())
				if n == nil || n.Obj().Name() != "Command" || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "cobra") {
					continue
				}
				name := strings.SplitN(fieldName(n, fa.Field), "|", 2)[0]
				if name != "Run" && name != "RunE" {
					continue
				}
				var g *ssa.Function
				switch v := st.Val.(type) {
				case *ssa.Function:
					g = v
				case *ssa.MakeClosure:
					g = v.Fn.(*ssa.Function)
				}
				if g != nil && reachesFunc(g, unm, map[*ssa.Function]bool{}) {
					bodies = append(bodies, body{g, name})
				}
			}
		}
	}
	inline := func(f *ssa.Function) bool { return inMainModule(f) }
	paths, success, files, exits := 0, 0, 0, 0
	fn0 := ""
	add := func(rule, what, msg, pos string) {
		r.add(Finding{Rule: rule, Fn: fn0, What: what, Pos: pos, Msg: msg})
	}
	for _, bd := range bodies {
		fn0 = fname(bd.f)
		e := newTpath(c)
		e.inline = inline
		e.keepAll, e.maxIter = true, 4
		isEv := func(n string) bool {
			return n == unm || isOutput(n) || strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "io.") || strings.Contains(n, "protojson") || strings.HasPrefix(n, "(*os.File)")
		}
		e.event = func(n string, cc *ssa.CallCommon) bool { return isEv(n) }
		var args []*term
		var list *term
		for i, p := range bd.f.Params {
			t := e.mk(fmt.Sprintf("arg%d:%s", i, p.Name()))
			args = append(args, t)
			if s, ok := p.Type().Underlying().(*types.Slice); ok {
				if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					list = t
				}
			}
		}
		if list == nil {
			continue
		}
		var fvs []*term
		for _, fv := range bd.f.FreeVars {
			fvs = append(fvs, e.mk("fv:"+fv.Name()))
		}
		judge := func(st *tstate, failed bool, pos string) {
			paths++
			// items this path has entered
			n := 0
			for ; ; n++ {
				t := e.less(e.constTerm(constant.MakeInt64(int64(n))), e.mk("len", list), nil0(e))
				if e.truth(st, t) != 't' {
					break
				}
			}
			elem := func(i int) *term {
				return e.mk("load", e.mk("iaddr", list, e.constTerm(constant.MakeInt64(int64(i)))))
			}
			// for every item in turn: read, parsed from what was read, printed
			pos0 := 0
			for i := 0; i < n; i++ {
				files++
				var parsed *term
				printed := false
				var bad string
				for j := pos0; j < len(st.events); j++ {
					ev := st.events[j]
					nm := ev.callee()
					switch {
					case nm == unm:
						d := e.deps(st, ev)
						if parsed == nil && d[elem(i)] {
							parsed = ev
							if e.nilness(st, e.mk("ret1", ev)) != 'n' {
								bad = "parsing"
							}
							for x := range d {
								if x.callee() != "" && x.callee() != "fmt.Sprintf" && len(x.args) > 0 && strings.HasPrefix(x.callee(), "os.") && e.deps(st, x)[elem(i)] {
									if e.nilness(st, e.mk("ret1", x)) == 'N' {
										bad = "reading"
									}
								}
							}
						}
					case isOutput(nm) && parsed != nil && !printed && e.deps(st, ev)[e.mk("ret0", parsed)]:
						printed = true
						pos0 = j + 1
						if strings.HasPrefix(nm, "(*github.com/spf13/cobra") {
							bad = "printing"
						} else if res := ev; e.nilness(st, e.mk("ret1", res)) != 'n' && e.nilness(st, res) != 'n' {
							bad = "printing"
						}
						// the steps between parsing and printing
						for x := range e.deps(st, ev) {
							if strings.HasPrefix(x.op, "ret0") && strings.Contains(x.args[0].callee(), "protojson") && e.nilness(st, e.mk("ret1", x.args[0])) != 'n' {
								bad = "formatting"
							}
						}
					}
				}
				if !failed {
					switch {
					case parsed == nil:
						add("file-not-processed", "item", fmt.Sprintf("the command can succeed although it did not parse file %d of %d", i+1, n), pos)
					case bad != "":
						add("failure-not-reported", bad, fmt.Sprintf("the command can succeed although %s file %d of %d may have failed", bad, i+1, n), pos)
					case !printed:
						add("file-not-printed", "item", fmt.Sprintf("the command can succeed although the parsed form of file %d of %d was not printed after it was parsed", i+1, n), pos)
					}
				}
			}
			if !failed {
				// success needs the list to be exhausted
				t := e.less(e.constTerm(constant.MakeInt64(int64(n))), e.mk("len", list), nil0(e))
				if e.truth(st, t) != 'f' {
					add("file-not-processed", "list", fmt.Sprintf("the command can succeed after %d files without having reached the end of the list", n), pos)
				}
				success++
				return
			}
			// nothing of a failing file is printed as a message
			for _, ev := range st.events {
				if !isOutput(ev.callee()) {
					continue
				}
				d := e.deps(st, ev)
				for x := range d {
					if x.callee() == unm && e.nilness(st, e.mk("ret1", x)) == 'N' && d[e.mk("ret0", x)] {
						add("failing-file-printed", ev.callee(), "the result of a failed parse is printed", pos)
					}
				}
			}
		}
		e.onExit = func(st *tstate, ci ssa.CallInstruction, name string, args []*term) {
			exits++
			code := true
			if name == "os.Exit" && len(args) > 0 && args[0].cst != nil && args[0].cst.ExactString() == "0" {
				code = false
			}
			judge(st, code, c.P.instrPos(ci.(ssa.Instruction)))
		}
		for _, o := range e.exec(bd.f, args, fvs, newTstate(), "", 0) {
			failed := false
			if len(o.res) > 0 {
				failed = e.nilness(o.st, o.res[len(o.res)-1]) == 'N'
			}
			judge(o.st, failed, c.P.instrPos(o.ret))
		}
		if e.over {
			add("undecided", "path budget", "too many paths to enumerate", "")
		}
	}
	// main: an error from running the command ends the process with a non-zero status
	mainPaths := 0
	for _, m := range mains {
		fn0 = fname(m)
		e := newTpath(c)
		e.inline = func(f *ssa.Function) bool {
			return inMainModule(f) && !reachesFunc(f, unm, map[*ssa.Function]bool{})
		}
		e.keepAll = true
		exec := func(n string) bool {
			return strings.HasSuffix(n, ".Execute") || strings.HasSuffix(n, ").Execute") || strings.HasSuffix(n, ").ExecuteContext") || strings.HasSuffix(n, ").ExecuteC")
		}
		e.event = func(n string, cc *ssa.CallCommon) bool { return exec(n) }
		errOf := func(st *tstate) (byte, bool) {
			seen := false
			var k byte = 'n'
			for _, ev := range st.events {
				seen = true
				v := e.nilness(st, ev)
				if v == 0 {
					v = e.nilness(st, e.mk("ret1", ev))
				}
				if v != 'n' {
					k = v
				}
			}
			return k, seen
		}
		e.onExit = func(st *tstate, ci ssa.CallInstruction, name string, args []*term) {
			mainPaths++
			k, seen := errOf(st)
			if name != "os.Exit" || len(args) == 0 || args[0].cst == nil {
				return
			}
			if args[0].cst.ExactString() == "0" && seen && k != 'n' {
				add("exit-status", "os.Exit", "the process ends with status 0 although the command may have failed", c.P.instrPos(ci.(ssa.Instruction)))
			}
		}
		for _, o := range e.exec(m, nil, nil, newTstate(), "", 0) {
			mainPaths++
			k, seen := errOf(o.st)
			if seen && k != 'n' {
				add("exit-status", "main", "main can return normally (status 0) although running the command failed", c.P.instrPos(o.ret))
			}
		}
	}
	r.Cov["rule"] = "every path of the command body, with the file list unrolled: success implies each file was read, parsed from what was read, and its message printed, in order, each step with its error known nil, and the list exhausted; main turns the command's error into a non-zero exit"
	r.Cov["paths"] = paths + mainPaths
	r.Cov["success_paths"] = success
	r.Cov["file_steps_checked"] = files
	r.Cov["exits"] = exits
	r.Cov["obligations"] = files + mainPaths
	r.Cov["discharged"] = files + mainPaths - len(r.Findings)
	r.Cov["checker_cmd"] = "run.sh P22"
	r.Cov["trusted_base"] = []string{"golang.org/x/tools/go/ssa", "cobra/fang return the RunE error from Execute"}
	r.floor("command bodies", len(bodies), 1)
	r.floor("main functions", len(mains), 1)
}

func nil0(e *tpath) func(*term) *term {
	return func(t *term) *term {
		if t.op == "not" {
			return t.args[0]
		}
		return e.mk("not", t)
	}
}
