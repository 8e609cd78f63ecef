package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

type check struct {
	level string
	run   func(c *Ctx, r *Report)
	tools bool // needs the tools module instead of the library and command
}

// Ctx carries what all checks of a run share.
type Ctx struct {
	P     *Prog // cmd/tachograph and, through it, the library
	Tools *Prog
	Tier  string
	memo  map[string]any
}

var checks = map[string]check{}

func runOne(id, tier string, c *Ctx) (code int) {
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	r := newReport(id, tier, ck.level)
	defer func() {
		if e := recover(); e != nil {
			r.add(Finding{Rule: "internal", Fn: "checker", What: "panic", Msg: fmt.Sprintf("the checker could not analyse the tree: %v\n%s", e, debug.Stack())})
			code = r.finish()
		}
	}()
	var err error
	if ck.tools {
		if c.Tools == nil {
			c.Tools, err = loadModule(repoDir()+"/tools", "./cmd/...")
		}
	} else if c.P == nil {
		c.P, err = loadModule(repoDir()+"/cmd/tachograph", append([]string{"./..."}, libPackages()...)...)
	}
	if err != nil {
		r.add(Finding{Rule: "load", Fn: "module", What: "load", Msg: err.Error()})
		return r.finish()
	}
	ck.run(c, r)
	return r.finish()
}

func main() {
	prop := flag.String("property", "", "property id or 'all'")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	c := &Ctx{Tier: *tier, memo: map[string]any{}}
	if *prop != "all" {
		os.Exit(runOne(*prop, *tier, c))
	}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	bad := 0
	for _, id := range ids {
		t := time.Now()
		if code := runOne(id, *tier, c); code != 0 {
			bad++
		}
		fmt.Printf("  (%s took %s)\n", id, time.Since(t).Round(time.Millisecond))
	}
	if bad > 0 {
		os.Exit(1)
	}
}
