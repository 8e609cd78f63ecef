package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one construct at which a rule could not be discharged.
type Finding struct {
	Rule string // rule name
	Fn   string // function (stable name)
	What string // construct, described without line numbers
	Pos  string // file:line for the reader
	Msg  string // explanation
}

func (f Finding) Key() string { return f.Rule + "|" + f.Fn + "|" + f.What }

// Report collects the outcome of one property check.
type Report struct {
	Prop     string
	Tier     string
	Level    string
	Start    time.Time
	Findings []Finding
	Cov      map[string]any
	Assume   []string
	floors   []string
	seen     map[string]bool
}

func newReport(prop, tier, level string) *Report {
	return &Report{Prop: prop, Tier: tier, Level: level, Start: time.Now(), Cov: map[string]any{}, seen: map[string]bool{}}
}

func (r *Report) add(f Finding) {
	k := f.Key() + "|" + f.Pos
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, f)
}

// floor demands that an instance count has not collapsed (a rule that matches
// nothing passes vacuously).
func (r *Report) floor(name string, got, min int) {
	if _, ok := r.Cov[name]; !ok {
		r.Cov[name] = got
		r.floors = append(r.floors, name)
	}
	if got < min {
		r.add(Finding{Rule: "floor", Fn: name, What: "instance count", Msg: fmt.Sprintf("only %d %s analysed, at least %d confirmed by hand: the rule no longer sees the code it is about", got, name, min)})
	}
}

func relPos(p token.Position) string {
	fn := p.Filename
	if rel, err := filepath.Rel(repoDir(), fn); err == nil && !strings.HasPrefix(rel, "..") {
		fn = rel
	}
	return fmt.Sprintf("%s:%d", fn, p.Line)
}

func verifDir() string {
	if d := os.Getenv("TGCHECK_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads the known findings for a property: key -> description.
func loadKnown(prop string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+prop+" ")
		i := strings.Index(rest, "key=[")
		j := strings.Index(rest, "] ")
		if i != 0 || j < 0 {
			continue
		}
		out[rest[len("key=["):j]] = rest[j+2:]
	}
	return out
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

// finish prints the verdict, writes the evidence file and returns the exit code.
func (r *Report) finish() int {
	known := loadKnown(r.Prop)
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Key() < r.Findings[j].Key() })
	var viol, kn []Finding
	knownUsed := map[string]bool{}
	for _, f := range r.Findings {
		if _, ok := known[f.Key()]; ok {
			kn = append(kn, f)
			knownUsed[f.Key()] = true
		} else {
			viol = append(viol, f)
		}
	}
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, r.Prop+".findings.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n    %s\n    key=[%s]\n", f.Pos, f.Rule, f.Fn, f.What, f.Msg, f.Key())
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	var keys []string
	for k := range knownUsed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, known[k])
	}
	r.normalise(len(r.Findings))
	r.Cov["known_findings_matched"] = len(keys)
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": seed(), "level": r.Level,
		"coverage": r.Cov, "wall_s": time.Since(r.Start).Seconds(), "violations": len(viol),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, r.Prop+".json"), append(b, '\n'), 0o644)
	lines := strings.SplitAfter(sb.String(), "\n")
	if len(lines) > 90 {
		lines = append(lines[:90], fmt.Sprintf("... %d findings in all, see %s\n", len(viol), replay))
	}
	fmt.Print(strings.Join(lines, ""))
	var cks []string
	for k, v := range r.Cov {
		if n, ok := v.(int); ok {
			cks = append(cks, fmt.Sprintf("%s=%d", k, n))
		}
	}
	sort.Strings(cks)
	fmt.Printf("%s: %s\n", r.Prop, strings.Join(cks, " "))
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		return 1
	}
	fmt.Printf("OK property=%s\n", r.Prop)
	return 0
}
