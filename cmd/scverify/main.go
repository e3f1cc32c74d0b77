// Command scverify decides the properties of sc-golang from its source.
//
// It exits with 0 when every obligation of the property holds, and 1 after
// printing a VIOLATION line otherwise. Obligations that can't be decided, a
// repository that doesn't type-check and failures of the analysis are
// violations too: nothing is known to hold then.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"scverify/internal/load"
	"scverify/internal/rules"
)

func main() {
	if f := os.Getenv("SCV_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil && pprof.StartCPUProfile(w) == nil {
			go func() {
				time.Sleep(25 * time.Second)
				pprof.StopCPUProfile()
				w.Close()
			}()
		}
	}
	repo := flag.String("repo", "/repo", "the repository")
	prop := flag.String("property", "", "which property")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	only := flag.String("only", "", "only rules with this prefix, and constructs containing what follows @")
	out := flag.String("out", "", "directory evidence is written to")
	known := flag.String("known", "", "the known findings")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	start := time.Now()
	c := &rules.Ctx{Prop: *prop}
	p, err := load.Load(*repo)
	if err != nil {
		c.Obs = []*rules.Ob{{Rule: "load", Construct: "repository", Undecided: true, Detail: err.Error()}}
	} else {
		c = rules.New(p, *prop, *tier)
		c.Only = *only
		c.Run()
	}
	if len(c.Obs) == 0 {
		c.Obs = []*rules.Ob{{Rule: "analysis", Construct: *prop, Undecided: true, Detail: "no rules"}}
	}
	findings := readKnown(*known)
	var bad []*rules.Ob
	nKnown := 0
	for _, o := range c.Obs {
		if *verbose {
			fmt.Printf("%v %s: %s %s %s paths=%d cut=%d\n", o.OK, o.Rule, o.Construct, o.Pos, o.Detail, o.Paths, o.Cut)
		}
		if o.OK {
			continue
		}
		if what, ok := findings.covers(*prop, o); ok {
			nKnown++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, what)
			continue
		}
		bad = append(bad, o)
	}
	replay := ""
	if *out != "" {
		os.MkdirAll(*out, 0o755)
		replay = filepath.Join(*out, *prop+".violations.txt")
		if len(bad) > 0 {
			writeReplay(replay, *prop, bad)
		} else {
			os.Remove(replay)
		}
		writeEvidence(filepath.Join(*out, *prop+".json"), c, *tier, len(bad), nKnown, time.Since(start))
	}
	for i, o := range bad {
		if i == 25 {
			fmt.Printf("and %d more\n", len(bad)-i)
			break
		}
		kind := "violated"
		if o.Undecided {
			kind = "not shown to hold"
		}
		fmt.Printf("%s %s [%s]: %s\n    %s\n", o.Pos, o.Rule, o.Construct, kind, o.Detail)
		if *verbose {
			for _, t := range o.Trace {
				fmt.Println("       ", t)
			}
		}
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replay)
		os.Exit(1)
	}
	fmt.Printf("property %s holds: %d obligations in %.1fs\n", *prop, len(c.Obs)-nKnown, time.Since(start).Seconds())
}

func envOr(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func writeReplay(file, prop string, bad []*rules.Ob) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", prop)
	for _, o := range bad {
		fmt.Fprintf(&sb, "\nrule: %s\nconstruct: %s\nposition: %s\nundecided: %v\n%s\n", o.Rule, o.Construct, o.Pos, o.Undecided, o.Detail)
		if len(o.Trace) > 0 {
			fmt.Fprintf(&sb, "on the path where:\n")
			for _, t := range o.Trace {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
		}
	}
	os.WriteFile(file, []byte(sb.String()), 0o644)
}

func writeEvidence(file string, c *rules.Ctx, tier string, bad, known int, wall time.Duration) {
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "0"))
	discharged, paths, cut, steps := 0, 0, 0, 0
	perRule := map[string]map[string]int{}
	var samples []any
	sampled := map[string]int{}
	for _, o := range c.Obs {
		r := perRule[o.Rule]
		if r == nil {
			r = map[string]int{}
			perRule[o.Rule] = r
		}
		r["obligations"]++
		r["paths"] += o.Paths
		if o.OK {
			discharged++
			r["discharged"]++
		}
		paths += o.Paths
		cut += o.Cut
		steps += o.Steps
		if sampled[o.Rule] < 3 || !o.OK {
			sampled[o.Rule]++
			samples = append(samples, o)
		}
	}
	var rs []any
	for _, r := range rules.For(c.Prop) {
		rs = append(rs, map[string]any{"rule": r.Name, "decides": r.Desc, "counts": perRule[r.Name]})
	}
	fns := c.Analysed()
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":              "Static analysis of /repo's current source: it is type-checked, put in SSA form and interpreted abstractly, path by path (trace partitioning), with symbolic messages, ids, masks, times, errors and callbacks; nothing of it is run. Each obligation is a rule applied to a construct; it is discharged when no abstract path breaks the rule. An obligation that can't be decided counts as a violation.",
		"obligations":              len(c.Obs),
		"discharged":               discharged,
		"abstract_paths":           paths,
		"paths_cut_at_loop_bounds": cut,
		"instructions_interpreted": steps,
		"functions_interpreted":    len(fns),
		"functions":                fns,
		"rules":                    rs,
		"samples":                  samples,
		"known_findings":           known,
	}
	if c.P != nil {
		cov["packages_loaded"] = len(c.P.Pkgs)
	}
	for k, v := range c.Counts {
		cov[k] = v
	}
	e := map[string]any{
		"property": c.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": bad,
		"assumptions": append([]string{
			"go/types and go/ssa represent the program the go compiler builds",
			"the models of functions outside the module (proto, time, sync, context, sort, grpc status) in internal/absint describe them",
			"the bounds stated with each rule in DESIGN.md",
		}, c.Notes...),
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err == nil {
		err = os.WriteFile(file, b, 0o644)
	}
	if err != nil {
		fmt.Println("evidence:", err)
	}
}

// finding is a genuine defect that isn't repaired.
type finding struct{ prop, rule, construct, detail, what string }

type known []finding

// readKnown reads lines of the form
// finding: property=C01 rule=r construct="c" detail="d" what fails
func readKnown(file string) known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var k known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: ")
		var f finding
		for _, kv := range []struct {
			name string
			to   *string
		}{{"property=", &f.prop}, {"rule=", &f.rule}, {"construct=", &f.construct}, {"detail=", &f.detail}} {
			rest = strings.TrimSpace(rest)
			if !strings.HasPrefix(rest, kv.name) {
				continue
			}
			rest = rest[len(kv.name):]
			if strings.HasPrefix(rest, `"`) {
				q, err := strconv.QuotedPrefix(rest)
				if err != nil {
					continue
				}
				*kv.to, _ = strconv.Unquote(q)
				rest = rest[len(q):]
			} else {
				*kv.to, rest, _ = strings.Cut(rest, " ")
			}
		}
		f.what = strings.TrimSpace(rest)
		k = append(k, f)
	}
	return k
}

// covers says whether every failure of the obligation is a known finding.
func (k known) covers(prop string, o *rules.Ob) (string, bool) {
	if o.Undecided {
		return "", false
	}
	for _, f := range k {
		if f.prop == prop && f.rule == o.Rule && f.construct == o.Construct && f.detail == o.Detail {
			return f.what, true
		}
	}
	return "", false
}
