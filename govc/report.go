package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type knownFinding struct {
	Property   string `json:"property"`
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Fixed      string `json:"fixed,omitempty"`
}

func loadKnown() []knownFinding {
	var ks []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		var f struct {
			Findings []knownFinding `json:"findings"`
		}
		json.Unmarshal(b, &f)
		ks = f.Findings
	}
	return ks
}

type violation struct {
	replay string
	noIn   bool
}

func (r *checkRun) report(only string) int {
	ks := loadKnown()
	base := baseline()
	if writeBase {
		base.update(r.results)
	}
	isKnown := func(contract, obl string) *knownFinding {
		for i := range ks {
			k := &ks[i]
			if k.Fixed == "" && k.Property == r.prop && k.Contract == contract && (k.Obligation == obl || k.Obligation == "*") {
				return k
			}
		}
		return nil
	}
	rdir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	var viols []violation
	known := map[string]bool{}
	var obls, disch, runs, distinct, reached int
	backends := map[string]int{}
	funcs := map[string]bool{}
	notes := map[string]bool{}
	loops := map[string]string{}
	var solverS float64
	var queries, cvc5 int
	proved, undecided, bounded := []string{}, []string{}, []string{}
	var details []map[string]any
	var samples []any
	for _, f := range r.funs {
		if only != "" && f.name != only {
			continue
		}
		d := map[string]any{"contract": f.name, "title": f.title, "file": strings.TrimPrefix(f.file.path, verifDir+"/")}
		res, nat := r.results[f.name], r.native[f.name]
		status := "not run"
		if f.file.dropped != "" {
			status = "undecided: contract no longer type-checks against the code: " + f.file.dropped
		} else if f.bounded {
			status = "bounded"
		}
		if res != nil {
			status = res.Status
			if res.Reason != "" {
				status += ": " + res.Reason
			}
			solverS += res.SolverS
			queries += res.Queries
			cvc5 += res.Cvc5
			for _, x := range res.Funcs {
				funcs[x] = true
			}
			for _, x := range res.Notes {
				notes[x] = true
			}
			for k, v := range res.Loops {
				loops[k] = v
			}
			var ol []string
			for _, o := range res.Obls {
				obls += o.Discharged + o.Refuted + o.Undecided
				disch += o.Discharged
				for b, n := range o.Backends {
					backends[b] += n
				}
				ol = append(ol, fmt.Sprintf("%s: %s [discharged %d, refuted %d, undecided %d] %s", o.Kind, o.Name, o.Discharged, o.Refuted, o.Undecided, o.Pos))
			}
			d["obligations"] = ol
			d["paths"], d["wall_s"] = res.Paths, res.WallS
		}
		d["status"] = status
		if nat != nil {
			runs += nat.Runs
			distinct += nat.Distinct
			reached += nat.Reached
			d["native_runs"], d["native_reached"], d["native_skipped"] = nat.Runs, nat.Reached, nat.Skipped
			for _, s := range nat.Samples {
				if len(samples) < 8 {
					samples = append(samples, map[string]any{"contract": f.name, "inputs": s})
				}
			}
		}
		switch {
		case res != nil && res.Status == "proved":
			proved = append(proved, f.name)
		case f.bounded:
			bounded = append(bounded, f.name)
		default:
			undecided = append(undecided, f.name)
		}
		// triage
		var fails []string
		if nat != nil && nat.Bad != nil {
			fails = append(fails, nat.Bad.Fails...)
			if nat.Bad.Panic != "" {
				fails = append(fails, "no panic")
			}
		}
		if nat != nil && nat.Crash != "" {
			fails = append(fails, "no panic")
		}
		var newFails []string
		for _, x := range fails {
			if k := isKnown(f.name, x); k != nil {
				if !known[k.What] {
					known[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k.What)
				}
				continue
			}
			newFails = append(newFails, x)
		}
		if len(newFails) > 0 {
			p := filepath.Join(rdir, r.prop+"_"+f.name+".json")
			o := map[string]any{"property": r.prop, "contract": f.name, "file": d["file"], "failed_obligations": newFails, "failing_input": nat.Bad, "crash": nat.Crash, "verifier": res, "how_to_replay": "inputs are the zzvrt values drawn by the contract (same names) executed natively on the real code"}
			b, _ := json.MarshalIndent(o, "", " ")
			os.WriteFile(p, b, 0o644)
			viols = append(viols, violation{p, false})
			d["status"] = "violated"
		} else if res != nil && res.Status != "proved" && len(fails) == 0 {
			var bad []string
			for _, o := range res.Obls {
				if o.Refuted+o.Undecided > 0 && isKnown(f.name, o.Name) == nil {
					bad = append(bad, o.Kind+": "+o.Name)
				}
			}
			if len(bad) == 0 && res.Reason != "" {
				bad = append(bad, res.Reason)
			}
			if len(bad) > 0 && base.changed(f.name, res) {
				p := filepath.Join(rdir, r.prop+"_"+f.name+".json")
				o := map[string]any{"property": r.prop, "contract": f.name, "file": d["file"], "failed_obligations": bad, "verifier": res, "changed_functions": base.diff(res),
					"note": "every obligation of this contract was discharged for the code it was written against; the code has changed and these obligations are not discharged any more. No failing concrete input was found by replaying the solver's models or by search."}
				b, _ := json.MarshalIndent(o, "", " ")
				os.WriteFile(p, b, 0o644)
				viols = append(viols, violation{p, true})
				d["status"] = "obligations not discharged any more (no failing input found)"
			} else if res.Status == "refuted" {
				d["status"] = "undecided: counterexample of the abstraction not reproducible natively"
			}
		}
		details = append(details, d)
	}
	if r.natErr != "" {
		notes["native runner not available: "+truncate(r.natErr, 400)] = true
	}
	if r.loadErr != "" {
		notes["verifier front end: "+truncate(r.loadErr, 400)] = true
	}
	var assumptions []string
	for _, n := range sortedStrs(notes) {
		assumptions = append(assumptions, n)
	}
	level := manifestLevel(r.prop)
	cov := map[string]any{
		"obligations": obls, "discharged": disch,
		"checker_cmd":              "checks/run.sh " + r.prop + " (govc weakest-precondition style symbolic execution of go/ssa of /repo, z3 4.8.12 and cvc5 1.1.2)",
		"trusted_base":             trustedBase(),
		"contracts":                len(details),
		"contracts_proved":         proved,
		"contracts_bounded":        bounded,
		"contracts_undecided":      undecided,
		"functions_under_contract": sortedStrs(funcs),
		"backends":                 backends,
		"solver_s":                 solverS,
		"solver_queries":           queries,
		"cvc5_runs":                cvc5,
		"loops":                    loops,
		"details":                  details,
		"evaluations":              runs,
		"distinct_nontrivial":      distinct,
		"postconditions_evaluated": reached,
		"rule":                     "native cross-check: every contract is also executed on the real compiled code with counterexamples of the verifier and pseudo-random inputs (seed VERIF_SEED); a case counts when it reached at least one postcondition and its input valuation differs from the earlier ones",
		"samples":                  samples,
		"contract_files_dropped":   r.dropped,
		"load_s":                   r.loadS,
		"explanation":              "obligations are generated from the go/ssa form of /repo's current source on this run; bounded stand-ins are never counted as discharged",
	}
	ev := map[string]any{"property": r.prop, "tier": r.tier, "seed": r.seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": time.Since(r.t0).Seconds(), "violations": len(viols)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if only == "" {
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verifDir, "evidence", r.prop+".json"), b, 0o644)
	}
	fmt.Printf("%s: %d contracts: %d proved, %d bounded, %d undecided; obligations %d/%d discharged; %d native runs (%d distinct); %.1fs\n", r.prop, len(details), len(proved), len(bounded), len(undecided), disch, obls, runs, distinct, time.Since(r.t0).Seconds())
	for _, u := range undecided {
		for _, d := range details {
			if d["contract"] == u {
				fmt.Printf("  %s: %v\n", u, d["status"])
			}
		}
	}
	sort.SliceStable(viols, func(i, j int) bool { return !viols[i].noIn && viols[j].noIn })
	for _, v := range viols {
		s := ""
		if v.noIn {
			s = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", r.prop, v.replay, s)
	}
	if len(viols) > 0 {
		return 1
	}
	return 0
}

func manifestLevel(prop string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		json.Unmarshal(b, &m)
		for _, c := range m.Checks {
			if c.Property == prop {
				return c.Level
			}
		}
	}
	return "proof"
}

func trustedBase() []string {
	return []string{
		"govc (this repository, /verif/govc): go/ssa semantics, memory model, loop summaries, built-in models of standard-library calls",
		"golang.org/x/tools go/packages, go/ssa v0.52.0", "the Go 1.26.10 type checker", "z3 4.8.12", "cvc5 1.1.2",
		"strings, floats and library objects are uninterpreted values; library functions are deterministic functions of their arguments unless listed under assumptions",
		"goroutines switch only at channel operations, waits and goroutine ends",
	}
}
