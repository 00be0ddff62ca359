package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The baseline names the contracts that are proved and the body of every
// function their proofs went through. It only decides what an undischarged
// obligation means: on the code of the baseline it is an undecided obligation
// (a solver that ran out of time), on changed code it is reported.
type base struct {
	Proved    []string          `json:"proved"`
	Functions map[string]string `json:"functions"`
	set       map[string]bool
}

var (
	writeBase bool
	theBase   *base
)

func baseline() *base {
	if theBase == nil {
		b := &base{Functions: map[string]string{}, set: map[string]bool{}}
		if s, err := os.ReadFile(filepath.Join(verifDir, "contracts", "baseline.json")); err == nil {
			json.Unmarshal(s, b)
		}
		for _, x := range b.Proved {
			b.set[x] = true
		}
		theBase = b
	}
	return theBase
}

// diff lists the functions of a run whose bodies are not those of the baseline.
func (b *base) diff(res *Result1) []string {
	var out []string
	for f, h := range res.Hashes {
		if b.Functions[f] != h {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

func (b *base) changed(contract string, res *Result1) bool {
	return b.set[contract] && len(b.diff(res)) > 0
}

func (b *base) update(rs map[string]*Result1) {
	for n, r := range rs {
		if r.Status == "proved" {
			b.set[n] = true
		}
		for f, h := range r.Hashes {
			b.Functions[f] = h
		}
	}
	b.Proved = nil
	for n := range b.set {
		b.Proved = append(b.Proved, n)
	}
	sort.Strings(b.Proved)
	s, _ := json.MarshalIndent(b, "", " ")
	os.WriteFile(filepath.Join(verifDir, "contracts", "baseline.json"), append(s, '\n'), 0o644)
}

var ssaPos = regexp.MustCompile(`(?m)^\s*(#|;).*$`)

func (e *Eng) bodyHashes() map[string]string {
	out := map[string]string{}
	for fn := range e.fnsSeen {
		if f := e.fset.Position(fn.Pos()).Filename; strings.HasSuffix(f, "_contract.go") || strings.Contains(f, "zzvrt") {
			continue
		}
		out[fn.String()] = hashBody(fn)
	}
	return out
}

func hashBody(fn *ssa.Function) string {
	var sb strings.Builder
	fn.WriteTo(&sb)
	h := sha256.Sum256([]byte(ssaPos.ReplaceAllString(sb.String(), "")))
	return hex.EncodeToString(h[:6])
}
