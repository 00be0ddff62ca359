package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var verifDir = "/verif"

const modPath = "github.com/mercari/grpc-federation"

// cfile is one contract file.
type cfile struct {
	path      string // in /verif/contracts
	rel       string // package directory below /repo
	pkgName   string
	contracts []*cfun
	models    map[string]string // callee -> model function
	dropped   string
}

type cfun struct {
	name     string
	file     *cfile
	props    []string
	title    string
	bounded  bool
	timeout  int
	natN     int
	natMS    int
	abstract []string
	precise  bool
	rec      int
	models   map[string]string
	induct   map[string]string
	proveTO  int
}

func parseContracts() ([]*cfile, error) {
	var out []*cfile
	root := filepath.Join(verifDir, "contracts")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		if rel == "zzvrt" {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		c := &cfile{path: p, rel: rel, pkgName: f.Name.Name, models: map[string]string{}}
		var fileProps []string
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			var ds []string
			if fd.Doc != nil {
				for _, l := range fd.Doc.List {
					if strings.HasPrefix(l.Text, "//verif:") {
						ds = append(ds, strings.TrimPrefix(l.Text, "//verif:"))
					}
				}
			}
			if strings.HasPrefix(fd.Name.Name, "contract_") {
				cf := &cfun{name: fd.Name.Name, file: c, props: append([]string(nil), fileProps...), timeout: 40, models: map[string]string{}, induct: map[string]string{}}
				for _, x := range ds {
					k, v, _ := strings.Cut(x, " ")
					v = strings.TrimSpace(v)
					switch k {
					case "property":
						cf.props = strings.Fields(v)
					case "title":
						cf.title = v
					case "bounded":
						cf.bounded = true
					case "timeout":
						cf.timeout, _ = strconv.Atoi(v)
					case "prove":
						cf.proveTO, _ = strconv.Atoi(v)
					case "native":
						cf.natN, _ = strconv.Atoi(v)
					case "nativems":
						cf.natMS, _ = strconv.Atoi(v)
					case "abstract":
						cf.abstract = append(cf.abstract, v)
					case "precise":
						cf.precise = true
					case "rec":
						cf.rec, _ = strconv.Atoi(v)
					case "inductive":
						a, b, _ := strings.Cut(v, " ")
						cf.induct[a] = strings.TrimSpace(b)
					case "usemodel":
						a, b, _ := strings.Cut(v, " ")
						cf.models[a] = strings.TrimSpace(b)
					default:
						return fmt.Errorf("%s: unknown directive %s", p, k)
					}
				}
				c.contracts = append(c.contracts, cf)
			} else {
				for _, x := range ds {
					if k, v, _ := strings.Cut(x, " "); k == "model" {
						c.models[strings.TrimSpace(v)] = fd.Name.Name
					}
				}
			}
		}
		out = append(out, c)
		return nil
	})
	return out, err
}

func (c *cfun) has(p string) bool {
	for _, x := range c.props {
		if x == p {
			return true
		}
	}
	return false
}

// packages whose bodies are available while verifying a package
func depRoots(rel string) []string {
	m := map[string][]string{
		"grpc/federation":     {"./grpc/federation", "./grpc/federation/cel", "./grpc/federation/cel/plugin", "./grpc/federation/log", "github.com/google/cel-go/common/types", "google.golang.org/grpc/status", "google.golang.org/grpc/internal/status", "google.golang.org/genproto/googleapis/api/expr/v1alpha1", "github.com/cenkalti/backoff/v4"},
		"grpc/federation/cel": {"./grpc/federation/cel", "./grpc/federation/cel/plugin", "./grpc/federation/log", "github.com/google/cel-go/common/types", "github.com/google/cel-go/cel"},
		"resolver":            {"./resolver", "./types", "./util", "./source", "./grpc/federation", "./grpc/federation/cel"},
		"generator":           {"./generator", "./resolver", "./types", "./util"},
		"types":               {"./types"},
		"util":                {"./util"},
		"source":              {"./source"},
	}
	if r, ok := m[rel]; ok {
		return r
	}
	return []string{"./" + rel}
}

type checkRun struct {
	prop    string
	tier    string
	seed    int64
	files   []*cfile
	tmp     string
	dropped []string
	results map[string]*Result1
	native  map[string]*natResult
	funs    []*cfun
	natErr  string
	loadErr string
	t0      time.Time
	loadS   float64
}

type natResult struct {
	Contract string
	Runs     int
	Skipped  int
	Reached  int
	Distinct int
	Samples  []map[string]string
	Bad      *natBad
	Replays  int
	Crash    string
}

type natBad struct {
	Inputs map[string]string
	Seed   int64
	Fails  []string
	Panic  string
	From   string
}

func overlayName(c *cfile) string {
	return filepath.Join(repoDir, c.rel, "zz_"+strings.TrimSuffix(filepath.Base(c.path), ".go")+"_contract.go")
}

func zzvrtFile() string { return filepath.Join(repoDir, "zzvrt", "zzvrt.go") }

func (r *checkRun) overlay() map[string]string {
	m := map[string]string{zzvrtFile(): filepath.Join(verifDir, "contracts/zzvrt/zzvrt.go")}
	for _, c := range r.files {
		if c.dropped == "" {
			m[overlayName(c)] = c.path
		}
	}
	return m
}

var reErrPos = regexp.MustCompile(`^(.*?):\d+(:\d+)?`)

func (r *checkRun) load() (*ssa.Program, map[string]*ssa.Package, map[string]bool, error) {
	for try := 0; try < 6; try++ {
		ov := map[string][]byte{}
		for k, v := range r.overlay() {
			b, err := os.ReadFile(v)
			if err != nil {
				return nil, nil, nil, err
			}
			ov[k] = b
		}
		pats := map[string]bool{"./zzvrt": true}
		for _, c := range r.files {
			if c.dropped == "" {
				for _, d := range depRoots(c.rel) {
					pats[d] = true
				}
			}
		}
		var ps []string
		for p := range pats {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir, Overlay: ov, Env: append(os.Environ(), "GOWORK=off")}
		pkgs, err := packages.Load(cfg, ps...)
		if err != nil {
			return nil, nil, nil, err
		}
		bad := false
		var other []string
		for _, p := range pkgs {
			for _, er := range p.Errors {
				hit := false
				for _, c := range r.files {
					if c.dropped == "" && strings.Contains(er.Pos, overlayName(c)) {
						c.dropped = er.Msg
						r.dropped = append(r.dropped, filepath.Base(c.path)+": "+er.Msg)
						hit, bad = true, true
					}
				}
				if !hit {
					other = append(other, er.Pos+": "+er.Msg)
				}
			}
		}
		if bad {
			continue
		}
		if len(other) > 0 {
			return nil, nil, nil, fmt.Errorf("repository does not type-check: %s", strings.Join(other, "; "))
		}
		prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		roots := map[string]bool{}
		byPath := map[string]*ssa.Package{}
		for _, p := range sp {
			if p != nil {
				roots[p.Pkg.Path()] = true
				byPath[p.Pkg.Path()] = p
			}
		}
		return prog, byPath, roots, nil
	}
	return nil, nil, nil, fmt.Errorf("contracts do not load")
}

func relPath(rel string) string { return modPath + "/" + rel }

func (r *checkRun) verify(only string) {
	prog, pk, roots, err := r.load()
	r.loadS = time.Since(r.t0).Seconds()
	if err != nil {
		r.loadErr = err.Error()
		fmt.Println("front end:", r.loadErr)
		return
	}
	initZZ()
	for ci, cf := range r.funs {
		if shardN > 0 && ci%shardN != shardI {
			continue
		}
		if cf.file.dropped != "" || cf.bounded || only != "" && cf.name != only {
			continue
		}
		p := pk[relPath(cf.file.rel)]
		if p == nil {
			continue
		}
		fn := p.Func(cf.name)
		if fn == nil {
			continue
		}
		again := false
	prove:
		e := newEng(prog, roots)
		e.preciseAppend = cf.precise
		if cf.rec > 0 {
			e.recLimit = cf.rec
		}
		if cf.proveTO > 0 {
			e.proveTO = cf.proveTO
		}
		for _, a := range cf.abstract {
			e.abstract[a] = true
		}
		for callee, m := range cf.file.models {
			e.models[callee] = p.Func(m)
		}
		for callee, m := range cf.models {
			e.models[callee] = p.Func(m)
		}
		for callee, m := range cf.induct {
			e.induct[callee] = p.Func(m)
		}
		// initialisers: the package and what it imports among the roots
		var ips []*ssa.Package
		seen := map[string]bool{}
		var visit func(path string)
		visit = func(path string) {
			if seen[path] || pk[path] == nil {
				return
			}
			seen[path] = true
			for _, im := range pk[path].Pkg.Imports() {
				visit(im.Path())
			}
			ips = append(ips, pk[path])
		}
		visit(p.Pkg.Path())
		lim := time.Duration(cf.timeout) * time.Second
		if r.tier == "thorough" {
			lim *= 3
			e.proveTO *= 3
		}
		if again {
			lim *= 3
			e.proveTO *= 3
		}
		res := e.runContract(fn, ips, lim)
		if res.Status == "undecided" && !again && baseline().changed(cf.name, res) {
			// the code is not the code the proof was made for: look closer before reporting it.
			again = true
			goto prove
		}
		r.results[cf.name] = res
		if debugOn || only != "" {
			printResult(res)
		}
	}
}

func printResult(res *Result1) {
	fmt.Fprintf(os.Stderr, "%s: %s %s (paths %d, steps %d, queries %d, solver %.1fs, wall %.1fs)\n", res.Contract, res.Status, res.Reason, res.Paths, res.Steps, res.Queries, res.SolverS, res.WallS)
	for _, o := range res.Obls {
		fmt.Fprintf(os.Stderr, "   %-14s %-60s ok=%d bad=%d unk=%d %v\n", o.Kind, o.Name, o.Discharged, o.Refuted, o.Undecided, o.Backends)
		if o.Refuted+o.Undecided > 0 && verbose {
			fmt.Fprintf(os.Stderr, "      %s\n      models %v\n", o.Detail, o.Models)
			for _, p := range o.Path {
				fmt.Fprintf(os.Stderr, "        | %s\n", p)
			}
		}
	}
	if verbose {
		for k, v := range res.Loops {
			fmt.Fprintf(os.Stderr, "   loop %s: %s\n", k, v)
		}
		for _, n := range res.Notes {
			fmt.Fprintf(os.Stderr, "   note %s\n", n)
		}
		for _, n := range res.SolverErr {
			fmt.Fprintf(os.Stderr, "   SOLVER ERROR %s\n", n)
		}
	}
}

var verbose bool

// ---- native side
func (r *checkRun) buildNative() (string, error) {
	dir := r.tmp
	var imports []string
	perPkg := map[string][]*cfun{}
	for _, f := range r.funs {
		if f.file.dropped == "" {
			perPkg[f.file.rel] = append(perPkg[f.file.rel], f)
		}
	}
	rep := map[string]string{}
	for k, v := range r.overlay() {
		rep[k] = v
	}
	for rel, fs := range perPkg {
		imports = append(imports, relPath(rel))
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport \"%s/zzvrt\"\n\nfunc init() {\n", fs[0].file.pkgName, modPath)
		for _, f := range fs {
			fmt.Fprintf(&sb, "\tzzvrt.Register(%q, %s)\n", f.name, f.name)
		}
		sb.WriteString("}\n")
		p := filepath.Join(dir, "reg_"+strings.ReplaceAll(rel, "/", "_")+".go")
		if err := os.WriteFile(p, []byte(sb.String()), 0o644); err != nil {
			return "", err
		}
		rep[filepath.Join(repoDir, rel, "zz_registry.go")] = p
	}
	sort.Strings(imports)
	mainSrc, err := os.ReadFile(filepath.Join(verifDir, "govc/native/main.go.txt"))
	if err != nil {
		return "", err
	}
	var ib strings.Builder
	for _, im := range imports {
		fmt.Fprintf(&ib, "\t_ %q\n", im)
	}
	src := strings.Replace(string(mainSrc), "//IMPORTS\n", ib.String(), 1)
	mp := filepath.Join(dir, "native_main.go")
	if err := os.WriteFile(mp, []byte(src), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(repoDir, "zznative", "main.go")] = mp
	oj, _ := json.Marshal(map[string]any{"Replace": rep})
	op := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(op, oj, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "native")
	cmd := exec.Command("go", "build", "-overlay", op, "-o", bin, "./zznative")
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, truncate(string(out), 3000))
	}
	return bin, nil
}

// runNative executes one contract on seeds or on replayed inputs.
func (r *checkRun) runNative(bin, contract string, n, ms int, replays []map[string]string) *natResult {
	req := map[string]any{"contract": contract, "n": n, "ms": ms, "seed": r.seed, "replays": replays}
	b, _ := json.Marshal(req)
	rp := filepath.Join(r.tmp, "req_"+contract+".json")
	op := filepath.Join(r.tmp, "out_"+contract+".json")
	os.WriteFile(rp, b, 0o644)
	os.Remove(op)
	cmd := exec.Command(bin, rp, op)
	cmd.Dir = r.tmp
	cmd.Env = append(os.Environ(), "TZ=UTC")
	var eb strings.Builder
	cmd.Stderr = &eb
	err := cmd.Start()
	if err != nil {
		return &natResult{Contract: contract, Crash: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(time.Duration(ms)*time.Millisecond + 90*time.Second):
		cmd.Process.Kill()
		err = fmt.Errorf("timeout")
		<-done
	}
	res := &natResult{Contract: contract}
	if b, rerr := os.ReadFile(op); rerr == nil {
		json.Unmarshal(b, res)
	}
	if err != nil && res.Bad == nil {
		msg := eb.String()
		if strings.Contains(msg, "panic:") || strings.Contains(msg, "fatal error:") && !strings.Contains(msg, "out of memory") {
			res.Crash = truncate(err.Error()+": "+msg, 2000)
		} else {
			fmt.Printf("native run of %s ended early: %v\n", contract, err)
		}
	}
	return res
}

func main() {
	prop := flag.String("property", "", "property to check")
	repo := flag.String("repo", "/repo", "")
	vd := flag.String("verif", "/verif", "")
	only := flag.String("only", "", "single contract (debugging)")
	noNative := flag.Bool("nonative", false, "")
	noSym := flag.Bool("nosym", false, "")
	flag.BoolVar(&verbose, "v", false, "")
	flag.BoolVar(&writeBase, "writebaseline", false, "record what is proved and of which code")
	shard := flag.String("shard", "", "internal: i/n")
	shardOut := flag.String("shardout", "", "internal")
	flag.Parse()
	repoDir, verifDir = *repo, *vd
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	r := &checkRun{prop: *prop, tier: tier, seed: seed, results: map[string]*Result1{}, native: map[string]*natResult{}, t0: time.Now()}
	if *shard != "" {
		fmt.Sscanf(*shard, "%d/%d", &shardI, &shardN)
		os.Exit(r.shardMain(*shardOut))
	}
	os.Exit(r.main(*only, *noNative, *noSym))
}

var shardI, shardN int

// shardRes is what a worker process reports.
type shardRes struct {
	Results map[string]*Result1
	Dropped map[string]string // contract file -> why
	LoadErr string
	LoadS   float64
}

func (r *checkRun) shardMain(out string) int {
	if rc := r.selectContracts(); rc != 0 {
		return rc
	}
	defer os.RemoveAll(r.tmp)
	r.verify("")
	sr := shardRes{Results: r.results, Dropped: map[string]string{}, LoadErr: r.loadErr, LoadS: r.loadS}
	for _, c := range r.files {
		if c.dropped != "" {
			sr.Dropped[c.path] = c.dropped
		}
	}
	b, err := json.Marshal(sr)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	os.WriteFile(out, b, 0o644)
	return 0
}

// verifyParallel runs the verifier in worker processes.
func (r *checkRun) verifyParallel() {
	n := 0
	for _, f := range r.funs {
		if !f.bounded {
			n++
		}
	}
	if n == 0 {
		return
	}
	n = len(r.funs)
	if n > 7 {
		n = 7
	}
	self, err := os.Executable()
	if err != nil {
		r.verify("")
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(r.tmp, fmt.Sprintf("shard_%d.json", i))
			cmd := exec.Command(self, "-property", r.prop, "-repo", repoDir, "-verif", verifDir, "-shard", fmt.Sprintf("%d/%d", i, n), "-shardout", out)
			ob, err := cmd.CombinedOutput()
			b, rerr := os.ReadFile(out)
			mu.Lock()
			defer mu.Unlock()
			if rerr != nil {
				r.loadErr = fmt.Sprintf("worker %d: %v %s", i, err, truncate(string(ob), 500))
				fmt.Println(r.loadErr)
				return
			}
			var sr shardRes
			if err := json.Unmarshal(b, &sr); err != nil {
				r.loadErr = err.Error()
				return
			}
			if sr.LoadErr != "" {
				r.loadErr = sr.LoadErr
			}
			if sr.LoadS > r.loadS {
				r.loadS = sr.LoadS
			}
			for k, v := range sr.Results {
				r.results[k] = v
			}
		}()
	}
	wg.Wait()
	if r.loadErr != "" {
		fmt.Println("front end:", r.loadErr)
	}
}

func (r *checkRun) selectContracts() int {
	files, err := parseContracts()
	if err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	// keep the files of this property and the shared files of their packages
	use := map[string]bool{}
	for _, f := range files {
		for _, c := range f.contracts {
			if c.has(r.prop) {
				use[f.rel] = true
			}
		}
	}
	for _, f := range files {
		hit := len(f.contracts) == 0 && use[f.rel]
		for _, c := range f.contracts {
			if c.has(r.prop) {
				hit = true
				r.funs = append(r.funs, c)
			}
		}
		if hit {
			r.files = append(r.files, f)
		}
	}
	if len(r.funs) == 0 {
		fmt.Println("no contracts for", r.prop)
		return 2
	}
	r.tmp, err = os.MkdirTemp("", "govc-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	return 0
}

func (r *checkRun) main(only string, noNative, noSym bool) int {
	if rc := r.selectContracts(); rc != 0 {
		return rc
	}
	defer os.RemoveAll(r.tmp)
	symDone := make(chan bool)
	sym := func() {
		if !noSym {
			if only != "" {
				r.verify(only)
			} else {
				r.verifyParallel()
			}
		}
		close(symDone)
	}
	if only != "" || noNative {
		sym()
	} else {
		go sym()
	}
	bin := ""
	if !noNative {
		var err error
		bin, err = r.buildNative()
		if err != nil {
			// find files that do not type-check and leave them out
			first := err.Error()
			if _, _, _, lerr := r.load(); lerr != nil {
				r.natErr = lerr.Error()
			} else if len(r.dropped) > 0 {
				if bin, err = r.buildNative(); err != nil {
					r.natErr = err.Error()
				}
			} else {
				r.natErr = first
			}
			if r.natErr != "" {
				fmt.Println("native:", r.natErr)
			}
		}
	}
	if bin != "" {
		r.nativeAll(bin, only, 4, false)
	}
	<-symDone
	if bin != "" {
		r.nativeAll(bin, only, 7, true)
	}
	if bin != "" && only == "" {
		r.nativeDeep(bin)
	}
	return r.report(only)
}

// nativeDeep looks longer for an input that breaks a contract that is no longer proved.
func (r *checkRun) nativeDeep(bin string) {
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	var mu sync.Mutex
	for _, f := range r.funs {
		res, old := r.results[f.name], r.native[f.name]
		if res == nil || res.Status == "proved" || old == nil || old.Bad != nil || old.Crash != "" || !baseline().changed(f.name, res) {
			continue
		}
		f := f
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			n, ms := 100000, 20000
			if r.tier == "thorough" {
				n, ms = 2000000, 120000
			}
			x := r.runNative(bin, f.name, n, ms, nil)
			mu.Lock()
			defer mu.Unlock()
			old.Runs += x.Runs
			old.Reached += x.Reached
			old.Bad, old.Crash = x.Bad, x.Crash
		}()
	}
	wg.Wait()
}

// nativeAll executes the contracts on the compiled code: a search, or the
// replay of the verifier's counterexamples.
func (r *checkRun) nativeAll(bin, only string, par int, replay bool) {
	var wg sync.WaitGroup
	sem := make(chan bool, par)
	var mu sync.Mutex
	for _, f := range r.funs {
		if f.file.dropped != "" || only != "" && f.name != only {
			continue
		}
		f := f
		var reps []map[string]string
		n, ms := 3000, 3000
		if f.natN > 0 {
			n = f.natN
		}
		if f.natMS > 0 {
			ms = f.natMS
		}
		if r.tier == "thorough" {
			n *= 20
			ms *= 10
		}
		if replay {
			old := r.native[f.name]
			if res := r.results[f.name]; res != nil {
				for _, o := range res.Obls {
					reps = append(reps, o.Models...)
				}
			}
			if len(reps) == 0 || old != nil && (old.Bad != nil || old.Crash != "") {
				continue
			}
			n = 0
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			x := r.runNative(bin, f.name, n, ms, reps)
			mu.Lock()
			defer mu.Unlock()
			if old := r.native[f.name]; old != nil {
				old.Runs += x.Runs
				old.Replays += x.Replays
				old.Reached += x.Reached
				old.Bad, old.Crash = x.Bad, x.Crash
				return
			}
			r.native[f.name] = x
		}()
	}
	wg.Wait()
}
