package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"runtime/pprof"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Result of one harness run.
type Result1 struct {
	Harness   string
	Opt       map[string]string
	Err       string
	Events    []Event
	Cover     map[string]int
	Witness   []*Witness
	Cfg       map[string]string
	Asserts   int
	OK        int
	Trivial   int
	Instrs    int
	Forks     int
	Merges    int
	Ends      int
	Fns       []string
	Queries   int
	Sat       int
	Unsat     int
	Unknown   int
	TrivQ     int
	SolverS   float64
	MaxQ      float64
	SolverErr string
	ByS       map[string]int
	Wall      float64
	Assumes   []string
	Cross     int
	CrossBad  int
}

func runOne(dir string, h *Harness, tier string) *Result1 {
	t0 := time.Now()
	r := &Result1{Harness: h.Name, Opt: h.Opt}
	defer func() { r.Wall = time.Since(t0).Seconds() }()
	l, err := loadPkg(dir, h.Pkg)
	if err != nil {
		r.Err = err.Error()
		return r
	}
	fn := l.pkg.Func(h.Name)
	if fn == nil {
		r.Err = "harness function not found"
		return r
	}
	useRopes = h.optInt("ropes", 1) == 1
	var cfg *curveCfg
	if h.Pkg != "btcec" {
		cfg = setupCurve(int64(h.optInt("p", 13)), h.optInt("dig", 1), h.optInt("wide", 12))
		if v := int64(h.optInt("hseed", 0)); v != 0 { // what hashing the seed of H yields
			cfg.Empty = new(big.Int).Mod(new(big.Int).Add(cfg.Empty, big.NewInt(v-cfg.H)), curve.N)
			emptyDigest = cfg.Empty
		}
		r.Cfg = cfg.vars()
	} else {
		setupReal()
		r.Cfg = map[string]string{"N": curve.N.String(), "P": curve.P.String()}
	}
	useWords = h.optInt("words", 0) == 1
	forceInt = h.optInt("int", 0) == 1
	ex := newExec(l)
	ex.digitsMin, ex.digitsMax = h.optInt("digmin", 1), h.optInt("digmax", 2)
	ex.realHash = h.Pkg == "btcec"
	for _, c := range strings.Split(h.opt("contracts", ""), ",") {
		if c != "" {
			if err := ex.useContract(l, c); err != nil {
				r.Err = err.Error()
				return r
			}
		}
	}
	if err := ex.runInit(l); err != nil {
		r.Err = err.Error()
		return r
	}
	to := h.optInt("timeout", 100)
	if tier == "thorough" {
		to = h.optInt("ttimeout", 900)
	}
	ex.deadline = time.Now().Add(time.Duration(to) * time.Second)
	ex.qTimeout = time.Duration(h.optInt("qt", 10)) * time.Second
	ex.aTimeout = time.Duration(h.optInt("at", 60)) * time.Second
	ex.raceOn = h.optInt("race", 0) == 1
	ex.noMerge = h.optInt("merge", 1) == 0
	ex.noFeas = h.optInt("feas", 1) == 0
	ex.loose = h.Opt["hash"] == "loose"
	ex.schedAll = h.opt("sched", "") == "all"
	ex.maxIter = h.optInt("iters", 1<<20)
	ex.wantCover = true
	ex.stopOnEvent = h.optInt("stop", 0) == 1
	if s := h.opt("solvers", ""); s != "" {
		ex.portfolio = strings.Split(s, ",")
	}
	ex.crossCheck = h.optInt("cross", 0) == 1
	dbgPos = func() string { return ex.pos(dbgState) }
	st := ex.newState()
	ex.pushFrame(st, fn, nil, nil, nil, false)
	ex.Run(st)
	killSolvers()
	r.Events = ex.events
	r.Cover = ex.cover
	var ls []string
	for k := range ex.coverModel {
		ls = append(ls, k)
	}
	sort.Strings(ls)
	for _, k := range ls {
		r.Witness = append(r.Witness, ex.coverModel[k])
	}
	r.Asserts, r.OK, r.Trivial = ex.asserts, ex.assertOK, ex.assertTrivial
	r.Instrs, r.Forks, r.Merges, r.Ends = ex.instrs, ex.forks, ex.merges, ex.ends
	for k := range ex.fnsSeen {
		if strings.Contains(k, "mit-dci") && !strings.Contains(k, ".V_") && !strings.Contains(k, ".vh") {
			r.Fns = append(r.Fns, strings.ReplaceAll(k, "github.com/mit-dci/", ""))
		}
	}
	sort.Strings(r.Fns)
	r.Queries, r.Sat, r.Unsat, r.Unknown, r.TrivQ = stats.queries, stats.sat, stats.unsat, stats.unknown, stats.trivial
	r.SolverS, r.MaxQ = stats.solverTime.Seconds(), stats.maxQuery.Seconds()
	r.ByS = stats.byS
	r.SolverErr = stats.errSample
	r.Cross, r.CrossBad = ex.crossChecked, ex.crossDisagree
	for k := range ex.assumes {
		r.Assumes = append(r.Assumes, k)
	}
	sort.Strings(r.Assumes)
	return r
}

type replayFile struct {
	Harness string
	Pkg     string
	File    string
	Kind    string
	Msg     string
	Pos     string
	Stack   string
	Vars    map[string]string
	Oracle  []OracleEntry
	Cfg     map[string]string
}

func modelVars(m Model) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		if i := strings.IndexByte(k, '~'); i < 0 {
			if _, ok := o[k]; !ok {
				o[k] = v.String()
			}
		} else {
			o[k[:i]] = v.String() // see IntVar
		}
	}
	return o
}

func verifDir() string {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		return v
	}
	return "/verif"
}
func repoDir() string {
	if v := os.Getenv("VERIF_REPO"); v != "" {
		return v
	}
	return "/repo"
}

// buildNative builds the replay binary for the harnesses of one package.
func buildNative(dir string, pkg string, hs []*Harness, race bool) (string, error) {
	path := rootPkg
	nm := "root"
	if pkg != "" {
		path += "/" + pkg
		nm = pkg
	}
	out := filepath.Join(dir, "replay_"+nm)
	if race {
		out += "_race"
	}
	if _, err := os.Stat(out); err == nil {
		return out, nil
	}
	md := filepath.Join(scratchGopath(dir), "src", "verifmain_"+nm)
	os.MkdirAll(md, 0o755)
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"os\"\n\t\"fmt\"\n\t\"verifstub/sym\"\n\tt %q\n)\n\nfunc main() {\n\tsym.Start()\n\tswitch os.Args[1] {\n", path)
	seen := map[string]bool{}
	for _, h := range hs {
		if h.Pkg == pkg && !seen[h.Name] {
			seen[h.Name] = true
			fmt.Fprintf(&sb, "\tcase %q:\n\t\tt.%s()\n", h.Name, h.Name)
		}
	}
	sb.WriteString("\tdefault:\n\t\tfmt.Println(\"unknown harness\")\n\t\tos.Exit(5)\n\t}\n\tsym.Done()\n\tfmt.Println(\"REPLAY-DONE\")\n}\n")
	if err := os.WriteFile(filepath.Join(md, "main.go"), []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	args := []string{"build", "-o", out}
	env := goEnv(dir)
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	c := exec.Command("go", append(args, "verifmain_"+nm)...)
	c.Env = env
	c.Dir = dir
	b, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, b)
	}
	return out, nil
}

// native runs a replay; returns the exit code and output.
func native(bin string, rf *replayFile, file string, timeout time.Duration) (int, string) {
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(file, b, 0o644); err != nil {
		return -1, err.Error()
	}
	return nativeFile(bin, rf.Harness, file, timeout)
}

func nativeFile(bin, harness, file string, timeout time.Duration) (int, string) {
	c := exec.Command("bash", "-c", fmt.Sprintf("ulimit -v 16000000; exec timeout %d %s %s", int(timeout.Seconds()), bin, harness))
	if strings.HasSuffix(bin, "_race") {
		c = exec.Command("timeout", strconv.Itoa(int(timeout.Seconds())), bin, harness)
	}
	c.Env = append(os.Environ(), "VERIF_REPLAY="+file, "GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=single")
	out, err := c.CombinedOutput()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return code, string(out)
}

// confirms reports whether the native outcome shows the event.
func confirms(kind string, code int, out string) bool {
	switch kind {
	case "assert":
		return code == 3 && strings.Contains(out, "REPLAY-VIOLATION") || code == 2 && strings.Contains(out, "panic:")
	case "panic":
		return code == 2 && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"))
	case "deadlock":
		return code == 2 && strings.Contains(out, "all goroutines are asleep") || code == 124
	case "race":
		return strings.Contains(out, "WARNING: DATA RACE")
	}
	return false
}

type finding struct{ prop, harness, kind, msg, pos, text string }

func knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{text: l}
		for _, p := range strings.Split(strings.TrimPrefix(l, "known: "), " | ") {
			kv := strings.SplitN(p, "=", 2)
			if len(kv) != 2 {
				continue
			}
			switch strings.TrimSpace(kv[0]) {
			case "property":
				f.prop = kv[1]
			case "harness":
				f.harness = kv[1]
			case "kind":
				f.kind = kv[1]
			case "msg":
				f.msg = kv[1]
			case "func":
				f.pos = kv[1]
			case "what":
				f.text = kv[1]
			}
		}
		out = append(out, f)
	}
	return out
}

func main() {
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(60 * time.Second); pprof.StopCPUProfile(); w.Close() }()
		defer pprof.StopCPUProfile()
	}
	if os.Getenv("GOSYM_POS") != "" {
		go func() {
			for range time.Tick(3 * time.Second) {
				fmt.Fprintln(os.Stderr, "at", dbgPos())
			}
		}()
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check PROP | one HARNESS | replay FILE | list")
		os.Exit(5)
	}
	switch os.Args[1] {
	case "one":
		// internal: gosym one DIR INDEX TIER OUT
		hs, err := harnesses(verifDir())
		if err != nil {
			fmt.Println(err)
			os.Exit(5)
		}
		i, _ := strconv.Atoi(os.Args[3])
		r := runOne(os.Args[2], hs[i], os.Args[4])
		b, _ := json.Marshal(r)
		os.WriteFile(os.Args[5], b, 0o644)
	case "list":
		hs, err := harnesses(verifDir())
		if err != nil {
			fmt.Println(err)
			os.Exit(5)
		}
		for _, h := range hs {
			fmt.Println(h.Name, h.Prop, h.Opt)
		}
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier, func(h *Harness) bool { return has(h.Prop, os.Args[2]) }))
	case "run": // debugging: run the harnesses whose names contain the argument
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		os.Exit(check("", tier, func(h *Harness) bool { return strings.Contains(h.Name, os.Args[2]) }))
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	}
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 5
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 5
	}
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return 5
	}
	defer os.RemoveAll(dir)
	hs, err := harnesses(verifDir())
	if err == nil {
		err = prepare(repoDir(), verifDir(), dir)
	}
	if err == nil {
		err = install(verifDir(), dir, rf.Pkg, nil)
	}
	var bin string
	if err == nil {
		bin, err = buildNative(dir, rf.Pkg, hs, rf.Kind == "race")
	}
	if err != nil {
		fmt.Println(err)
		return 5
	}
	code, out := nativeFile(bin, rf.Harness, file, 120*time.Second)
	fmt.Print(out)
	fmt.Println("exit", code)
	return code
}

func check(prop, tier string, sel func(h *Harness) bool) int {
	t0 := time.Now()
	verif := verifDir()
	hs, err := harnesses(verif)
	if err != nil {
		fmt.Println("harness error:", err)
		return 5
	}
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 5
	}
	if os.Getenv("GOSYM_KEEP") == "" {
		defer os.RemoveAll(dir)
	} else {
		fmt.Println("scratch", dir)
	}
	var problems []string
	if err := prepare(repoDir(), verif, dir); err != nil {
		fmt.Println("prepare:", err)
		problems = append(problems, "prepare: "+err.Error())
	}
	type job struct {
		h   *Harness
		idx int
		r   *Result1
	}
	var jobs []*job
	pkgs := map[string]bool{}
	for i, h := range hs {
		if !sel(h) {
			continue
		}
		if h.opt("tier", "quick") == "thorough" && tier != "thorough" {
			continue
		}
		if h.opt("tier", "") == "quickonly" && tier == "thorough" {
			continue
		}
		jobs = append(jobs, &job{h: h, idx: i})
		pkgs[h.Pkg] = true
	}
	// drop harness files that no longer compile against the tree
	okFiles := map[string]map[string]bool{}
	for p := range pkgs {
		files := map[string]bool{}
		for _, h := range hs {
			if h.Pkg == p {
				files[h.File] = true
			}
		}
		sub := p
		if p == "" {
			sub = "root"
		}
		ents, _ := os.ReadDir(filepath.Join(verif, "harness", sub))
		for _, e := range ents {
			files[e.Name()] = true
		}
		for try := 0; try < 6; try++ {
			install(verif, dir, p, files)
			msg := vetPkg(dir, p)
			if msg == "" {
				break
			}
			dropped := false
			for f := range files {
				if strings.Contains(msg, "zz_verif_"+f) {
					delete(files, f)
					os.Remove(filepath.Join(scratchGopath(dir), "src", rootPkg, p, "zz_verif_"+f))
					problems = append(problems, "harness file "+f+" does not compile against the current tree: "+firstLine(strings.TrimPrefix(msg, firstLine(msg)+"\n")))
					dropped = true
				}
			}
			if !dropped {
				problems = append(problems, "package does not compile: "+firstLine(msg))
				break
			}
		}
		okFiles[p] = files
	}
	var hsOK []*Harness
	for _, h := range hs {
		if okFiles[h.Pkg] != nil && okFiles[h.Pkg][h.File] {
			hsOK = append(hsOK, h)
		}
	}
	// native build in the background
	bins := map[string]string{}
	var bmu sync.Mutex
	var bwg sync.WaitGroup
	for p := range pkgs {
		bwg.Add(1)
		go func(p string) {
			defer bwg.Done()
			b, err := buildNative(dir, p, hsOK, false)
			bmu.Lock()
			defer bmu.Unlock()
			if err != nil {
				problems = append(problems, err.Error())
			}
			bins[p] = b
		}(p)
	}
	// symbolic runs
	par := 7
	if v := os.Getenv("GOSYM_PAR"); v != "" {
		par, _ = strconv.Atoi(v)
	}
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	self, _ := os.Executable()
	order := append([]*job(nil), jobs...)
	sort.SliceStable(order, func(i, j int) bool { return order[i].h.optInt("cost", 1) > order[j].h.optInt("cost", 1) })
	for n, j := range order {
		if !okFiles[j.h.Pkg][j.h.File] {
			j.r = &Result1{Harness: j.h.Name, Err: "harness not compiled"}
			continue
		}
		wg.Add(1)
		sem <- true
		go func(n int, j *job) {
			defer wg.Done()
			defer func() { <-sem }()
			out := filepath.Join(dir, fmt.Sprintf("res%d.json", n))
			c := exec.Command(self, "one", dir, strconv.Itoa(j.idx), tier, out)
			c.Env = append(os.Environ(), "GOMEMLIMIT=6GiB")
			if os.Getenv("GOSYM_DEBUG") != "" || os.Getenv("GOSYM_FORKS") != "" || os.Getenv("GOSYM_SLOW") != "" {
				c.Stderr = os.Stderr
			}
			err := c.Run()
			b, e2 := os.ReadFile(out)
			j.r = &Result1{Harness: j.h.Name}
			if e2 == nil {
				e2 = json.Unmarshal(b, j.r)
			}
			if e2 != nil {
				j.r.Err = fmt.Sprint("engine failure: ", err, " ", e2)
			}
		}(n, j)
	}
	wg.Wait()
	bwg.Wait()

	// replays
	rdir := filepath.Join(verif, "evidence", "replays")
	known := knownFindings()
	viol := 0
	validated, tried := 0, 0
	var samples []interface{}
	var incon []string
	incon = append(incon, problems...)
	for _, j := range jobs {
		r := j.r
		if r.Err != "" {
			incon = append(incon, r.Harness+": "+r.Err)
			continue
		}
		bin := bins[j.h.Pkg]
		for _, w := range r.Witness {
			if bin == "" {
				continue
			}
			tried++
			rf := &replayFile{Harness: r.Harness, Pkg: j.h.Pkg, File: j.h.File, Kind: "cover", Msg: w.Label, Vars: modelVars(w.Model), Oracle: w.Oracle, Cfg: r.Cfg}
			code, out := native(bin, rf, filepath.Join(dir, "w.json"), 60*time.Second)
			if j.h.optInt("ground", 0) == 1 && (confirms("assert", code, out) || confirms("panic", code, out)) {
				// nothing symbolic in this harness: the real run is the verdict
				os.MkdirAll(rdir, 0o755)
				rf.Kind = "assert"
				file := filepath.Join(rdir, fmt.Sprintf("%s-%s-ground.json", prop, r.Harness))
				native(bin, rf, file, 60*time.Second)
				viol++
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
				fmt.Printf("  %s: %s\n", r.Harness, firstLine(out))
				continue
			}
			if strings.Contains(out, "REPLAY-COVER: "+w.Label) && (code == 0 || code == 3) {
				validated++
				if len(samples) < 6 {
					samples = append(samples, map[string]interface{}{"harness": r.Harness, "reached": w.Label, "inputs": rf.Vars})
				}
			} else {
				incon = append(incon, fmt.Sprintf("%s: witness for %q not reproduced natively (exit %d)", r.Harness, w.Label, code))
				if os.Getenv("GOSYM_DEBUG") != "" {
					b, _ := json.Marshal(rf)
					os.WriteFile("/tmp/witness.json", b, 0o644)
					fmt.Fprintln(os.Stderr, out)
				}
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Println("WITNESS", w.Label, code, out, rf.Vars, rf.Oracle)
				}
			}
		}
		for k, e := range r.Events {
			switch e.Kind {
			case "unknown", "unsupported", "unwind":
				incon = append(incon, fmt.Sprintf("%s: %s: %s (%s)", r.Harness, e.Kind, e.Msg, e.Pos))
				continue
			}
			rf := &replayFile{Harness: r.Harness, Pkg: j.h.Pkg, File: j.h.File, Kind: e.Kind, Msg: e.Msg, Pos: e.Pos, Stack: e.Stack, Vars: modelVars(e.Model), Oracle: e.Oracle, Cfg: r.Cfg}
			if strings.Contains(e.Msg, "excessive allocation") {
				rf.Cfg = map[string]string{"Alloc": "1"}
				for k, v := range r.Cfg {
					rf.Cfg[k] = v
				}
			}
			rbin := bin
			if e.Kind == "race" {
				rbin, err = buildNative(dir, j.h.Pkg, hsOK, true)
				if err != nil {
					incon = append(incon, err.Error())
				}
			}
			if rbin == "" {
				incon = append(incon, fmt.Sprintf("%s: %s: %s (%s) not replayed", r.Harness, e.Kind, e.Msg, e.Pos))
				continue
			}
			os.MkdirAll(rdir, 0o755)
			nm := prop
			if nm == "" {
				nm = "dbg"
			}
			file := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", nm, r.Harness, k))
			code, out := native(rbin, rf, file, 60*time.Second)
			if j.h.optInt("race", 0) == 1 {
				// the event may need a particular schedule: perturb the native one
				for try := 1; try <= 60 && !confirms(e.Kind, code, out); try++ {
					os.Setenv("VERIF_JITTER", strconv.Itoa(try*7919))
					code, out = native(rbin, rf, file, 60*time.Second)
				}
				os.Unsetenv("VERIF_JITTER")
			}
			if !confirms(e.Kind, code, out) {
				incon = append(incon, fmt.Sprintf("%s: candidate %s %q (%s) not confirmed by native replay (exit %d): %s", r.Harness, e.Kind, e.Msg, e.Pos, code, firstLine(out)))
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Println("UNCONFIRMED", e.Kind, e.Msg, e.Pos, "\n", e.Stack, code, out)
				} else {
					os.Remove(file)
				}
				continue
			}
			isKnown := false
			for _, f := range known {
				if f.prop == prop && f.harness == r.Harness && f.kind == e.Kind && strings.Contains(e.Msg, f.msg) && strings.Contains(e.Stack, f.pos) {
					isKnown = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
					break
				}
			}
			if isKnown {
				os.Remove(file)
				continue
			}
			viol++
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			fmt.Printf("  %s: %s: %s at %s\n", r.Harness, e.Kind, e.Msg, e.Pos)
		}
	}
	// evidence
	states, trans, asserts, ok, triv := 0, 0, 0, 0, 0
	q, unsat, sat, unk, trivq := 0, 0, 0, 0, 0
	solver, maxq := 0.0, 0.0
	fns := map[string]bool{}
	ass := map[string]bool{}
	byS := map[string]int{}
	var per []interface{}
	cross, crossBad := 0, 0
	for _, j := range jobs {
		r := j.r
		states += r.Forks + r.Ends + 1
		trans += r.Instrs
		asserts += r.Asserts
		ok += r.OK
		triv += r.Trivial
		q += r.Queries
		unsat += r.Unsat
		sat += r.Sat
		unk += r.Unknown
		trivq += r.TrivQ
		solver += r.SolverS
		cross += r.Cross
		crossBad += r.CrossBad
		if r.MaxQ > maxq {
			maxq = r.MaxQ
		}
		for _, f := range r.Fns {
			fns[f] = true
		}
		for _, a := range r.Assumes {
			ass[a] = true
		}
		for k, v := range r.ByS {
			byS[k] += v
		}
		if a := j.h.opt("assume", ""); a != "" {
			ass[strings.ReplaceAll(a, "_", " ")] = true
		}
		per = append(per, map[string]interface{}{"harness": r.Harness, "what": j.h.Comment, "bounds": r.Opt, "curve": r.Cfg, "paths": r.Ends, "instructions": r.Instrs,
			"assertions": r.Asserts, "assertions_hold": r.OK, "decided_by_normal_form": r.Trivial, "queries": r.Queries, "unsat": r.Unsat, "solver_s": round(r.SolverS), "wall_s": round(r.Wall), "covers": r.Cover, "error": r.Err, "solver_error": r.SolverErr})
		fmt.Printf("%-40s paths=%d forks=%d merges=%d instrs=%d asserts=%d/%d (trivial %d) queries=%d unk=%d solver=%.1fs max=%.1fs wall=%.1fs covers=%v %s %s\n", r.Harness+strings.Repeat("'", j.h.optInt("variant", 1)-1), r.Ends, r.Forks, r.Merges, r.Instrs, r.OK, r.Asserts, r.Trivial, r.Queries, r.Unknown, r.SolverS, r.MaxQ, r.Wall, r.Cover, r.Err, firstLine(r.SolverErr))
	}
	for _, s := range incon {
		fmt.Println("INCONCLUSIVE:", s)
	}
	if prop == "" {
		if viol > 0 {
			return 1
		}
		return 0
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"note": "no witness replayed"})
	}
	seed := 0
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var al []string
	for a := range ass {
		al = append(al, a)
	}
	al = append(al, propAssumptions(prop)...)
	sort.Strings(al)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "witnesses_tried": tried,
			"samples": samples, "functions_encoded": fl, "assertions": asserts, "assertions_hold": ok, "assertions_closed_by_normal_form": triv,
			"queries": q, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unk, "queries_closed_by_simplifier": trivq,
			"solver_time_s": round(solver), "max_query_s": round(maxq), "solvers": byS, "harnesses": per, "inconclusive": incon, "cross_checked": cross, "cross_disagreements": crossBad,
			"explanation": "states = symbolic states (forks + completed paths); transitions = SSA instructions executed symbolically; traces_validated = solver models replayed natively against the real code",
		},
		"assumptions": al, "wall_s": round(time.Since(t0).Seconds()), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
	}
	if viol > 0 {
		return 1
	}
	fmt.Printf("property %s: held on everything explored (%d assertions, %d queries, %d inconclusive notes)\n", prop, asserts, q, len(incon))
	return 0
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// vetPkg type-checks the scratch package and returns the compiler output on failure.
func vetPkg(dir, pkg string) string {
	path := rootPkg
	if pkg != "" {
		path += "/" + pkg
	}
	c := exec.Command("go", "build", "-gcflags=-e", "-o", "/dev/null", path)
	c.Env = goEnv(dir)
	c.Dir = dir
	b, err := c.CombinedOutput()
	if err != nil {
		if len(b) == 0 {
			return err.Error()
		}
		return string(b)
	}
	return ""
}

func propAssumptions(prop string) []string {
	var out []string
	b, err := os.ReadFile(filepath.Join(verifDir(), "assumptions.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		kv := strings.SplitN(l, ":", 2)
		if len(kv) != 2 {
			continue
		}
		if kv[0] == "*" || has(strings.Split(kv[0], ","), prop) {
			out = append(out, strings.TrimSpace(kv[1]))
		}
	}
	return out
}

func setupReal() {
	curve.on = true
	curve.N, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	curve.P, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	hDlog = IntI(3)
	emptyDigest = big0
}
