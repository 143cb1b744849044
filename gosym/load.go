package main

// Building the scratch workspace from the current source tree, loading it, and
// running package initialisers.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const rootPkg = "github.com/mit-dci/zksigma"

// stubbed imports, per package directory
var rewrites = map[string]map[string]string{
	"": {
		"crypto/sha256":    "verifstub/sha256",
		"crypto/rand":      "verifstub/rand",
		rootPkg + "/btcec": "verifstub/btcec",
	},
	"wire": {"crypto/rand": "verifstub/rand"},
	"btcec": {
		"crypto/rand":   "verifstub/rand",
		"crypto/hmac":   "verifstub/hmac",
		"crypto/aes":    "verifstub/aes",
		"crypto/cipher": "verifstub/cipher",
		"crypto/sha512": "verifstub/sha512",
	},
}

func scratchGopath(dir string) string { return filepath.Join(dir, "gopath") }

// prepare copies the sources of repo into a scratch GOPATH under dir, with the
// stub packages and the given harness directories.
func prepare(repo, verif, dir string) error {
	src := filepath.Join(scratchGopath(dir), "src")
	for _, sub := range []string{"", "wire", "btcec"} {
		from := filepath.Join(repo, sub)
		to := filepath.Join(src, rootPkg, sub)
		if err := os.MkdirAll(to, 0o755); err != nil {
			return err
		}
		ents, err := os.ReadDir(from)
		if err != nil {
			return err
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(from, n))
			if err != nil {
				return err
			}
			b = rewriteImports(b, rewrites[sub])
			if err := os.WriteFile(filepath.Join(to, n), b, 0o644); err != nil {
				return err
			}
		}
	}
	if err := copyTree(filepath.Join(verif, "stubs"), filepath.Join(src, "verifstub")); err != nil {
		return err
	}
	return nil
}

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
}

func rewriteImports(b []byte, m map[string]string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", b, parser.ImportsOnly)
	if err != nil {
		return b
	}
	type ed struct {
		lo, hi int
		s      string
	}
	var eds []ed
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if r, ok := m[p]; ok {
			eds = append(eds, ed{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, strconv.Quote(r)})
		}
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].lo > eds[j].lo })
	out := string(b)
	for _, e := range eds {
		out = out[:e.lo] + e.s + out[e.hi:]
	}
	return []byte(out)
}

// Harness describes one symbolic check.
type Harness struct {
	Name    string
	Pkg     string // "", "wire", "btcec"
	File    string
	Prop    []string
	Opt     map[string]string
	Comment string
}

func (h *Harness) opt(k, def string) string {
	if v, ok := h.Opt[k]; ok {
		return v
	}
	return def
}
func (h *Harness) optInt(k string, def int) int {
	if v, ok := h.Opt[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return def
}

// harnesses scans the harness directories for "//verif:" directives.
func harnesses(verif string) ([]*Harness, error) {
	var out []*Harness
	for _, sub := range []string{"root", "wire", "btcec"} {
		dir := filepath.Join(verif, "harness", sub)
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				n := 0
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//verif:") {
						continue
					}
					n++
					h := &Harness{Name: fd.Name.Name, Pkg: sub, File: e.Name(), Opt: map[string]string{}}
					if sub == "root" {
						h.Pkg = ""
					}
					if n > 1 {
						h.Opt["variant"] = strconv.Itoa(n)
					}
					for _, w := range strings.Fields(strings.TrimPrefix(c.Text, "//verif:")) {
						kv := strings.SplitN(w, "=", 2)
						if len(kv) != 2 {
							return nil, fmt.Errorf("%s: bad directive %q", fd.Name.Name, w)
						}
						if kv[0] == "prop" {
							h.Prop = strings.Split(kv[1], ",")
						} else {
							h.Opt[kv[0]] = kv[1]
						}
					}
					h.Comment = strings.TrimSpace(fd.Doc.Text())
					out = append(out, h)
				}
			}
		}
	}
	return out, nil
}

// install puts the harness files of one package into the scratch tree.
func install(verif, dir, pkg string, files map[string]bool) error {
	sub := pkg
	if pkg == "" {
		sub = "root"
	}
	from := filepath.Join(verif, "harness", sub)
	to := filepath.Join(scratchGopath(dir), "src", rootPkg, pkg)
	ents, _ := os.ReadDir(from)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		if files != nil && !files[e.Name()] {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(to, "zz_verif_"+e.Name()), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func goEnv(dir string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOPATH", "GO111MODULE", "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GO111MODULE=off", "GOPATH="+scratchGopath(dir), "GOFLAGS=", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

type Loaded struct {
	prog *ssa.Program
	pkg  *ssa.Package
	fset *token.FileSet
}

func loadPkg(dir, pkg string) (*Loaded, error) {
	path := rootPkg
	if pkg != "" {
		path += "/" + pkg
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv(dir)}
	pkgs, err := packages.Load(cfg, path)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case "math/big":
			bigIntType = p.Type("Int").Type()
		case "errors":
			errStringType = types.NewPointer(p.Type("errorString").Type())
		}
	}
	if errStringType == nil || bigIntType == nil {
		return nil, fmt.Errorf("math/big or errors not loaded")
	}
	return &Loaded{prog, ps[0], prog.Fset}, nil
}

func initAllowed(p string) bool {
	switch p {
	case "io", "bytes", "encoding/binary", "hash", "verifstub/rand", "verifstub/btcec", "verifstub/sha256", "verifstub/hmac":
		return true
	}
	return strings.HasPrefix(p, "github.com/mit-dci/")
}

func newExec(l *Loaded) *Exec {
	ex := &Exec{prog: l.prog, fset: l.fset, globals: map[*ssa.Global]int{}, base: map[int]Value{}, btype: map[int]types.Type{},
		eventKey: map[string]bool{}, maxSteps: 50_000_000, maxIter: 1 << 20, maxPaths: 4000,
		fnsSeen: map[string]bool{}, qTimeout: 10 * time.Second, aTimeout: 60 * time.Second,
		cover: map[string]int{}, assumes: map[string]bool{}, loadLog: map[string]int{}, warned: map[string]bool{},
		ctrOverride: map[string]func(ex *Exec, st *State, c *callCtx) []Value{},
		pkgInit:     map[string]bool{}, coverModel: map[string]*Witness{}}
	for _, p := range l.prog.AllPackages() {
		if initAllowed(p.Pkg.Path()) {
			ex.pkgInit[p.Pkg.Path()] = true
		}
	}
	return ex
}

func (ex *Exec) newState() *State {
	st := &State{facts: map[int64]bool{}, heap: map[int]Value{}, otype: map[int]types.Type{},
		acc: map[int][]access{}, syncVC: map[string]map[int]int{}, vals: map[int64]*Term{}, hooks: map[string]Value{},
		models: []Model{{}}}
	st.threads = []*Thread{{id: 0, vc: map[int]int{0: 1}}}
	return st
}

// runInit executes the package initialisers and freezes the heap.
func (ex *Exec) runInit(l *Loaded) error {
	st := ex.newState()
	ex.initMode = true
	var fin *State
	ex.onEnd = func(s *State) { fin = s }
	ex.pushFrame(st, l.pkg.Func("init"), nil, nil, nil, false)
	ex.Run(st)
	ex.onEnd = nil
	ex.initMode = false
	if fin == nil || ex.ends != 1 {
		msg := "package initialisation failed"
		for _, e := range ex.events {
			msg += ": " + e.Kind + " " + e.Msg + " at " + e.Pos
		}
		return fmt.Errorf("%s", msg)
	}
	for k, v := range fin.heap {
		ex.base[k] = v
		ex.btype[k] = fin.otype[k]
	}
	ex.ends, ex.instrs, ex.forks, ex.merges = 0, 0, 0, 0
	ex.events = nil
	ex.eventKey = map[string]bool{}
	return nil
}

// ---------- abstract curve configuration

type curveCfg struct {
	P, B, N, Gx, Gy int64
	H               int64
	DigestBytes     int
	Empty           *big.Int
	WideBits        int
}

func isPrime(n int64) bool { return big.NewInt(n).ProbablyPrime(20) }

// toyCurve finds y^2 = x^3 + b over F_p of prime order N < p without a point with x = 0.
func toyCurve(minP int64) (p, b, n, gx, gy int64) {
	for p = minP; ; p++ {
		if !isPrime(p) || p%3 != 1 {
			continue
		}
		sq := map[int64][]int64{}
		for y := int64(0); y < p; y++ {
			sq[y*y%p] = append(sq[y*y%p], y)
		}
		for b = 1; b < p && b < 60; b++ {
			if len(sq[b]) > 0 {
				continue
			}
			cnt := int64(1)
			gx, gy = -1, -1
			for x := int64(0); x < p; x++ {
				r := (x*x%p*x + b) % p
				cnt += int64(len(sq[r]))
				if gx < 0 && len(sq[r]) == 2 {
					gx, gy = x, sq[r][0]
				}
			}
			if cnt < p && isPrime(cnt) {
				return p, b, cnt, gx, gy
			}
		}
	}
}

const hSeed = "This is the new random point in zksigma"

func setupCurve(minP int64, digestB, wide int) *curveCfg {
	c := &curveCfg{H: 3, DigestBytes: digestB, WideBits: wide}
	c.P, c.B, c.N, c.Gx, c.Gy = toyCurve(minP)
	curve.on = true
	curve.N, curve.P = big.NewInt(c.N), big.NewInt(c.P)
	curve.X, curve.Y = []*big.Int{big0}, []*big.Int{big0}
	p := curve.P
	x, y := big.NewInt(c.Gx), big.NewInt(c.Gy)
	gx, gy := x, y
	for i := int64(1); i < c.N; i++ {
		curve.X = append(curve.X, x)
		curve.Y = append(curve.Y, y)
		if i == c.N-1 {
			break
		}
		num, den := new(big.Int).Sub(gy, y), new(big.Int).Sub(gx, x)
		if i == 1 {
			num.Mul(big.NewInt(3), new(big.Int).Mul(x, x))
			den.Add(y, y)
		}
		lam := num.Mul(num, new(big.Int).ModInverse(den.Mod(den, p), p))
		lam.Mod(lam, p)
		nx := new(big.Int).Mul(lam, lam)
		nx.Sub(nx, x)
		nx.Sub(nx, gx)
		nx.Mod(nx, p)
		ny := new(big.Int).Sub(x, nx)
		ny.Mul(ny, lam)
		ny.Sub(ny, y)
		ny.Mod(ny, p)
		x, y = nx, ny
	}
	hDlog = IntI(c.H)
	digestBytes = digestB
	wideBits = wide
	// digest of the empty string such that int(seed || digest) = H mod N
	s := new(big.Int).SetBytes(append([]byte(hSeed), make([]byte, 32)...))
	s.Sub(hDlog.V, s)
	c.Empty = s.Mod(s, curve.N)
	emptyDigest = c.Empty
	return c
}

func (c *curveCfg) vars() map[string]string {
	f := func(v int64) string { return strconv.FormatInt(v, 10) }
	return map[string]string{"P": f(c.P), "B": f(c.B), "N": f(c.N), "Gx": f(c.Gx), "Gy": f(c.Gy), "HDlog": f(c.H), "EmptyDigest": c.Empty.String()}
}
