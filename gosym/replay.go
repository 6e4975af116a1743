package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type NJob struct {
	Harness  string
	Inputs   []NInput
	Sched    []int
	Mode     string
	Thorough bool
	Millis   int
	Loose    float64 `json:",omitempty"`
}

type NResult struct {
	Status   string
	Msg      string
	Obs      []NObs
	Reached  []string
	Diverged string
	Runs     int
}

// Native builds and runs the harnesses against the real code.
type Native struct {
	verif  string
	tmp    string
	names  []string
	bins   map[string]string
	errs   map[string]error
	wallNS int64
	work   bool // count the work of the code under test
	space  bool // measure memory
}

func newNative(verif string, hs []*Harness) *Native {
	n := &Native{verif: verif, bins: map[string]string{}, errs: map[string]error{}}
	for _, h := range hs {
		n.names = append(n.names, h.name)
	}
	n.tmp, _ = os.MkdirTemp("", "gosym")
	return n
}

func (n *Native) close() { os.RemoveAll(n.tmp) }

// rewrite prepares the source of one file for a replay build; nil means unchanged.
func rewrite(src []byte, name string, vs, work bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	ch := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np, alias := "", ""
		switch {
		case p == "math/rand" || p == "math/rand/v2":
			np, alias = zPath+"/vrand", "rand"
		case vs && p == "sync":
			np, alias = zPath+"/vsync", "sync"
		}
		if np != "" {
			im.Path.Value = strconv.Quote(np)
			if im.Name == nil {
				im.Name = ast.NewIdent(alias)
			}
			ch = true
		}
	}
	used := false
	if vs {
		k := 0
		goCall := func(g *ast.GoStmt) ast.Stmt {
			used = true
			k++
			sel := &ast.SelectorExpr{X: ast.NewIdent("zverifsync"), Sel: ast.NewIdent("Go")}
			if len(g.Call.Args) == 0 {
				return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel, Args: []ast.Expr{g.Call.Fun}}}
			}
			var lhs, rhs, args []ast.Expr
			add := func(e ast.Expr) *ast.Ident {
				id := ast.NewIdent(fmt.Sprintf("zv%d_%d", k, len(lhs)))
				lhs = append(lhs, id)
				rhs = append(rhs, e)
				return ast.NewIdent(id.Name)
			}
			fn := add(g.Call.Fun)
			for _, a := range g.Call.Args {
				args = append(args, add(a))
			}
			call := &ast.CallExpr{Fun: fn, Args: args}
			if g.Call.Ellipsis.IsValid() {
				call.Ellipsis = 1
			}
			body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
				&ast.ExprStmt{X: &ast.CallExpr{Fun: sel, Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}}}},
			}}
		}
		fix := func(l []ast.Stmt) {
			for i, s := range l {
				if g, ok := s.(*ast.GoStmt); ok {
					l[i] = goCall(g)
				}
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				fix(x.List)
			case *ast.CaseClause:
				fix(x.Body)
			case *ast.CommClause:
				fix(x.Body)
			}
			return true
		})
		if used {
			ch = true
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zverifsync"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zPath + "/vsync")}}}}}, f.Decls...)
		}
	}
	if work {
		sel := func(n string) ast.Expr {
			return &ast.SelectorExpr{X: ast.NewIdent("zverifvtick"), Sel: ast.NewIdent(n)}
		}
		tick := func(b *ast.BlockStmt) {
			if b != nil {
				ch, used = true, true
				b.List = append([]ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Tick")}}}, b.List...)
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				tick(x.Body)
			case *ast.FuncLit:
				tick(x.Body)
			case *ast.ForStmt:
				tick(x.Body)
			case *ast.RangeStmt:
				tick(x.Body)
			case *ast.CallExpr:
				id, ok := x.Fun.(*ast.Ident)
				if ok && len(x.Args) == 2 && (id.Name == "copy" || id.Name == "append" && x.Ellipsis.IsValid()) {
					x.Args[1] = &ast.CallExpr{Fun: sel("Len"), Args: []ast.Expr{x.Args[1]}}
				}
			}
			return true
		})
		if used {
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zverifvtick"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zPath + "/vtick")}}}}}, f.Decls...)
		}
	}
	if !ch {
		return nil, nil
	}
	if vs || work {
		f.Comments = nil // positions no longer match
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// build makes the replay binary: kind is plain, sched (scripted synchronisation) or race.
func (n *Native) build(kind string) (string, error) {
	if b, ok := n.bins[kind]; ok {
		return b, n.errs[kind]
	}
	t0 := time.Now()
	b, err := n.build1(kind)
	n.wallNS += time.Since(t0).Nanoseconds()
	n.bins[kind], n.errs[kind] = b, err
	return b, err
}

func (n *Native) build1(kind string) (string, error) {
	dir := filepath.Join(n.tmp, kind)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	rep := map[string]string{}
	cnt := 0
	put := func(virt string, data []byte) error {
		cnt++
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", cnt))
		rep[virt] = f
		return os.WriteFile(f, data, 0o644)
	}
	vs := kind == "sched"
	for _, d := range []string{"harness", "sym", "vrand", "vsync", "vtick", "replay"} {
		fs, _ := filepath.Glob(filepath.Join(n.verif, "zverif", d, "*.go"))
		for _, f := range fs {
			virt := filepath.Join(repoDir, "zverif", d, filepath.Base(f))
			rep[virt] = f
			if d == "harness" && vs {
				src, err := os.ReadFile(f)
				if err != nil {
					return "", err
				}
				out, err := rewrite(src, f, vs, false)
				if err != nil {
					return "", err
				}
				if out != nil {
					if err := put(virt, out); err != nil {
						return "", err
					}
				}
			}
		}
	}
	var reg bytes.Buffer
	fmt.Fprintf(&reg, "package main\n\nimport %q\n\nvar registry = map[string]func(){\n", zPath+"/harness")
	for _, h := range n.names {
		fmt.Fprintf(&reg, "\t%q: harness.%s,\n", h, h)
	}
	reg.WriteString("}\n")
	if err := put(filepath.Join(repoDir, "zverif/replay/registry.go"), reg.Bytes()); err != nil {
		return "", err
	}
	if kind != "race" {
		err := filepath.Walk(repoDir, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() && (info.Name() == ".git" || info.Name() == "examples" || info.Name() == "testdata") {
				return filepath.SkipDir
			}
			if info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out, err := rewrite(src, p, vs, n.work)
			if err != nil {
				return err
			}
			if out != nil {
				return put(p, out)
			}
			return nil
		})
		if err != nil {
			return "", err
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return "", err
	}
	out := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", ovf, "-o", out}
	env := goEnv()
	if kind == "race" {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./zverif/replay")
	c := exec.Command("go", args...)
	c.Dir = repoDir
	c.Env = env
	if o, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build failed: %v\n%s", err, o)
	}
	return out, nil
}

// run executes jobs in one process, or each in its own if memory is measured; then a
// failure has to repeat, since the heap holds a few kilobytes of the run time's own now and then.
func (n *Native) run(kind string, jobs []NJob, timeout time.Duration) ([]NResult, string, error) {
	if !n.space || kind != "plain" {
		return n.run1(kind, jobs, timeout)
	}
	var all []NResult
	var out string
	for _, j := range jobs {
		for try := 0; ; try++ {
			res, o, err := n.run1(kind, []NJob{j}, timeout)
			if err != nil {
				return nil, o, err
			}
			if res[0].Status != "fail" || try == 3 {
				all = append(all, res[0])
				out += o
				break
			}
		}
	}
	return all, out, nil
}

func (n *Native) run1(kind string, jobs []NJob, timeout time.Duration) ([]NResult, string, error) {
	bin, err := n.build(kind)
	if err != nil {
		return nil, "", err
	}
	t0 := time.Now()
	defer func() { n.wallNS += time.Since(t0).Nanoseconds() }()
	jf := filepath.Join(n.tmp, "jobs.json")
	of := filepath.Join(n.tmp, "out.json")
	os.Remove(of)
	b, _ := json.Marshal(jobs)
	if err := os.WriteFile(jf, b, 0o644); err != nil {
		return nil, "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, jf, of)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1", "GOMEMLIMIT=4GiB")
	var ob bytes.Buffer
	c.Stdout, c.Stderr = &ob, &ob
	c.WaitDelay = time.Second
	err = c.Run()
	if ctx.Err() != nil {
		return nil, ob.String(), fmt.Errorf("timeout")
	}
	if err != nil {
		return nil, ob.String(), fmt.Errorf("crash: %v", err)
	}
	var res []NResult
	d, err := os.ReadFile(of)
	if err != nil {
		return nil, ob.String(), err
	}
	if err := json.Unmarshal(d, &res); err != nil {
		return nil, ob.String(), err
	}
	return res, ob.String(), nil
}

// Replay describes how a counterexample was reproduced.
type Replay struct {
	OK     bool
	Kind   string
	Status string
	Msg    string
	Output string
	Job    NJob
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// reproduce runs a counterexample against the real code.
func (n *Native) reproduce(v *Violation, thorough bool, stressMS int) Replay {
	ins, _ := nativeInputs(v.Inputs, v.Model)
	job := NJob{Harness: v.Harness, Inputs: ins, Sched: v.Sched, Thorough: thorough, Mode: "run"}
	conc := len(v.Sched) > 0 || v.Kind == "race" || v.Kind == "deadlock"
	r := Replay{Job: job, Kind: "run"}
	bad := func(kind string, job NJob, res []NResult, out string, err error, to time.Duration) bool {
		r.Job, r.Kind = job, kind
		if err != nil {
			r.Output = tailStr(out, 4000)
			switch {
			case err.Error() == "timeout":
				r.Status, r.Msg = "hang", fmt.Sprintf("no answer in %v", to)
				return true
			case strings.Contains(out, "WARNING: DATA RACE"):
				r.Status, r.Msg = "race", "the race detector reports a data race"
				return true
			case strings.Contains(out, "all goroutines are asleep"):
				r.Status, r.Msg = "deadlock", "all goroutines are asleep"
				return true
			case strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"):
				r.Status, r.Msg = "panic", firstLineWith(out, "panic:", "fatal error:")
				return true
			}
			r.Status, r.Msg = "error", err.Error()
			return false
		}
		x := res[0]
		r.Status, r.Msg = x.Status, x.Msg
		if x.Diverged != "" {
			r.Msg += " (" + x.Diverged + ")"
		}
		return x.Status == "fail" || x.Status == "panic"
	}
	if v.Kind == "tally" {
		job.Mode = "tally"
		to := 60 * time.Second
		res, out, err := n.run("plain", []NJob{job}, to)
		r.OK = bad("tally", job, res, out, err, to)
		return r
	}
	if !conc {
		to := 15 * time.Second
		res, out, err := n.run("plain", []NJob{job}, to)
		r.OK = bad("run", job, res, out, err, to)
		if !r.OK && (v.Kind == "assert" || v.Kind == "panic") && r.Status != "error" {
			jobs := nearby(job)
			if res, _, err := n.run("plain", jobs, 60*time.Second); err == nil {
				for i, x := range res {
					if x.Status == "fail" || x.Status == "panic" {
						r.OK, r.Job, r.Kind, r.Status, r.Msg, r.Output = true, jobs[i], "run", x.Status, x.Msg, ""
						break
					}
				}
			}
		}
		return r
	}
	if v.Kind != "race" {
		job.Mode = "sched"
		to := 15 * time.Second
		res, out, err := n.run("sched", []NJob{job}, to)
		if bad("sched", job, res, out, err, to) {
			r.OK = true
			return r
		}
	}
	// free-running under the race detector
	job.Mode = "stress"
	job.Millis = stressMS
	to := time.Duration(stressMS)*time.Millisecond + 20*time.Second
	res, out, err := n.run("race", []NJob{job}, to)
	r.OK = bad("stress", job, res, out, err, to)
	return r
}

// nearby returns variants of a counterexample the solver found over the reals whose floating
// inputs are exactly representable small numbers: the same path taken without rounding. It is
// used only to make a counterexample concrete, never to look for one the solver did not find.
func nearby(job NJob) []NJob {
	var pos []int
	for i, in := range job.Inputs {
		if in.K == "float" {
			pos = append(pos, i)
		}
	}
	if len(pos) == 0 {
		return nil
	}
	seed := uint64(2463534242)
	rnd := func(n int) int {
		seed = seed*6364136223846793005 + 1442695040888963407
		return int(seed>>33) % n
	}
	sets := [][]float64{{1}, {0, 1}, {-1, 0, 1}, {1, 2}, {0, 1, 2, 3}, {-2, -1, 1, 2}, {-10, -3, 0, 2, 5, 8}, {0.5, 1.5, 2, 4}, {0, 1, 2, 1 << 20}, {-0.5, 0.25, 0.5, 0.75, 1}, {0.1, 0.7, 1.3, -2.9, 3.3}, {1.1, 1.7, 2.3}}
	var out []NJob
	for try := 0; try < 400; try++ {
		nj := job
		nj.Loose = 1e-9
		nj.Inputs = append([]NInput{}, job.Inputs...)
		set := sets[try%len(sets)]
		mix := try%20 >= 10
		for _, i := range pos {
			old, err := strconv.ParseFloat(nj.Inputs[i].V, 64)
			switch {
			case mix && rnd(2) == 0 && err == nil:
				nj.Inputs[i].V = fstr(math.Round(old*8) / 8)
			default:
				nj.Inputs[i].V = fstr(set[rnd(len(set))])
			}
		}
		// a change of path may ask for further inputs
		for k := 0; k < 8; k++ {
			nj.Inputs = append(nj.Inputs, NInput{K: "float", V: fstr(set[rnd(len(set))])})
		}
		out = append(out, nj)
	}
	return out
}

func firstLineWith(s string, keys ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, k := range keys {
			if strings.Contains(l, k) {
				return l
			}
		}
	}
	return ""
}

// validate compares the values the encoding predicts on sampled paths with the real build.
func (n *Native) validate(runs []*HarnessRun, thorough bool) (ok, bad int, msgs []string) {
	var jobs []NJob
	var exp []*Sample
	for _, r := range runs {
		for _, s := range r.samples {
			jobs = append(jobs, NJob{Harness: r.h.name, Inputs: s.Inputs, Thorough: thorough, Mode: "run"})
			exp = append(exp, s)
		}
	}
	if len(jobs) == 0 {
		return 0, 0, nil
	}
	res, out, err := n.run("plain", jobs, 60*time.Second)
	if err != nil {
		return 0, 0, []string{"validation run: " + err.Error() + " " + tailStr(out, 500)}
	}
	for i, r := range res {
		why := ""
		if r.Status == "fail" || r.Status == "panic" {
			why = r.Status + ": " + r.Msg
		}
		for k, o := range exp[i].Obs {
			if why != "" {
				break
			}
			if o.V == "?" {
				continue
			}
			if k >= len(r.Obs) || r.Obs[k].L != o.L {
				if r.Status == "stop" {
					break
				}
				why = "different observations"
				break
			}
			if !closeStr(o.V, r.Obs[k].V) {
				why = fmt.Sprintf("%s: predicted %s, real %s", o.L, o.V, r.Obs[k].V)
			}
		}
		if why != "" {
			bad++
			if len(msgs) < 5 {
				in, _ := json.Marshal(jobs[i].Inputs)
				msgs = append(msgs, jobs[i].Harness+" "+why+" inputs "+string(in))
			}
		} else {
			ok++
		}
	}
	return
}

func closeStr(a, b string) bool {
	if a == b {
		return true
	}
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	if e1 != nil || e2 != nil {
		return false
	}
	d := x - y
	if d < 0 {
		d = -d
	}
	m := 1.0
	for _, z := range []float64{x, -x, y, -y} {
		if z > m {
			m = z
		}
	}
	return d <= 1e-6*m
}

var _ = sort.Strings
