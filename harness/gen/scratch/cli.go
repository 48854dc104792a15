package scratch

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verifharness/core"
	"verifharness/gen/model"
)

// snap is the content of a directory.
func snap(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			out[rel] = "dir"
			return nil
		}
		b, err := os.ReadFile(p)
		out[rel] = string(b)
		if err != nil {
			out[rel] = "unreadable: " + err.Error()
		}
		return nil
	})
	return out
}

// diff lists what changed, except for the files named.
func diff(a, b map[string]string, except ...string) []string {
	ok := map[string]bool{}
	for _, e := range except {
		ok[e] = true
	}
	var out []string
	for k, v := range a {
		if w, in := b[k]; !in {
			out = append(out, "removed "+k)
		} else if w != v && !ok[k] {
			out = append(out, "changed "+k)
		}
	}
	for k := range b {
		if _, in := a[k]; !in && !ok[k] {
			out = append(out, "left behind "+k)
		}
	}
	sort.Strings(out)
	return out
}

type cliRun struct {
	args   []string
	cwd    string
	env    []string
	code   int
	stdout string
	stderr string
}

func (r *cliRun) String() string {
	return fmt.Sprintf("%s (in %s, %v)", strings.Join(r.args, " "), filepath.Base(r.cwd), r.env)
}

func runCLI(bin, cwd string, env []string, args ...string) *cliRun {
	cmd := exec.Command(bin, args...)
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOFILE=")
	cmd.Env = append(cmd.Env, env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	r := &cliRun{args: args, cwd: cwd, env: env, stdout: so.String(), stderr: se.String()}
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		}
	}
	return r
}

var (
	snake1 = regexp.MustCompile(`(\p{Ll})(\p{Lu})`)
	snake2 = regexp.MustCompile(`(\p{Lu})(\p{Lu}\p{Ll})`)
)

// defaultOutput is the documented name of the output file: the snake-cased name of the type.
func defaultOutput(typ string) string {
	s := snake1.ReplaceAllString(typ, "${1}_${2}")
	for {
		n := snake2.ReplaceAllString(s, "${1}_${2}")
		if n == s {
			break
		}
		s = n
	}
	return strings.ToLower(s) + "_yamly.go"
}

func flagArgs(f model.Flags, engine string, r *core.Rand) []string {
	var a []string
	add := func(on bool, n string) {
		switch {
		case on:
			a = append(a, core.Pick(r, []string{"-" + n, "--" + n, "-" + n + "=true"}))
		case r.P(15):
			a = append(a, "-"+n+"=false")
		}
	}
	add(f.Omitempty, "omitempty")
	add(f.Disallow, "disallow-unknown-fields")
	add(f.PtrRecv, "encode-pointer-receiver")
	add(f.Inline, "inline-embedded")
	core.Shuffle(r, a)
	if engine != "goyaml" || r.Bool() {
		a = append(a, "-engine", engine)
	}
	return a
}

// place finds a way to point the command at dir.
func place(r *core.Rand, k int, dir string) (cwd string, env, args []string, how string) {
	up, base := filepath.Dir(dir), filepath.Base(dir)
	switch k % 8 {
	case 0:
		return dir, nil, nil, "cwd"
	case 1:
		return up, nil, []string{dir}, "absolute-directory"
	case 2:
		return up, nil, []string{core.Pick(r, []string{"./" + base, base, base + "/", base + "/."})}, "relative-directory"
	case 3:
		return filepath.Join(dir, "sub"), nil, []string{core.Pick(r, []string{"..", "../", "../../" + base, "./../."})}, "directory-above"
	case 4:
		return os.TempDir(), nil, []string{core.Pick(r, []string{dir + "/sub/..", up + "/../" + filepath.Base(up) + "/" + base, up + "/./" + base, dir + "/", up + "//" + base})}, "absolute-directory-with-dots"
	case 5:
		return dir, nil, []string{"."}, "cwd"
	case 6:
		return dir, []string{"GOFILE=types.go", "GOPACKAGE=x"}, []string{"."}, "go-generate"
	default:
		return dir, []string{"GOFILE=types.go", "GOPACKAGE=x"}, nil, "go-generate"
	}
}

// methods of the generated file, by receiver.
func methods(path string) (map[string]bool, string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.ParseComments)
	if err != nil {
		return nil, "", err
	}
	out := map[string]bool{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil || len(fd.Recv.List) != 1 {
			continue
		}
		t := fd.Recv.List[0].Type
		star := ""
		if s, ok := t.(*ast.StarExpr); ok {
			t, star = s.X, "*"
		}
		if id, ok := t.(*ast.Ident); ok {
			out[star+id.Name+"."+fd.Name.Name] = true
		}
	}
	return out, f.Name.Name, nil
}

// judgeOutput checks a generated file from the outside.
func judgeOutput(path, pkg, typ string, f model.Flags) string {
	ms, name, err := methods(path)
	if err != nil {
		return err.Error()
	}
	if name != pkg {
		return fmt.Sprintf("package %s, want %s", name, pkg)
	}
	enc := ""
	if f.PtrRecv {
		enc = "*"
	}
	for _, m := range []string{enc + typ + ".MarshalYAML", enc + typ + ".MarshalYamly", "*" + typ + ".UnmarshalYAML", "*" + typ + ".UnmarshalYamly"} {
		if !ms[m] {
			return fmt.Sprintf("no method %s among %v", m, ms)
		}
		delete(ms, m)
	}
	if len(ms) > 0 {
		return fmt.Sprintf("more methods than promised: %v", ms)
	}
	return ""
}

type cliObs struct {
	name, sig, detail string
	events            []string
}

type cliLog struct {
	mu  sync.Mutex
	obs []cliObs
}

func (l *cliLog) add(o cliObs) { l.mu.Lock(); l.obs = append(l.obs, o); l.mu.Unlock() }

// CLI is the host side of the check of the command.
func CLI(h *core.Host) {
	dir := filepath.Join(h.Dir, "mod")
	Module(h, dir)
	bin := filepath.Join(h.Dir, "yamlygen")
	write(filepath.Join(dir, "keep", "keep.go"), "package keep\n\nimport (\n\t_ \"github.com/KSpaceer/yamly/generator\"\n\t_ \"github.com/KSpaceer/yamly/engines/goyaml\"\n\t_ \"github.com/KSpaceer/yamly/engines/yayamls\"\n\t_ \"verifharness/gen\"\n\t_ \"verifharness/gen/custom\"\n)\n")
	if out, err := goCmd(dir, "build", "-o", bin, "github.com/KSpaceer/yamly/cmd/yamlygen"); err != nil {
		h.Inconclusive("build of yamlygen: %s", out)
		return
	}
	if out, err := goCmd(dir, "build", "./..."); err != nil {
		h.Inconclusive("build of the scratch module: %s", out)
		return
	}
	custom, err := os.ReadFile(filepath.Join(harnessDir(h), "gen/custom/custom.go"))
	if err != nil {
		panic(err)
	}
	var log cliLog
	var jobs []func()
	n := 10
	if h.Tier == "thorough" {
		n = 80
	}
	var pkgs []*Pkg
	broken := map[string]bool{}
	for i := 0; i < n; i++ {
		i := i
		r := core.NewRand(h.Seed, core.HashString("C18"), 5, uint64(i))
		var p *Pkg
		if i < 2 {
			p = Full(i, []string{"yayamls", "goyaml"}[i], model.Flags{Omitempty: r.Bool(), Disallow: r.Bool(), PtrRecv: r.Bool(), Inline: r.Bool()})
			var some []Tgt
			for _, t := range p.Targets {
				switch t.Name {
				case "Basics", "Embedding", "Tree", "Clashes", "Holder":
					some = append(some, t)
				}
			}
			p.Targets = some
		} else {
			p = Make(r, i, []string{"yayamls", "goyaml"}[i%2], r.P(20))
			if len(p.Targets) > 3 {
				p.Targets = p.Targets[:3]
			}
		}
		for k := range p.Targets { // every target sees the methods of the ones before
			p.Targets[k].Phase = k
			p.Targets[k].Flags = model.Flags{Omitempty: r.P(30), Disallow: r.P(40), PtrRecv: r.P(40), Inline: r.P(50)}
		}
		pkgs = append(pkgs, p)
		pd := filepath.Join(dir, p.Dir)
		write(filepath.Join(pd, "types.go"), p.Src)
		write(filepath.Join(pd, "custom.go"), strings.Replace(string(custom), "\npackage custom\n", "\npackage "+p.Name+"\n", 1))
		write(filepath.Join(pd, "notes.txt"), "not Go")
		write(filepath.Join(pd, "types_test.go"), "package "+p.Name+"_test\n\nimport \"testing\"\n\nfunc TestNothing(t *testing.T) {}\n")
		if r.Bool() {
			write(filepath.Join(pd, "tool.go"), "//go:build ignore\n\npackage main\n\nfunc main() {}\n")
		}
		write(filepath.Join(pd, "sub", "other.go"), "package sub\n\ntype T struct{}\n")
		jobs = append(jobs, func() {
			for k := range p.Targets {
				t := &p.Targets[k]
				if !cliTarget(&log, r, bin, pd, p, t, k, 3*i+k) {
					log.mu.Lock()
					broken[p.Dir] = true
					log.mu.Unlock()
					return
				}
			}
		})
	}
	jobs = append(jobs, failures(&log, bin, dir, string(custom))...)
	jobs = append(jobs, options(&log, bin, dir)...)
	jobs = append(jobs, func() { workspace(&log, bin, dir, filepath.Join(h.Dir, "gopath")) })
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j func()) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			j()
		}(j)
	}
	wg.Wait()
	sort.SliceStable(log.obs, func(i, j int) bool { return log.obs[i].name < log.obs[j].name })
	for _, o := range log.obs {
		h.Case(o.name, func(c *core.Ctx) {
			c.Input(o.name)
			c.NonTrivial()
			for _, e := range o.events {
				c.Ev(e)
			}
			if o.sig != "" {
				c.Fail(o.sig, "%s", o.detail)
			}
		})
	}
	var live []*Pkg
	for _, p := range pkgs {
		if broken[p.Dir] {
			continue
		}
		var ex strings.Builder
		fmt.Fprintf(&ex, "package %s\n\n", p.Name)
		for _, t := range p.Targets {
			fmt.Fprintf(&ex, "type Exporter_%s *%s\n\n", t.Name, t.Name)
		}
		write(filepath.Join(dir, p.Dir, "exporters.go"), ex.String())
		live = append(live, p)
	}
	if len(live) == 0 {
		h.Inconclusive("no package was generated by the command")
		return
	}
	write(filepath.Join(dir, "driver", "main.go"), driverMain(live, true))
	drv := filepath.Join(dir, "drv")
	if out, err := goCmd(dir, "build", "-o", drv, "./driver"); err != nil {
		h.Case("driver", func(c *core.Ctx) {
			c.Fail("does-not-compile", "packages generated by the command do not compile:\n%s", clip(out, 3000))
		})
		return
	}
	h.Self = drv
	h.RunWorkers()
}

func cliTarget(log *cliLog, r *core.Rand, bin, pd string, p *Pkg, t *Tgt, k, at int) bool {
	o := cliObs{name: fmt.Sprintf("generate %s.%s", p.Dir, t.Name)}
	defer func() { log.add(o) }()
	fail := func(sig, f string, a ...any) bool {
		o.sig, o.detail = sig, fmt.Sprintf(f, a...)+"\n--- types ---\n"+clip(p.Src, 4000)
		return false
	}
	cwd, env, where, how := place(r, at, pd)
	o.events = append(o.events, "placed-by:"+how, "engine:"+p.Engine)
	t.Output = defaultOutput(t.Name)
	args := append(flagArgs(t.Flags, p.Engine, r), "-type", t.Name)
	if r.P(30) {
		t.Output = fmt.Sprintf("out%d_gen.go", k)
		args = append(args, "-output", t.Output)
		o.events = append(o.events, "output-named")
	} else {
		o.events = append(o.events, "output-default")
	}
	before := snap(pd)
	run := runCLI(bin, cwd, env, append(args[:len(args):len(args)], where...)...)
	after := snap(pd)
	if run.code != 0 {
		return fail("generation-failed", "%s: exit code %d\n%s", run, run.code, clip(run.stderr+run.stdout, 3000))
	}
	if d := diff(before, after, t.Output); len(d) > 0 {
		return fail("package-touched", "%s: %v", run, d)
	}
	if after[t.Output] == "" {
		return fail("no-output", "%s: there is no %s", run, t.Output)
	}
	if e := judgeOutput(filepath.Join(pd, t.Output), p.Name, t.Name, t.Flags); e != "" {
		return fail("wrong-methods", "%s: %s", run, e)
	}
	o.events = append(o.events, "generated")
	// again, over its own output: the same
	if r.P(60) {
		cwd, env, where, _ = place(r, r.Intn(8), pd)
		again := runCLI(bin, cwd, env, append(args[:len(args):len(args)], where...)...)
		third := snap(pd)
		if again.code != 0 {
			return fail("generation-failed", "%s: again: exit code %d\n%s", again, again.code, clip(again.stderr, 3000))
		}
		if d := diff(after, third); len(d) > 0 {
			return fail("not-deterministic", "%s: generating again: %v", again, d)
		}
		o.events = append(o.events, "regenerated-identically")
	}
	return true
}

const oldOutput = "// Code generated earlier.\n\npackage bad\n\nvar Old = 1\n"

// failures are runs that must be refused and leave everything as it was.
func failures(log *cliLog, bin, dir, custom string) []func() {
	type fcase struct {
		name, src, typ string
		args           []string
		extra          map[string]string
	}
	var cases []fcase
	field := func(name, typ string) {
		cases = append(cases, fcase{name: "field " + name, src: "package bad\n\ntype S struct {\n\tA int\n\tX " + typ + "\n}\n\ntype other interface{ Foo() }\n", typ: "S"})
	}
	for _, x := range [][2]string{{"chan", "chan int"}, {"func", "func()"}, {"complex128", "complex128"}, {"complex64", "complex64"}, {"uintptr", "uintptr"},
		{"interface", "other"}, {"slice of chan", "[]chan int"}, {"map to func", "map[string]func()"}, {"map from complex", "map[complex128]int"}, {"pointer to chan", "*chan int"},
		{"array of complex", "[2]complex64"}, {"struct with interface", "struct{ Q []other }"}, {"error", "error"}} {
		field(x[0], x[1])
	}
	ok := "package bad\n\ntype S struct {\n\tA int\n}\n"
	cases = append(cases,
		fcase{name: "unknown type", src: ok, typ: "NoSuch"},
		fcase{name: "target chan", src: "package bad\n\ntype S chan int\n", typ: "S"},
		fcase{name: "target func", src: "package bad\n\ntype S func()\n", typ: "S"},
		fcase{name: "target interface", src: "package bad\n\ntype S interface{ Foo() }\n", typ: "S"},
		fcase{name: "compile error", src: ok, typ: "S", extra: map[string]string{"broken.go": "package bad\n\nvar X int = \"no\"\n"}},
		fcase{name: "syntax error", src: ok, typ: "S", extra: map[string]string{"broken.go": "package bad\n\nfunc {\n"}},
		fcase{name: "no package clause", src: ok, typ: "S", extra: map[string]string{"broken.go": "nothing\n"}},
		fcase{name: "methods exist", src: ok + "\nfunc (S) MarshalYAML() (any, error) { return nil, nil }\n", typ: "S"},
		fcase{name: "output with path", src: ok, typ: "S", args: []string{"-output", "sub/out.go"}},
		fcase{name: "output above", src: ok, typ: "S", args: []string{"-output", "../out.go"}},
		fcase{name: "unknown engine", src: ok, typ: "S", args: []string{"-engine", "libyaml"}},
		fcase{name: "unknown flag", src: ok, typ: "S", args: []string{"-no-such-flag"}},
		fcase{name: "no type", src: ok},
		fcase{name: "no such directory", src: ok, typ: "S", args: []string{"./nowhere"}},
		fcase{name: "file for directory", src: ok, typ: "S", args: []string{"types.go"}},
		fcase{name: "output is a directory", src: ok, typ: "S", args: []string{"-output", "sub"}},
		fcase{name: "output is the source", src: ok, typ: "S", args: []string{"-output", "types.go"}},
		fcase{name: "output is no Go file", src: ok, typ: "S", args: []string{"-output", "out.txt"}},
		fcase{name: "output is a data file", src: ok, typ: "S", args: []string{"-output", "data.yaml"}},
		fcase{name: "output is a test file", src: ok, typ: "S", args: []string{"-output", "s_test.go"}},
		fcase{name: "output is excluded", src: ok, typ: "S", args: []string{"-output", "s_plan9.go"}},
		fcase{name: "output is hidden", src: ok, typ: "S", args: []string{"-output", "_s.go"}},
		fcase{name: "no Go files", src: "//go:build ignore\n\n" + ok, typ: "S"},
		fcase{name: "type of a test", src: ok, typ: "InTest", extra: map[string]string{"x_test.go": "package bad\n\ntype InTest struct{}\n"}},
		fcase{name: "type is a function", src: ok + "\nfunc F() {}\n", typ: "F"},
		fcase{name: "type is a value", src: ok + "\nvar V S\n", typ: "V"},
		fcase{name: "generic type", src: ok + "\ntype G[T any] struct{ X T }\n", typ: "G"},
		fcase{name: "two directories", src: ok, typ: "S", args: []string{".", "sub"}},
	)
	var jobs []func()
	for i, fc := range cases {
		for v := 0; v < 2; v++ {
			i, fc, v := i, fc, v
			jobs = append(jobs, func() {
				o := cliObs{name: fmt.Sprintf("refused: %s (%d)", fc.name, v)}
				defer func() { log.add(o) }()
				pd := filepath.Join(dir, "bad", fmt.Sprintf("b%d_%d", i, v), "bad")
				write(filepath.Join(pd, "types.go"), fc.src)
				write(filepath.Join(pd, "sub", "sub.go"), "package sub\n")
				write(filepath.Join(pd, "data.yaml"), "a: 1\n")
				for k, t := range fc.extra {
					write(filepath.Join(pd, k), t)
				}
				engine := "yayamls"
				if v == 1 {
					engine = "goyaml"
					if fc.typ != "" { // there is an output of an earlier run
						write(filepath.Join(pd, defaultOutput(fc.typ)), oldOutput)
					}
				}
				args := []string{"-engine", engine}
				if fc.typ != "" {
					args = append(args, "-type", fc.typ)
				}
				args = append(args, fc.args...)
				root := filepath.Dir(pd)
				before := snap(root)
				run := runCLI(bin, pd, nil, args...)
				after := snap(root)
				o.events = append(o.events, "refusals-run")
				switch {
				case run.code == 0:
					o.sig, o.detail = "not-refused", fmt.Sprintf("%s succeeded\n--- types ---\n%s", run, fc.src)
				case strings.TrimSpace(run.stderr) == "":
					o.sig, o.detail = "silent", fmt.Sprintf("%s failed without a word on stderr", run)
				default:
					if d := diff(before, after); len(d) > 0 {
						o.sig, o.detail = "package-touched", fmt.Sprintf("%s failed, but %v", run, d)
						return
					}
					o.events = append(o.events, "refused-cleanly")
					if v == 1 && fc.typ != "" {
						o.events = append(o.events, "earlier-output-kept")
					}
				}
			})
		}
	}
	return jobs
}

// options: build tags, names of output files, places of packages.
func options(log *cliLog, bin, dir string) []func() {
	var jobs []func()
	src := func(pkg, typ string) string {
		return "package " + pkg + "\n\ntype " + typ + " struct {\n\tA int\n\tSkipped chan int `yaml:\"-\"`\n\thidden func()\n}\n"
	}
	// names
	for i, typ := range []string{"T", "Simple", "HTTPServer", "MyHTTPServer", "ServerHTTP", "lowerCamel", "A1B2", "Config2", "X509Cert", "ABC", "aB", "Ab", "ÜberTyp", "Snake_Case", "JSONToYAML", "IDs", "Typ"} {
		i, typ := i, typ
		jobs = append(jobs, func() {
			o := cliObs{name: "name of " + typ}
			defer func() { log.add(o) }()
			pd := filepath.Join(dir, "names", fmt.Sprintf("n%d", i))
			write(filepath.Join(pd, "types.go"), src("names", typ))
			before := snap(pd)
			run := runCLI(bin, pd, nil, "-type", typ, "-engine", []string{"goyaml", "yayamls"}[i%2])
			if run.code != 0 {
				o.sig, o.detail = "generation-failed", fmt.Sprintf("%s: %s", run, run.stderr)
				return
			}
			want := defaultOutput(typ)
			after := snap(pd)
			if d := diff(before, after, want); len(d) > 0 || after[want] == "" {
				o.sig, o.detail = "output-name", fmt.Sprintf("%s: want %s, got %v", run, want, d)
				return
			}
			if e := judgeOutput(filepath.Join(pd, want), "names", typ, model.Flags{}); e != "" {
				o.sig, o.detail = "wrong-methods", e
				return
			}
			o.events = append(o.events, "output-default-name")
		})
	}
	// build tags
	for i, tags := range []string{"special", " special ", "special,other"} {
		i, tags := i, tags
		jobs = append(jobs, func() {
			o := cliObs{name: fmt.Sprintf("build tags %q", tags)}
			defer func() { log.add(o) }()
			pd := filepath.Join(dir, "tags", fmt.Sprintf("n%d", i))
			write(filepath.Join(pd, "types.go"), src("tags", "T"))
			run := runCLI(bin, pd, nil, "-type", "T", "-build-tags", tags)
			if run.code != 0 {
				o.sig, o.detail = "generation-failed", fmt.Sprintf("%s: %s", run, run.stderr)
				return
			}
			if e := judgeOutput(filepath.Join(pd, "t_yamly.go"), "tags", "T", model.Flags{}); e != "" {
				o.sig, o.detail = "wrong-methods", e
				return
			}
			ctx := build.Default
			off, err1 := ctx.MatchFile(pd, "t_yamly.go")
			ctx.BuildTags = strings.Split(strings.TrimSpace(tags), ",")
			on, err2 := ctx.MatchFile(pd, "t_yamly.go")
			if err1 != nil || err2 != nil || off || !on {
				o.sig, o.detail = "build-tags", fmt.Sprintf("%s: built without the tags: %v (%v), with them: %v (%v)", run, off, err1, on, err2)
				return
			}
			if out, err := goCmd(pd, "build", "-tags", strings.TrimSpace(tags), "."); err != nil {
				o.sig, o.detail = "does-not-compile", out
				return
			}
			o.events = append(o.events, "build-tags-in-effect")
		})
	}
	// files for other systems and under build constraints: only those in effect count
	for i, c := range []struct {
		name string
		tags string
		src  map[string]string
	}{
		{"all files tagged", "special", map[string]string{"types.go": "//go:build special\n\n" + src("cons", "T")}},
		{"variants of the type", "", map[string]string{"t_linux.go": src("cons", "T"), "t_windows.go": "package cons\n\ntype T struct{ Other string }\n"}},
		{"variants by tag", "special", map[string]string{"t_on.go": "//go:build special\n\n" + src("cons", "T"), "t_off.go": "//go:build !special\n\npackage cons\n\ntype T struct{ Other string }\n"}},
		{"tool beside", "", map[string]string{"types.go": src("cons", "T"), "a_tool.go": "//go:build ignore\n\npackage main\n\nfunc main() {}\n", "z_tool.go": "//go:build ignore\n\npackage main\n\nfunc main() {}\n"}},
		{"test package beside", "", map[string]string{"types.go": src("cons", "T"), "a_test.go": "package cons_test\n", "z_test.go": "package cons\n\nvar _ = T{A: 1}\n"}},
		{"comment before package", "", map[string]string{"types.go": "// Package cons is\n// package main of nothing.\n" + src("cons", "T")}},
		{"several files", "", map[string]string{"a.go": "package cons\n\ntype B struct{ T *T }\n", "m.go": src("cons", "T"), "z.go": "package cons\n\nfunc init() {}\n"}},
	} {
		i, c := i, c
		jobs = append(jobs, func() {
			o := cliObs{name: "files: " + c.name}
			defer func() { log.add(o) }()
			pd := filepath.Join(dir, "files", fmt.Sprintf("n%d", i))
			for k, t := range c.src {
				write(filepath.Join(pd, k), t)
			}
			for k, e := range []string{"goyaml", "yayamls"} {
				before := snap(pd)
				args := []string{"-type", "T", "-engine", e}
				if c.tags != "" {
					args = append(args, "-build-tags", c.tags)
				}
				run := runCLI(bin, pd, nil, args...)
				if run.code != 0 {
					o.sig, o.detail = "generation-failed", fmt.Sprintf("%s (run %d): %s", run, k, run.stderr)
					return
				}
				if d := diff(before, snap(pd), "t_yamly.go"); len(d) > 0 {
					o.sig, o.detail = "package-touched", fmt.Sprintf("%s: %v", run, d)
					return
				}
				if e := judgeOutput(filepath.Join(pd, "t_yamly.go"), "cons", "T", model.Flags{}); e != "" {
					o.sig, o.detail = "wrong-methods", e
					return
				}
				out, err := os.ReadFile(filepath.Join(pd, "t_yamly.go"))
				if err != nil || !strings.Contains(string(out), "\"A\"") || strings.Contains(string(out), "Other") {
					o.sig, o.detail = "wrong-type", fmt.Sprintf("%s: generated for another variant of the type (%v)", run, err)
					return
				}
				if out, err := goCmd(pd, "vet", "-tags", c.tags, "."); err != nil {
					o.sig, o.detail = "does-not-compile", out
					return
				}
			}
			o.events = append(o.events, "files-in-effect")
		})
	}
	// places: nested modules, deep packages, a package named otherwise than its directory
	for i, c := range []struct{ dir, pkg, mod string }{{"a/b/c", "c", ""}, {"some-dir.v2", "named", ""}, {"nested/v3", "nested", "example.com/nested/v3"}, {"nested2/internal/x", "x", "example.com/n2"}, {"root", "root", "\"example.com/quoted\" // comment"}, {"rooted/pkg", "pkg", "\"example.com/ticked/x\""},
		{"modules", "modules", "example.com/modules // module other"}, {"nested2/internal/y/z", "z", "modulelike"}} {
		i, c := i, c
		jobs = append(jobs, func() {
			o := cliObs{name: "place " + c.dir}
			defer func() { log.add(o) }()
			base := filepath.Join(dir, fmt.Sprintf("places%d", i))
			pd := filepath.Join(base, c.dir)
			if c.mod != "" {
				md := pd
				if strings.Contains(c.dir, "internal") {
					md = filepath.Join(base, "nested2")
				}
				mod, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
				sum, _ := os.ReadFile(filepath.Join(dir, "go.sum"))
				write(filepath.Join(md, "go.mod"), strings.Replace(string(mod), "module scratch", "// module nope\nmodule\t"+c.mod, 1))
				write(filepath.Join(md, "go.sum"), string(sum))
				write(filepath.Join(md, "keep", "keep.go"), "package keep\n\nimport (\n\t_ \"github.com/KSpaceer/yamly/generator\"\n\t_ \"github.com/KSpaceer/yamly/engines/goyaml\"\n\t_ \"github.com/KSpaceer/yamly/engines/yayamls\"\n)\n")
			}
			write(filepath.Join(pd, "types.go"), src(c.pkg, "T")+"\ntype U struct{ T *T; L []T }\n")
			for k, e := range []string{"goyaml", "yayamls"} {
				before := snap(pd)
				typ := []string{"T", "U"}[k]
				run := runCLI(bin, pd, nil, "-type", typ, "-engine", e)
				if run.code != 0 {
					o.sig, o.detail = "generation-failed", fmt.Sprintf("%s: %s", run, run.stderr)
					return
				}
				if d := diff(before, snap(pd), defaultOutput(typ)); len(d) > 0 {
					o.sig, o.detail = "package-touched", fmt.Sprintf("%s: %v", run, d)
					return
				}
				if e := judgeOutput(filepath.Join(pd, defaultOutput(typ)), c.pkg, typ, model.Flags{}); e != "" {
					o.sig, o.detail = "wrong-methods", e
					return
				}
			}
			if out, err := goCmd(pd, "vet", "."); err != nil {
				o.sig, o.detail = "does-not-compile", out
				return
			}
			o.events = append(o.events, "packages-placed")
		})
	}
	return jobs
}

// workspace: packages of a GOPATH, without modules.
func workspace(log *cliLog, bin, mod, gopath string) {
	o := cliObs{name: "packages of a GOPATH"}
	defer func() { log.add(o) }()
	skip := func(why string) { o.events = append(o.events, "gopath-not-tried("+why+")") }
	out, err := goCmd(mod, "list", "-deps", "-f", "{{if not .Standard}}{{.ImportPath}}\t{{.Dir}}{{end}}", "./keep")
	if err != nil {
		skip("go list")
		return
	}
	for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
		path, from, ok := strings.Cut(l, "\t")
		if !ok || !strings.Contains(path, ".") {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(from, "*.go"))
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil || strings.HasSuffix(f, "_test.go") {
				continue
			}
			write(filepath.Join(gopath, "src", path, filepath.Base(f)), string(b))
		}
	}
	env := []string{"GO111MODULE=off", "GOFLAGS=", "GOPATH=" + gopath}
	gopathCmd := func(dir string, args ...string) (string, error) {
		cmd := exec.Command("go", args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), append([]string{"GOTOOLCHAIN=local", "GOWORK=off"}, env...)...)
		b, err := cmd.CombinedOutput()
		return string(b), err
	}
	if _, err := gopathCmd(gopath, "build", "github.com/KSpaceer/yamly/generator", "github.com/KSpaceer/yamly/engines/goyaml", "github.com/KSpaceer/yamly/engines/yayamls"); err != nil {
		skip("this Go builds nothing without modules")
		return
	}
	for i, path := range []string{"plain", "example.com/team/app", "example.com/team", "example.com/team/app/deep/er"} {
		pd := filepath.Join(gopath, "src", path)
		pkg := filepath.Base(path)
		write(filepath.Join(pd, "types.go"), "package "+pkg+"\n\ntype T struct {\n\tOf"+pkg+" int\n\tL []U\n}\n\ntype U struct{ X string }\n")
		for k, e := range []string{"goyaml", "yayamls"} {
			cwd, where := pd, []string(nil)
			if (i+k)%2 == 1 {
				cwd, where = filepath.Dir(pd), []string{"./" + pkg}
			}
			before := snap(pd)
			run := runCLI(bin, cwd, env, append([]string{"-type", "T", "-engine", e}, where...)...)
			if run.code != 0 {
				o.sig, o.detail = "generation-failed", fmt.Sprintf("%s: %s", run, run.stderr)
				return
			}
			if d := diff(before, snap(pd), "t_yamly.go"); len(d) > 0 {
				o.sig, o.detail = "package-touched", fmt.Sprintf("%s: %v", run, d)
				return
			}
			if e := judgeOutput(filepath.Join(pd, "t_yamly.go"), pkg, "T", model.Flags{}); e != "" {
				o.sig, o.detail = "wrong-methods", e
				return
			}
			if out, err := gopathCmd(pd, "vet", "."); err != nil {
				o.sig, o.detail = "does-not-compile", out
				return
			}
		}
	}
	o.events = append(o.events, "packages-of-a-gopath")
}
