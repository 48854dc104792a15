package scratch

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verifharness/core"
	"verifharness/gen/model"
)

func goCmd(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	return b.String(), err
}

func harnessDir(h *core.Host) string {
	if d := os.Getenv("VERIF_HARNESS"); d != "" {
		return d
	}
	return filepath.Join(h.VerifDir, "harness")
}

func write(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// Module lays out an empty module which sees the tree under test and the harness.
func Module(h *core.Host, dir string) {
	hd := harnessDir(h)
	mod, err := os.ReadFile(filepath.Join(hd, "go.mod"))
	if err != nil {
		panic(err)
	}
	sum, _ := os.ReadFile(filepath.Join(hd, "go.sum"))
	text := strings.Replace(string(mod), "module verifharness", "module scratch", 1)
	text += fmt.Sprintf("\nrequire verifharness v0.0.0\n\nreplace verifharness => %s\n", hd)
	write(filepath.Join(dir, "go.mod"), text)
	write(filepath.Join(dir, "go.sum"), string(sum))
}

// Result of one generation.
type genRes struct {
	Dir, Output, Type, Err string
}

func genMain(pkgs []*Pkg, phase int) string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"bytes\"\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"go/format\"\n\t\"os\"\n\n\t\"github.com/KSpaceer/yamly/generator\"\n\t\"github.com/KSpaceer/yamly/engines/goyaml\"\n\t\"github.com/KSpaceer/yamly/engines/yayamls\"\n\n")
	for _, p := range pkgs {
		fmt.Fprintf(&b, "\t%s %q\n", p.Dir, p.Path())
	}
	b.WriteString(`)

type res struct{ Dir, Output, Type, Err string }

func gen(dir, pkg, path, out, typ, engine string, om, dis, ptr, inl bool, v any) (r res) {
	r = res{Dir: dir, Output: out, Type: typ}
	defer func() {
		if x := recover(); x != nil {
			r.Err = fmt.Sprint("panic: ", x)
		}
	}()
	g := generator.New(out)
	g.SetPkgName(pkg)
	g.SetPkgPath(path)
	if engine == "yayamls" {
		g.SetEngineGenerator(yayamls.Generator)
	} else {
		g.SetEngineGenerator(goyaml.Generator)
	}
	g.SetOmitempty(om)
	g.SetDisallowUnknownFields(dis)
	g.SetEncodePointerReceiver(ptr)
	g.SetInlineEmbedded(inl)
	g.AddType(v)
	var b bytes.Buffer
	if err := g.Generate(&b); err != nil {
		r.Err = "generator: " + err.Error()
		return r
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		r.Err = "format: " + err.Error() + "\n" + b.String()
		return r
	}
	if err := os.WriteFile(dir+"/"+out, src, 0o644); err != nil {
		r.Err = err.Error()
	}
	return r
}

func main() {
	var rs []res
`)
	for _, p := range pkgs {
		for _, t := range p.Targets {
			if t.Phase != phase {
				continue
			}
			fmt.Fprintf(&b, "\trs = append(rs, gen(%q, %q, %q, %q, %q, %q, %t, %t, %t, %t, %s.Exporter_%s(nil)))\n", p.Dir, p.Name, p.Path(), t.Output, t.Name, p.Engine,
				t.Flags.Omitempty, t.Flags.Disallow, t.Flags.PtrRecv, t.Flags.Inline, p.Dir, t.Name)
		}
		fmt.Fprintf(&b, "\tvar _ %s.Iface\n", p.Dir)
	}
	b.WriteString("\tjson.NewEncoder(os.Stdout).Encode(rs)\n}\n")
	return b.String()
}

func driverMain(pkgs []*Pkg, stubs bool) string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"reflect\"\n\t\"strconv\"\n\n\t\"verifharness/core\"\n\t\"verifharness/gen\"\n\t\"verifharness/gen/custom\"\n\t\"verifharness/gen/model\"\n\n")
	for _, p := range pkgs {
		fmt.Fprintf(&b, "\t%s %q\n", p.Dir, p.Path())
	}
	b.WriteString(`)

func main() {
	model.Candidates = []func() any{func() any { return new(custom.YamV) }, func() any { return new(custom.YamP) }}
	model.EngineCandidates["yayamls"] = []func() any{func() any { return new(custom.EngYaV) }, func() any { return new(custom.EngYaP) }}
	model.EngineCandidates["goyaml"] = []func() any{func() any { return new(custom.EngGoV) }, func() any { return new(custom.EngGoP) }}
`)
	fmt.Fprintf(&b, "\tgen.Stubs = %t\n", stubs)
	for _, p := range pkgs {
		for _, t := range p.Targets {
			fmt.Fprintf(&b, "\tgen.Add(gen.Target{Pkg: %q, Name: %q, Engine: %q, Phase: %d, Flags: model.Flags{Omitempty: %t, Disallow: %t, PtrRecv: %t, Inline: %t}, Type: reflect.TypeOf(%s.Exporter_%s(nil)).Elem()})\n",
				p.Dir, t.Name, p.Engine, t.Phase, t.Flags.Omitempty, t.Flags.Disallow, t.Flags.PtrRecv, t.Flags.Inline, p.Dir, t.Name)
		}
	}
	b.WriteString(`	a := os.Args[2:]
	n := func(s string) int { v, _ := strconv.Atoi(s); return v }
	switch os.Args[1] {
	case "worker":
		seed, _ := strconv.ParseUint(a[1], 10, 64)
		core.Worker(core.Get(a[0]), seed, a[2], n(a[3]), n(a[4]), n(a[5]), n(a[6]), a[7])
	case "replay":
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		os.Exit(core.Replay(a[0], a[1], seed, a[3]))
	}
}
`)
	return b.String()
}

var brokenRe = regexp.MustCompile(`(?m)^# scratch/(\S+)\n((?:[^#].*\n?)*)`)

// Prepare makes the packages, generates, compiles. It returns the path of the driver, or "".
func Prepare(h *core.Host, dir string, strict bool) string {
	Module(h, dir)
	n := 14
	if h.Tier == "thorough" {
		n = 60
	}
	var pkgs []*Pkg
	for i := 0; i < n; i++ {
		r := core.NewRand(h.Seed, core.HashString(h.P.ID), 77, uint64(i))
		pkgs = append(pkgs, Make(r, i, []string{"yayamls", "goyaml"}[i%2], h.P.ID == "C19"))
	}
	// the packages with everything, under flags that vary together
	for i := 0; i < 4; i++ {
		k := i
		if h.Tier == "thorough" {
			k = int(h.Seed+uint64(i)) % 4
		}
		f := []model.Flags{{}, {Omitempty: true, Inline: true}, {Disallow: true, PtrRecv: true}, {Omitempty: true, Inline: true, Disallow: true, PtrRecv: true}}[k]
		if i < 2 {
			f.Inline = !f.Inline
		}
		pkgs = append(pkgs, Full(i, []string{"yayamls", "goyaml"}[i%2], f))
	}
	if h.P.ID == "C16" { // every set of flags, given on the command line
		for i := 0; i < 16; i++ {
			f := model.Flags{Omitempty: i&1 != 0, Disallow: i&2 != 0, PtrRecv: i&4 != 0, Inline: i&8 != 0}
			e := (i ^ i>>1 ^ i>>2 ^ i>>3 ^ int(h.Seed)) & 1
			pkgs = append(pkgs, Flagged(i, []string{"yayamls", "goyaml"}[e], f))
			if h.Tier == "thorough" {
				pkgs = append(pkgs, Flagged(i+16, []string{"goyaml", "yayamls"}[e], f))
			}
		}
	}
	return Build(h, dir, pkgs, strict)
}

// commandGenerate has the command generate the code of the packages that ask for it.
func commandGenerate(h *core.Host, dir string, pkgs []*Pkg, complain func(p *Pkg, sig, text string)) int {
	bin := filepath.Join(h.Dir, "yamlygen")
	if out, err := goCmd(dir, "build", "-o", bin, "github.com/KSpaceer/yamly/cmd/yamlygen"); err != nil {
		h.Inconclusive("build of yamlygen: %s", out)
		return 0
	}
	runs := make([]*cliRun, len(pkgs))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i, p := range pkgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := core.NewRand(h.Seed, 0xC16, uint64(i))
			t := p.Targets[0]
			runs[i] = runCLI(bin, filepath.Join(dir, p.Dir), nil, append(flagArgs(t.Flags, p.Engine, r), "-type", t.Name)...)
		}()
	}
	wg.Wait()
	n := 0
	for i, p := range pkgs {
		if runs[i].code != 0 {
			complain(p, "generation-failed", fmt.Sprintf("%s: exit code %d\n%s", runs[i], runs[i].code, clip(runs[i].stderr, 3000)))
			continue
		}
		n++
	}
	return n
}

func Build(h *core.Host, dir string, pkgs []*Pkg, strict bool) string {
	custom, err := os.ReadFile(filepath.Join(harnessDir(h), "gen/custom/custom.go"))
	if err != nil {
		panic(err)
	}
	bad := map[string]string{} // package -> why
	complain := func(p *Pkg, sig, text string) {
		bad[p.Dir] = text
		h.Case("package "+p.Dir, func(c *core.Ctx) {
			c.Input(p.Src)
			c.Ev("packages-without-working-code")
			if strict || p.Command {
				c.Fail(sig, "package %s (%s), targets %+v: %s\n--- types ---\n%s", p.Dir, p.Engine, p.Targets, text, p.Src)
			}
		})
	}
	live := func() (out []*Pkg) {
		for _, p := range pkgs {
			if bad[p.Dir] == "" {
				out = append(out, p)
			}
		}
		return
	}
	for _, p := range pkgs {
		var ex strings.Builder
		for _, t := range p.Targets {
			fmt.Fprintf(&ex, "type Exporter_%s *%s\n\n", t.Name, t.Name)
		}
		write(filepath.Join(dir, p.Dir, "types.go"), p.Src)
		write(filepath.Join(dir, p.Dir, "custom.go"), strings.Replace(string(custom), "\npackage custom\n", "\npackage "+p.Name+"\n", 1)+"\n"+ex.String())
	}
	compile := func(phase int) bool {
		for round := 0; round < 3; round++ {
			args := []string{"build"}
			for _, p := range live() {
				args = append(args, "./"+p.Dir)
			}
			if len(args) == 1 {
				return false
			}
			out, err := goCmd(dir, args...)
			if err == nil {
				return true
			}
			found := false
			for _, m := range brokenRe.FindAllStringSubmatch(out, -1) {
				for _, p := range pkgs {
					if p.Dir != m[1] || bad[p.Dir] != "" {
						continue
					}
					if strings.Contains(m[2], "types.go:") && phase < 0 {
						h.Inconclusive("types of %s do not compile:\n%s\n%s", p.Dir, out, p.Src)
						return false
					}
					found = true
					complain(p, "does-not-compile", "generated code does not compile:\n"+clip(m[2]+excerpt(dir, m[2]), 3000))
				}
			}
			if !found {
				h.Inconclusive("build of the scratch packages: %s", out)
				return false
			}
		}
		return true
	}
	if !compile(-1) {
		return ""
	}
	generated := 0
	var byCommand []*Pkg
	for _, p := range live() {
		if p.Command {
			byCommand = append(byCommand, p)
		}
	}
	if len(byCommand) > 0 {
		k := commandGenerate(h, dir, byCommand, complain)
		h.Case("command", func(c *core.Ctx) { c.EvN("types-generated-by-the-command", int64(k)) })
		generated += k
	}
	for phase := 0; phase < 2; phase++ {
		var ps []*Pkg
		for _, p := range live() {
			if !p.Command {
				ps = append(ps, p)
			}
		}
		any := false
		for _, p := range ps {
			for _, t := range p.Targets {
				any = any || t.Phase == phase
			}
		}
		if !any {
			continue
		}
		write(filepath.Join(dir, "genmain", "main.go"), genMain(ps, phase))
		bin := filepath.Join(dir, "genbin")
		if out, err := goCmd(dir, "build", "-o", bin, "./genmain"); err != nil {
			h.Inconclusive("build of the generator program: %s", out)
			return ""
		}
		cmd := exec.Command(bin)
		cmd.Dir = dir
		var serr bytes.Buffer
		cmd.Stderr = &serr
		out, err := cmd.Output()
		if err != nil {
			h.Case("generation", func(c *core.Ctx) { c.Fail("generator-crash", "%v\n%s", err, clip(serr.String(), 3000)) })
			return ""
		}
		var rs []genRes
		if err := json.Unmarshal(out, &rs); err != nil {
			h.Inconclusive("output of the generator program: %v\n%s", err, clip(string(out), 1000))
			return ""
		}
		for _, r := range rs {
			if r.Err == "" {
				generated++
				continue
			}
			for _, p := range ps {
				if p.Dir == r.Dir && bad[p.Dir] == "" {
					complain(p, "generation-failed", r.Type+": "+clip(r.Err, 3000))
				}
			}
		}
		if !compile(phase) {
			break
		}
	}
	h.Case("generation", func(c *core.Ctx) {
		c.EvN("types-generated", int64(generated))
		c.EvN("packages-generated", int64(len(live())))
	})
	if len(live()) == 0 {
		h.Inconclusive("no scratch package has working code: %v", bad)
		return ""
	}
	write(filepath.Join(dir, "driver", "main.go"), driverMain(live(), false))
	drv := filepath.Join(dir, "drv")
	if out, err := goCmd(dir, "build", "-o", drv, "./driver"); err != nil {
		h.Inconclusive("build of the driver: %s", clip(out, 3000))
		return ""
	}
	return drv
}

// excerpt shows the generated lines an error speaks of.
func excerpt(dir, errs string) string {
	var out strings.Builder
	re := regexp.MustCompile(`(?m)^(\S+_yamly\.go):(\d+):`)
	seen := map[string]bool{}
	for _, m := range re.FindAllStringSubmatch(errs, 3) {
		if seen[m[0]] {
			continue
		}
		seen[m[0]] = true
		b, err := os.ReadFile(filepath.Join(dir, m[1]))
		if err != nil {
			continue
		}
		lines := strings.Split(string(b), "\n")
		var at int
		fmt.Sscan(m[2], &at)
		for i := at - 3; i < at+2; i++ {
			if i >= 0 && i < len(lines) {
				fmt.Fprintf(&out, "%s:%d  %s\n", m[1], i+1, lines[i])
			}
		}
	}
	return out.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Run is the host side of the checks of generated code.
func Run(h *core.Host) {
	dir := filepath.Join(h.Dir, "mod")
	drv := Prepare(h, dir, h.P.ID == "C15")
	if drv == "" {
		return
	}
	h.Self = drv
	h.RunWorkers()
}

// IDs of the checks that run this way.
var IDs = []string{"C15", "C16", "C17", "C19"}

func init() { sort.Strings(IDs) }
