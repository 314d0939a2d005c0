package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mrasu/GravityR"

type harnessFile struct {
	src string // in /verif
	dst string // overlay path in /repo
	pkg string // import path
}

// harnessFiles lists the harness files of a property: <dir>/<id>_*.go, plus
// every common_<id>*.go or common_*.go next to them.
func harnessFiles(root, repo, id string) []harnessFile {
	var out []harnessFile
	lid := strings.ToLower(id)
	dirs := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		if strings.HasPrefix(filepath.Base(p), lid+"_") {
			out = append(out, mkHF(root, repo, p))
			dirs[filepath.Dir(p)] = true
		}
		return nil
	})
	// helper files named by a "//vsym:use name" line, or common_* beside them
	for d := range dirs {
		ms, _ := filepath.Glob(filepath.Join(d, "common_*.go"))
		for _, m := range ms {
			out = append(out, mkHF(root, repo, m))
		}
	}
	for i := 0; i < len(out); i++ {
		txt, _ := os.ReadFile(out[i].src)
		for _, mm := range regexp.MustCompile(`(?m)^//vsym:use (\S+)$`).FindAllStringSubmatch(string(txt), -1) {
			ms, _ := filepath.Glob(filepath.Join(root, mm[1]))
			for _, m := range ms {
				h := mkHF(root, repo, m)
				dup := false
				for _, o := range out {
					dup = dup || o.src == h.src
				}
				if !dup {
					out = append(out, h)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].src < out[j].src })
	return out
}

func mkHF(root, repo, p string) harnessFile {
	rel, _ := filepath.Rel(root, p)
	dir := filepath.Dir(rel)
	h := harnessFile{src: p}
	h.dst = filepath.Join(repo, dir, "zz_verif_"+filepath.Base(p))
	h.pkg = modPath + "/" + filepath.ToSlash(dir)
	return h
}

type loaded struct {
	prog    *Program
	fns     []*ssa.Function
	files   []harnessFile
	dropped []string
	pkgs    []string
}

func overlayFor(repo, vsymSrc string, files []harnessFile) map[string][]byte {
	ov := map[string][]byte{}
	b, err := os.ReadFile(vsymSrc)
	if err != nil {
		panic(err)
	}
	ov[filepath.Join(repo, "internal/vsym/vsym.go")] = b
	for _, f := range files {
		b, err := os.ReadFile(f.src)
		if err != nil {
			panic(err)
		}
		ov[f.dst] = b
	}
	return ov
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

func load(repo, vsymSrc, modfile, id string, files []harnessFile) (*loaded, error) {
	for try := 0; try < 6; try++ {
		pk := map[string]bool{}
		for _, f := range files {
			pk[f.pkg] = true
		}
		if len(pk) == 0 {
			return nil, fmt.Errorf("no harness left for %s", id)
		}
		var pats []string
		for p := range pk {
			pats = append(pats, p)
		}
		sort.Strings(pats)
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(),
			BuildFlags: []string{"-modfile=" + modfile}, Overlay: overlayFor(repo, vsymSrc, files)}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				hit := false
				for _, f := range files {
					if strings.HasPrefix(e.Pos, f.dst+":") {
						bad[f.src] = e.Error()
						hit = true
					}
				}
				if !hit && strings.HasPrefix(p.PkgPath, modPath) {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 {
			var keep []harnessFile
			ld := &loaded{}
			for _, f := range files {
				if m, ok := bad[f.src]; ok {
					ld.dropped = append(ld.dropped, filepath.Base(f.src)+": "+m)
				} else {
					keep = append(keep, f)
				}
			}
			droppedAll = append(droppedAll, ld.dropped...)
			files = keep
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(other, "; "))
		}
		prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		P := &Program{SSA: prog, methods: map[string]*ssa.Function{}, impl: map[[2]string]bool{}}
		if rt := prog.ImportedPackage("runtime"); rt != nil {
			if t := rt.Type("errorString"); t != nil {
				P.rtErrType = t.Type()
			}
		}
		ld := &loaded{prog: P, files: files, pkgs: pats}
		for _, p := range ps {
			sp := prog.Package(p.Types)
			if sp == nil {
				continue
			}
			var names []string
			for n := range sp.Members {
				if strings.HasPrefix(n, "Verif"+id+"_") {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			for _, n := range names {
				if f := sp.Func(n); f != nil {
					ld.fns = append(ld.fns, f)
				}
			}
		}
		if len(ld.fns) == 0 {
			return nil, fmt.Errorf("no harness function Verif%s_*", id)
		}
		return ld, nil
	}
	return nil, fmt.Errorf("harnesses do not compile: %s", strings.Join(droppedAll, "; "))
}

var droppedAll []string
