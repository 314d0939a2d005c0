package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type replayReq struct {
	H  string   `json:"h"`
	In []string `json:"in"`
}

type replayRes struct {
	I      int      `json:"i"`
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
}

type nativeBin struct {
	path string
	dir  string
	tier string
	err  error
	out  string
}

// buildNative compiles the harnesses with the ordinary Go toolchain into a
// replay program (through an overlay; nothing is written to the repository).
func buildNative(scratch, repo, vsymSrc, modfile string, ld *loaded, tier string) *nativeBin {
	nb := &nativeBin{dir: scratch, tier: tier}
	rep := map[string]string{filepath.Join(repo, "internal/vsym/vsym.go"): vsymSrc}
	for _, f := range ld.files {
		rep[f.dst] = f.src
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + modPath + "/internal/vsym\"\n")
	alias := map[string]string{}
	for i, p := range ld.pkgs {
		alias[p] = fmt.Sprintf("p%d", i)
		used := false
		for _, f := range ld.fns {
			used = used || f.Pkg.Pkg.Path() == p
		}
		if used {
			fmt.Fprintf(&sb, "\tp%d %q\n", i, p)
		}
	}
	sb.WriteString(")\n\nfunc main() {\n\tvsym.Main(map[string]func(){\n")
	for _, f := range ld.fns {
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", f.Name(), alias[f.Pkg.Pkg.Path()], f.Name())
	}
	sb.WriteString("\t})\n}\n")
	mainSrc := filepath.Join(scratch, "main.go")
	os.WriteFile(mainSrc, []byte(sb.String()), 0o644)
	rep[filepath.Join(repo, "internal/zzverifreplay/main.go")] = mainSrc
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovp := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ovp, ov, 0o644)
	nb.path = filepath.Join(scratch, "replay.bin")
	cmd := exec.Command("go", "build", "-ldflags=-checklinkname=0", "-modfile="+modfile, "-overlay", ovp, "-o", nb.path, modPath+"/internal/zzverifreplay")
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	nb.err, nb.out = err, string(out)
	return nb
}

// run replays all requests, restarting after a crash or a hang.
func (nb *nativeBin) run(reqs []replayReq) []replayRes {
	res := make([]replayRes, len(reqs))
	for i := range res {
		res[i] = replayRes{I: i, Status: "notrun"}
	}
	if nb.err != nil || len(reqs) == 0 {
		return res
	}
	f := filepath.Join(nb.dir, fmt.Sprintf("reqs%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(reqs)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	from := 0
	for from < len(reqs) {
		cmd := exec.Command(nb.path)
		cmd.Dir = nb.dir
		cmd.Env = append(os.Environ(), "VSYM_REPLAY="+f, "VSYM_FROM="+strconv.Itoa(from), "VSYM_TIER="+nb.tier, "TZ=UTC", "HOME="+nb.dir)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		o, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			return res
		}
		killer := time.AfterFunc(240*time.Second, func() { cmd.Process.Kill() })
		sc := bufio.NewScanner(o)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		started := from - 1
		finished := from - 1
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, "VSYM-START ") {
				started, _ = strconv.Atoi(l[11:])
			} else if strings.HasPrefix(l, "VSYM ") {
				var r replayRes
				if json.Unmarshal([]byte(l[5:]), &r) == nil && r.I >= 0 && r.I < len(res) {
					res[r.I] = r
					finished = r.I
				}
			}
		}
		cmd.Wait()
		killer.Stop()
		if finished < started {
			msg := stderr.String()
			if len(msg) > 400 {
				msg = msg[:400]
			}
			st := "crash"
			if strings.Contains(msg, "stack overflow") || strings.Contains(stderr.String(), "stack exceeds") {
				st = "overflow"
			}
			res[started] = replayRes{I: started, Status: st, Label: firstLine(msg)}
			from = started + 1
			continue
		}
		if finished+1 <= from-1+0 || finished < from {
			break
		}
		from = finished + 1
	}
	return res
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var _ *ssa.Function
