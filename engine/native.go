package main

// Native replay: the harness and the real code are compiled by the ordinary
// compiler and run on concrete inputs.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type replayReq struct {
	Fn       string   `json:"fn"`
	Trace    []TraceE `json:"trace"`
	Thorough bool     `json:"thorough"`
	Sched    []int    `json:"sched,omitempty"`
	UseSched bool     `json:"usesched,omitempty"`
}

type replayRes struct {
	Panic    string            `json:"panic"`
	Failed   []string          `json:"failed"`
	Possible map[string]bool   `json:"possible"`
	Varies   map[string]string `json:"varies"`
	Known    []string          `json:"known"`
	Assumed  bool              `json:"assumed"` // an assumption did not hold
	Diverged string            `json:"diverged"`
	Obs      []obsTxt          `json:"obs"`
	Asserts  int               `json:"asserts"`
	Deadlock bool              `json:"deadlock"`
	Extra    map[string]string `json:"extra"`
	hung     bool
	crashed  string
	race     bool
}

func (r *replayRes) bad() bool {
	return r.Panic != "" || len(r.Failed) > 0 || r.hung || r.crashed != "" || r.race || r.Deadlock
}

type Native struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	errBuf  *bytes.Buffer
	timeout time.Duration
	env     []string
	Runs    int
}

var importRand = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)"golang.org/x/exp/rand"`)

var importSync = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)"sync"`)
var importAtomic = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)"sync/atomic"`)

// importOverlay rewrites imports of the repository's own packages: the random
// source (so that recorded values are drawn again) and, for schedules, sync and
// sync/atomic (so that control passes where the engine passed it).
func importOverlay(repo, tmp string, syncToo bool) map[string]string {
	r := map[string]string{}
	filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		s := string(b)
		n := importRand.ReplaceAllString(s, `${1}rand "`+repoMod+"/"+zz+`/vrand"`)
		if syncToo {
			n = importSync.ReplaceAllString(n, `${1}sync "`+repoMod+"/"+zz+`/vsync"`)
			n = importAtomic.ReplaceAllString(n, `${1}atomic "`+repoMod+"/"+zz+`/vatomic"`)
		}
		if n != s {
			dst := filepath.Join(tmp, fmt.Sprintf("imp%d_%s", len(r), fi.Name()))
			if os.WriteFile(dst, []byte(n), 0o644) == nil {
				r[path] = dst
			}
		}
		return nil
	})
	return r
}

// buildNative compiles the replayer for some harness functions.
func buildNative(prg *Program, repo, harnessDir, tmp string, fns map[string][]string, mode string) (*Native, error) {
	n, err := buildNativeShim(repo, harnessDir, tmp, fns, mode, true)
	if err != nil && mode != "sched" {
		n, err = buildNativeShim(repo, harnessDir, tmp, fns, mode, false)
	}
	return n, err
}

func buildNativeShim(repo, harnessDir, tmp string, fns map[string][]string, mode string, shim bool) (*Native, error) {
	ov, err := overlayFiles(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + repoMod + "/" + zz + "/sym\"\n")
	var pk []string
	for h := range fns {
		pk = append(pk, h)
	}
	sort.Strings(pk)
	for i, h := range pk {
		fmt.Fprintf(&sb, "\th%d \"%s/%s/%s\"\n", i, repoMod, zz, h)
	}
	sb.WriteString(")\n\nfunc main() {\n")
	sb.WriteString("\tsym.ReplayMain(map[string]func(){\n")
	for i, h := range pk {
		for _, f := range fns[h] {
			fmt.Fprintf(&sb, "\t\t%q: h%d.%s,\n", f, i, f)
		}
	}
	sb.WriteString("\t})\n}\n")
	mainSrc := filepath.Join(tmp, "replay_main.go")
	if err := os.WriteFile(mainSrc, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	ov[filepath.Join(repo, zz, "replaycmd", "main.go")] = mainSrc
	if shim {
		for k, v := range importOverlay(repo, tmp, mode == "sched") {
			ov[k] = v
		}
	}
	if mode == "sched" {
		ov[filepath.Join(repo, zz, "sym", "mode.go")] = filepath.Join(harnessDir, "sym", "mode_sched.txt")
	}
	of, err := writeOverlay(tmp, "overlay-"+mode+".json", ov)
	if err != nil {
		return nil, err
	}
	mf, err := modfile(repo, tmp)
	if err != nil {
		return nil, err
	}
	bin := filepath.Join(tmp, "replay-"+mode)
	args := []string{"build", "-o", bin, "-overlay", of, "-modfile=" + mf}
	env := goEnv()
	if mode == "race" {
		args = append(args, "-race")
		env = goEnvCgo()
	}
	args = append(args, "./"+zz+"/replaycmd")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("native build (%s): %v: %s", mode, err, tail(string(out), 1500))
	}
	return &Native{bin: bin, timeout: 10 * time.Second}, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (n *Native) start() error {
	n.cmd = exec.Command(n.bin)
	n.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66", "GOMEMLIMIT=3GiB")
	n.cmd.Env = append(n.cmd.Env, n.env...)
	var err error
	if n.in, err = n.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.errBuf = &bytes.Buffer{}
	n.cmd.Stderr = n.errBuf
	n.out = bufio.NewReaderSize(o, 1<<20)
	return n.cmd.Start()
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) run(q replayReq) *replayRes {
	n.Runs++
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return &replayRes{Diverged: "cannot start replay: " + err.Error()}
		}
	}
	b, _ := json.Marshal(q)
	b = append(b, '\n')
	if _, err := n.in.Write(b); err != nil {
		n.stop()
		return &replayRes{Diverged: "replay process: " + err.Error()}
	}
	type lr struct {
		l   []byte
		err error
	}
	ch := make(chan lr, 1)
	out := n.out
	go func() {
		for {
			l, err := out.ReadBytes('\n')
			if err == nil && !bytes.HasPrefix(l, []byte("\x02R")) {
				continue // output of the code under test
			}
			ch <- lr{l, err}
			return
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			n.in.Close()
			n.cmd.Wait()
			msg := tail(n.errBuf.String(), 2000)
			n.cmd = nil
			return &replayRes{crashed: "process died: " + msg}
		}
		var res replayRes
		if err := json.Unmarshal(r.l[2:], &res); err != nil {
			return &replayRes{Diverged: "replay output: " + err.Error()}
		}
		if strings.Contains(n.errBuf.String(), "WARNING: DATA RACE") {
			res.race = true
			n.stop()
		}
		return &res
	case <-time.After(n.timeout):
		n.stop()
		return &replayRes{hung: true}
	}
}
