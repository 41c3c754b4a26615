package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// The native side: the harnesses compiled with the real code, run on concrete inputs.

type nativeReq struct {
	Harness string           `json:"h"`
	Vals    []int64          `json:"v"`
	Params  map[string]int64 `json:"p"`
}

type nativeRes struct {
	Status string   `json:"s"` // ok, assert, panic, assume, bad, timeout
	Msg    string   `json:"m"`
	Obs    []obsVal `json:"o"`
}

type Native struct {
	bin string
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func (n *Native) start() error {
	n.cmd = exec.Command(n.bin)
	n.cmd.Dir = os.TempDir()
	n.cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOMAXPROCS=2")
	in, err := n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.cmd.Stderr = nil
	n.in, n.out = in, bufio.NewReaderSize(out, 1<<20)
	return n.cmd.Start()
}

func (n *Native) kill() {
	if n.cmd != nil && n.cmd.Process != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
	}
	n.cmd = nil
}

func (n *Native) run(req nativeReq, timeout time.Duration) nativeRes {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.n++
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return nativeRes{Status: "error", Msg: err.Error()}
		}
	}
	if req.Vals == nil {
		req.Vals = []int64{}
	}
	b, _ := json.Marshal(req)
	if _, err := n.in.Write(append(b, '\n')); err != nil {
		n.kill()
		return nativeRes{Status: "error", Msg: err.Error()}
	}
	type lr struct {
		l   string
		err error
	}
	ch := make(chan lr, 1)
	out := n.out
	go func() {
		for {
			l, err := out.ReadString('\n')
			if err == nil && !strings.HasPrefix(l, "@@") {
				continue // output of the code under test
			}
			ch <- lr{l, err}
			return
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			n.kill()
			return nativeRes{Status: "panic", Msg: "the process died (fatal error)"}
		}
		var res nativeRes
		if err := json.Unmarshal([]byte(r.l[2:]), &res); err != nil {
			n.kill()
			return nativeRes{Status: "error", Msg: err.Error() + r.l}
		}
		return res
	case <-time.After(timeout):
		n.kill()
		return nativeRes{Status: "timeout", Msg: fmt.Sprintf("no answer after %s", timeout)}
	}
}

// buildOverlay writes the overlay JSON used by the native build, and returns
// the overlay contents for go/packages
func buildOverlay(repo, verif, work string, pkgs []string, files map[string][]string, tables map[string][]string) (overlayFile string, ov map[string][]byte, err error) {
	ov = map[string][]byte{}
	replace := map[string]string{}
	add := func(target, content string) error {
		src := filepath.Join(work, strings.ReplaceAll(strings.TrimPrefix(target, repo), "/", "_"))
		if err := os.WriteFile(src, []byte(content), 0o644); err != nil {
			return err
		}
		replace[target] = src
		ov[target] = []byte(content)
		return nil
	}
	rt, err := os.ReadFile(filepath.Join(verif, "harness", "rt.go.txt"))
	if err != nil {
		return "", nil, err
	}
	for _, pkg := range pkgs {
		name := filepath.Base(pkg)
		if err = add(filepath.Join(repo, pkg, "zz_verif_rt.go"), strings.Replace(string(rt), "package PKG", "package "+name, 1)); err != nil {
			return
		}
		for _, f := range files[pkg] {
			c, err := os.ReadFile(f)
			if err != nil {
				return "", nil, err
			}
			if err = add(filepath.Join(repo, pkg, "zz_verif_"+filepath.Base(f)), string(c)); err != nil {
				return "", nil, err
			}
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nfunc init() {\n\tvTable = map[string]func(){\n", name)
		for _, h := range tables[pkg] {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", h, h)
		}
		sb.WriteString("\t}\n}\n")
		if err = add(filepath.Join(repo, pkg, "zz_verif_table.go"), sb.String()); err != nil {
			return
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n")
	for i, pkg := range pkgs {
		fmt.Fprintf(&sb, "\tp%d \"github.com/benoitkugler/textprocessing/%s\"\n", i, pkg)
	}
	sb.WriteString(")\n\nfunc main() {\n\tsc := bufio.NewScanner(os.Stdin)\n\tsc.Buffer(make([]byte, 1<<20), 1<<26)\n\tfor sc.Scan() {\n\t\tvar req struct {\n\t\t\tH string `json:\"h\"`\n\t\t\tV []int64 `json:\"v\"`\n\t\t\tP map[string]int64 `json:\"p\"`\n\t\t}\n\t\tjson.Unmarshal(sc.Bytes(), &req)\n\t\tvar res []byte\n\t\tswitch {\n")
	for i := range pkgs {
		fmt.Fprintf(&sb, "\t\tcase p%d.VerifHas(req.H):\n\t\t\tres = p%d.VerifRun(req.H, req.V, req.P)\n", i, i)
	}
	sb.WriteString("\t\tdefault:\n\t\t\tres = []byte(`{\"s\":\"bad\",\"m\":\"unknown harness\"}`)\n\t\t}\n\t\tfmt.Println(\"\\n@@\" + string(res))\n\t}\n}\n")
	if err = add(filepath.Join(repo, "zz_verif_run", "main.go"), sb.String()); err != nil {
		return
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	overlayFile = filepath.Join(work, "overlay.json")
	err = os.WriteFile(overlayFile, b, 0o644)
	return overlayFile, ov, err
}

func buildNative(repo, overlay, out string) error {
	cmd := exec.Command("go", "build", "-overlay", overlay, "-o", out, "./zz_verif_run")
	cmd.Dir = repo
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, b)
	}
	return nil
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")
}
