package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// native is the harness package compiled against the real code.
type native struct {
	dir, bin string
	tier     int
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
}

type nativeResult struct {
	Fails  []string `json:"fails"`
	Panic  string   `json:"panic"`
	Obs    []string `json:"obs"`
	Assume bool     `json:"assume"`
	Known  []string `json:"known"`
	Err    string   `json:"err"`
}

func (r *nativeResult) shows(label string) (bool, string) {
	if label == "no panic" {
		if r.Panic != "" {
			return true, "real code panicked: " + r.Panic
		}
		if strings.HasPrefix(r.Err, "crash") {
			return true, r.Err
		}
		return false, ""
	}
	for _, f := range r.Fails {
		if f == label {
			return true, "assertion fails on the real code"
		}
	}
	if r.Panic != "" {
		return true, "real code panicked: " + r.Panic
	}
	if len(r.Fails) > 0 {
		return true, "real code fails " + r.Fails[0]
	}
	return false, ""
}

func (r *nativeResult) knownFor(ids map[string]string) string {
	for _, k := range r.Known {
		if _, ok := ids[k]; ok {
			return k
		}
	}
	return ""
}

func buildNative(cfg *config, files map[string][]byte) (*native, error) {
	dir, err := os.MkdirTemp("", "vxnative")
	if err != nil {
		return nil, err
	}
	n := &native{dir: dir, bin: filepath.Join(dir, "harness")}
	if cfg.tier == "thorough" {
		n.tier = 1
	}
	rep := map[string]string{}
	for name, b := range files {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return nil, err
		}
		rep[filepath.Join(cfg.repo, virtDir, name)] = p
	}
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ov, ob, 0o644); err != nil {
		return nil, err
	}
	c := exec.Command("go", "build", "-overlay", ov, "-o", n.bin, "./"+virtDir)
	c.Dir = cfg.repo
	out, err := c.CombinedOutput()
	if err != nil {
		os.RemoveAll(dir)
		return nil, fmt.Errorf("%v: %s", err, out)
	}
	return n, nil
}

func (n *native) start() error {
	n.cmd = exec.Command(n.bin)
	n.cmd.Dir = n.dir
	in, err := n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return err
	}
	n.cmd.ExtraFiles = []*os.File{pw}
	if err := n.cmd.Start(); err != nil {
		return err
	}
	pw.Close()
	n.in = in
	n.out = bufio.NewReaderSize(pr, 1<<20)
	return nil
}

func (n *native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *native) run(h string, vars map[string]any, repeat int) *nativeResult {
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return &nativeResult{Err: err.Error()}
		}
	}
	b, _ := json.Marshal(map[string]any{"h": h, "vars": vars, "n": repeat, "tier": n.tier})
	b = append(b, '\n')
	type line struct {
		s   string
		err error
	}
	ch := make(chan line, 1)
	out := n.out
	in := n.in
	go func() {
		if _, err := in.Write(b); err != nil {
			ch <- line{"", err}
			return
		}
		s, err := out.ReadString('\n')
		ch <- line{s, err}
	}()
	select {
	case l := <-ch:
		if l.err != nil {
			n.stop()
			return &nativeResult{Err: "crash of the native harness process"}
		}
		r := &nativeResult{}
		if err := json.Unmarshal([]byte(l.s), r); err != nil {
			return &nativeResult{Err: err.Error()}
		}
		return r
	case <-time.After(30 * time.Second):
		n.stop()
		return &nativeResult{Err: "native run timed out"}
	}
}

func (n *native) Close() {
	n.stop()
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func replayFile(cfg *config, files map[string][]byte, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var v struct {
		Property, Harness, Label string
		Vars                     map[string]any
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	n, err := buildNative(cfg, files)
	if err != nil {
		fatal("%v", err)
	}
	defer n.Close()
	r := n.run(v.Harness, v.Vars, 400)
	rb, _ := json.MarshalIndent(r, "", "  ")
	fmt.Println(string(rb))
	if hit, how := r.shows(v.Label); hit {
		fmt.Println("reproduced:", how)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
