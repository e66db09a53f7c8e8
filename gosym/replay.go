package main

// Native replay: the harness is compiled together with the real code and run on one concrete assignment.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type Native struct {
	dir  string
	bin  string
	err  error
	done chan struct{}
}

type NatRes struct {
	Viol   string
	Done   bool
	Status string
	Obs    map[string][]string
	Reach  map[string]bool
	Out    string
}

// buildNative compiles a program exposing the given harness functions (package dir -> names).
func buildNative(dir string, pkgs map[string][]string) *Native {
	n := &Native{dir: dir, bin: filepath.Join(dir, "zzrun"), done: make(chan struct{})}
	go func() {
		defer close(n.done)
		os.MkdirAll(dir, 0755)
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"" + zzPath + "\"\n")
		var ks []string
		for k := range pkgs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			fmt.Fprintf(&sb, "\tp%d \"%s/%s\"\n", i, modPath, k)
		}
		sb.WriteString(")\n\nfunc main() {\n\tzzsym.Main(map[string]func(){\n")
		for i, k := range ks {
			for _, f := range pkgs[k] {
				fmt.Fprintf(&sb, "\t\t%q: p%d.%s,\n", k+"."+f, i, f)
			}
		}
		sb.WriteString("\t})\n}\n")
		src := filepath.Join(dir, "main.go")
		os.WriteFile(src, []byte(sb.String()), 0644)
		ov := filepath.Join(dir, "overlay.json")
		only := map[string]bool{}
		for _, k := range ks {
			only[k] = true
		}
		if err := writeOverlay(ov, withNeeds(only), map[string]string{filepath.Join(repoDir, "internal/zzmain/main.go"): src}); err != nil {
			n.err = err
			return
		}
		cmd := exec.Command(goRoot+"/bin/go", "build", "-overlay", ov, "-vet=off", "-o", n.bin, "./internal/zzmain")
		cmd.Args = []string{"go", "build", "-overlay", ov, "-o", n.bin, "./internal/zzmain"}
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

// Run executes one harness natively.
func (n *Native) Run(harness string, assign map[string]string, params map[string]int64) *NatRes {
	<-n.done
	res := &NatRes{Obs: map[string][]string{}, Reach: map[string]bool{}}
	if n.err != nil {
		res.Status = n.err.Error()
		return res
	}
	tmp, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		res.Status = err.Error()
		return res
	}
	defer os.RemoveAll(tmp)
	af := filepath.Join(tmp, "assign.json")
	b, _ := json.Marshal(assign)
	os.WriteFile(af, b, 0644)
	pb, _ := json.Marshal(params)
	ctx, cancel := context.WithTimeout(context.Background(), 70*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "ZZ_HARNESS="+harness, "ZZ_ASSIGN="+af, "ZZ_PARAMS="+string(pb), "TMPDIR="+tmp, "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	err = cmd.Run()
	if cmd.Process != nil {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	res.Out = ob.String()
	pending := "" // a call that must return has not
	for _, l := range strings.Split(res.Out, "\n") {
		switch {
		case strings.HasPrefix(l, "ZZ-VIOLATION "):
			if res.Viol == "" {
				res.Viol = strings.TrimPrefix(l, "ZZ-VIOLATION ")
			}
		case strings.HasPrefix(l, "ZZ-DONE"):
			res.Done = true
		case strings.HasPrefix(l, "ZZ-PENDING "):
			pending = strings.TrimPrefix(l, "ZZ-PENDING ")
		case strings.HasPrefix(l, "ZZ-RETURNED"):
			pending = ""
		case strings.HasPrefix(l, "ZZ-OBS "):
			f := strings.SplitN(strings.TrimPrefix(l, "ZZ-OBS "), " ", 2)
			if len(f) == 2 {
				res.Obs[f[0]] = append(res.Obs[f[0]], f[1])
			}
		case strings.HasPrefix(l, "ZZ-REACH "):
			res.Reach[strings.TrimPrefix(l, "ZZ-REACH ")] = true
		case strings.HasPrefix(l, "ZZ-ASSUME"), strings.HasPrefix(l, "ZZ-STOP"), strings.HasPrefix(l, "ZZ-TIMEOUT"), strings.HasPrefix(l, "ZZ-ERROR"):
			res.Status = l
		}
	}
	if err != nil {
		if res.Viol == "" && pending != "" && strings.Contains(err.Error(), "exit status 1") {
			res.Viol = pending
		}
		if res.Viol == "" {
			// a panic in another goroutine, a fatal error or a deadlock of the runtime
			for _, l := range strings.Split(res.Out, "\n") {
				if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
					res.Viol = l
					break
				}
			}
		}
		if res.Viol == "" && res.Status == "" {
			res.Status = "exit: " + err.Error()
		}
	}
	return res
}
