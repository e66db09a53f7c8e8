package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// Dependencies that talk to a host environment that is not there get a hook: harness/deps.json lists textual edits of their
// source, which enter both the engine and the native build through the overlay.  The dependencies are pinned by /repo/go.sum,
// so an edit that does not apply means another version; the check then is inconclusive.
type depEdit struct {
	For    string `json:"for"` // the harness package that needs it
	Module string `json:"module"`
	File   string `json:"file"`
	Old    string `json:"old"`
	New    string `json:"new"`
}

var depOnce sync.Once
var depFiles map[string][]byte // file of the module cache -> new contents
var depFor map[string]string
var depErr error

func readDeps() {
	depFiles, depFor = map[string][]byte{}, map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "deps.json"))
	if err != nil {
		return
	}
	var es []depEdit
	if depErr = json.Unmarshal(b, &es); depErr != nil {
		return
	}
	dirs := map[string]string{}
	for _, e := range es {
		d, ok := dirs[e.Module]
		if !ok {
			cmd := exec.Command(goRoot+"/bin/go", "list", "-m", "-f", "{{.Dir}}", e.Module)
			cmd.Dir = repoDir
			cmd.Env = goEnv()
			out, err := cmd.Output()
			if err != nil {
				depErr = fmt.Errorf("dependency %s: %v", e.Module, err)
				return
			}
			d = strings.TrimSpace(string(out))
			dirs[e.Module] = d
		}
		f := filepath.Join(d, e.File)
		src, ok := depFiles[f]
		if !ok {
			if src, err = os.ReadFile(f); err != nil {
				depErr = err
				return
			}
		}
		if strings.Count(string(src), e.Old) != 1 {
			depErr = fmt.Errorf("dependency %s: %q not found in %s", e.Module, e.Old, e.File)
			return
		}
		depFiles[f] = []byte(strings.Replace(string(src), e.Old, e.New, 1))
		depFor[f] = e.For
	}
}

// dependencies are the edited files needed for the harness packages wanted.
func dependencies(only map[string]bool) (map[string][]byte, error) {
	depOnce.Do(readDeps)
	out := map[string][]byte{}
	for f, b := range depFiles {
		if only == nil || only[depFor[f]] {
			out[f] = b
		}
	}
	return out, depErr
}
