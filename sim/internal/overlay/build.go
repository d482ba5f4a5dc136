package overlay

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Info describes a generated overlay.
type Info struct {
	File   string // overlay JSON
	Files  int    // instrumented files of the code under test
	Points int    // yield points inserted into the code under test
	Mod    string // go.mod to use
	Deps   int    // instrumented files of its dependencies
}

func goCmd(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("go %s: %w\n%s", strings.Join(args, " "), err, errb.String())
	}
	return strings.TrimSpace(out.String()), nil
}

// Generate writes the overlay for the module in simDir into work.
func Generate(simDir, work string) (*Info, error) {
	goroot, err := goCmd(simDir, "env", "GOROOT")
	if err != nil {
		return nil, err
	}
	repl := map[string]string{}
	rt := filepath.Join(work, "rt")
	inst := filepath.Join(work, "inst")
	for _, d := range []string{rt, inst} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return nil, err
		}
	}
	if err := WriteRuntime(goroot, rt, repl); err != nil {
		return nil, err
	}
	info := &Info{}
	repo, err := goCmd(simDir, "list", "-mod=readonly", "-m", "-f", "{{if .Replace}}{{.Replace.Dir}}{{end}}{{if not .Replace}}{{.Dir}}{{end}}", "seehuhn.de/go/sfnt")
	if err != nil {
		return nil, err
	}
	skip := func(rel string) bool { return rel == "examples" }
	info.Files, info.Points, err = InstrumentTree(repo, inst, "sfnt", skip, repl)
	if err != nil {
		return nil, err
	}
	// Files in the module cache cannot be overlaid: instrument copies of the
	// dependencies and point a private go.mod at them.
	mod, err := os.ReadFile(filepath.Join(simDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(simDir, "go.sum"))
	if err != nil {
		return nil, err
	}
	for _, dep := range []string{"seehuhn.de/go/dijkstra", "seehuhn.de/go/postscript", "seehuhn.de/go/geom"} {
		dir, err := goCmd(simDir, "list", "-mod=readonly", "-m", "-f", "{{.Dir}}", dep)
		if err != nil || dir == "" {
			continue // not a dependency of the current tree
		}
		dst := filepath.Join(work, "dep", filepath.Base(dep))
		n, err := copyInstrumented(dir, dst)
		if err != nil {
			return nil, err
		}
		info.Deps += n
		mod = append(mod, fmt.Sprintf("\nreplace %s => %s\n", dep, dst)...)
	}
	info.Mod = filepath.Join(work, "sim.mod")
	if err := os.WriteFile(info.Mod, mod, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(work, "sim.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	data, err := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err != nil {
		return nil, err
	}
	info.File = filepath.Join(work, "overlay.json")
	return info, os.WriteFile(info.File, data, 0o644)
}

// BuildWorker compiles the worker with the overlay.
func BuildWorker(simDir string, info *Info, out string, race bool) error {
	args := []string{"build", "-mod=readonly", "-modfile", info.Mod, "-overlay", info.File, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./worker")
	_, err := goCmd(simDir, args...)
	return err
}

func copyInstrumented(src, dst string) (int, error) {
	count := 0
	err := filepath.WalkDir(src, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		to := filepath.Join(dst, rel)
		if d.IsDir() {
			if rel != "." && (d.Name() == "testdata" || d.Name() == "examples" || strings.HasPrefix(d.Name(), ".")) {
				return filepath.SkipDir
			}
			return os.MkdirAll(to, 0o755)
		}
		if strings.HasSuffix(path, "_test.go") {
			return nil
		}
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if strings.HasSuffix(path, ".go") {
			out, n, err := Instrument(path, data)
			if err != nil {
				return err
			}
			if n > 0 {
				count++
			}
			data = out
		}
		return os.WriteFile(to, data, 0o644)
	})
	return count, err
}
