// Package buildtab builds the probe program with a given property table in
// place of the repository's. It runs the compiler and linker directly, so that
// thousands of tables leave nothing in a build cache.
package buildtab

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"time"
)

const (
	probe = "verifsim/cmd/probe"
	raw   = "property_table_raw.go"
	owner = "/textseg/internal/charprops"
)

type pkg struct {
	ImportPath, Dir, Export string
	Standard                bool
	GoFiles, SFiles, CgoFiles,
	EmbedFiles, Deps []string
	Module *struct{ GoVersion string }
}

// Builder knows the packages to build.
type Builder struct {
	goBin, sim, tools, tableFile string
	std                          []pkg // built already
	ours                         []pkg // in dependency order
	direct                       bool
}

// New lists the packages the probe needs, and builds those that do not depend
// on the table.
func New(goBin, sim, repo string) (*Builder, error) {
	b := &Builder{goBin: goBin, sim: sim, direct: true, tableFile: filepath.Join(repo, owner[1:], raw)}
	out, err := run(sim, goBin, "list", "-trimpath", "-export", "-deps", "-json=ImportPath,Dir,Export,Standard,GoFiles,SFiles,CgoFiles,EmbedFiles,Deps,Module", "./cmd/probe")
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, out)
	}
	d := json.NewDecoder(strings.NewReader(out))
	table := ""
	for {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if strings.HasSuffix(p.ImportPath, owner) {
			table = p.ImportPath
		}
		if p.ImportPath == table || table != "" && slices.Contains(p.Deps, table) {
			b.ours = append(b.ours, p)
			b.direct = b.direct && len(p.SFiles)+len(p.CgoFiles)+len(p.EmbedFiles) == 0
		} else {
			b.std = append(b.std, p)
		}
	}
	if table == "" {
		b.direct = false
	}
	out, err = run(sim, goBin, "env", "GOTOOLDIR")
	b.tools = strings.TrimSpace(out)
	return b, err
}

func run(dir, bin string, args ...string) (string, error) {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	o, err := cmd.Output()
	if err != nil {
		return string(o) + errb.String(), err
	}
	return string(o), nil
}

// Build writes the program to dir/probe. diag is what the compiler says when
// the library does not compile with the table.
func (b *Builder) Build(dir string, table []byte) (diag string, err error) {
	t := filepath.Join(dir, raw)
	if err := os.WriteFile(t, table, 0o644); err != nil {
		return "", err
	}
	if b.direct && b.compile(dir, t) == nil {
		return "", nil
	}
	// Once more, as everybody does it.
	j, _ := json.Marshal(map[string]any{"Replace": map[string]string{b.tableFile: t}})
	ov := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ov, j, 0o644); err != nil {
		return "", err
	}
	out, err := run(b.sim, b.goBin, "build", "-trimpath", "-overlay", ov, "-o", filepath.Join(dir, "probe"), "./cmd/probe")
	if _, ok := err.(*exec.ExitError); ok {
		return strings.ReplaceAll(out, dir, ""), nil
	}
	return "", err
}

func (b *Builder) compile(dir, table string) error {
	var cfg strings.Builder
	for _, p := range b.std {
		if p.Export != "" {
			fmt.Fprintf(&cfg, "packagefile %s=%s\n", p.ImportPath, p.Export)
		}
	}
	icfg := filepath.Join(dir, "importcfg")
	last := ""
	for i, p := range b.ours {
		if err := os.WriteFile(icfg, []byte(cfg.String()), 0o644); err != nil {
			return err
		}
		last = filepath.Join(dir, fmt.Sprintf("p%d.a", i))
		name := p.ImportPath
		if name == probe {
			name = "main"
		}
		args := []string{"-o", last, "-p", name, "-importcfg", icfg, "-pack", "-nolocalimports", "-c=1"}
		if p.Module != nil && p.Module.GoVersion != "" {
			args = append(args, "-lang=go"+langOf(p.Module.GoVersion))
		}
		swapped := false
		for _, f := range p.GoFiles {
			f = filepath.Join(p.Dir, f)
			if f == b.tableFile {
				f, swapped = table, true
			}
			args = append(args, f)
		}
		if strings.HasSuffix(p.ImportPath, owner) && !swapped {
			return fmt.Errorf("no table file")
		}
		if _, err := run(dir, filepath.Join(b.tools, "compile"), args...); err != nil {
			return err
		}
		fmt.Fprintf(&cfg, "packagefile %s=%s\n", p.ImportPath, last)
	}
	if err := os.WriteFile(icfg, []byte(cfg.String()), 0o644); err != nil {
		return err
	}
	_, err := run(dir, filepath.Join(b.tools, "link"), "-o", filepath.Join(dir, "probe"), "-importcfg", icfg, "-s", "-w", "-buildmode=exe", "-buildid=", last)
	return err
}

func langOf(v string) string {
	f := strings.SplitN(v, ".", 3)
	if len(f) < 2 {
		return v
	}
	return f[0] + "." + f[1]
}

// Exec runs the program on an input.
func Exec(dir string, in []byte) (out []byte, errs string, err error) {
	ctx, stop := context.WithTimeout(context.Background(), 100*time.Second)
	defer stop()
	cmd := exec.CommandContext(ctx, filepath.Join(dir, "probe"))
	cmd.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	return o.Bytes(), e.String(), err
}
