package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verifsim/engine"
	"verifsim/genrun"
	"verifsim/rng"
)

// C17: this binary is built with the table the generator makes of the shipped
// data in place of the shipped table (check.sh). The first runs repeat the
// generation under other read schedules and compare bytes; the rest are those
// of C01.

var (
	regenBin   = os.Getenv("VERIF_GENTAB")
	regenTable []byte
	regenFiles = map[string][]byte{}
)

func repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func setupRegen() error {
	regenTable, _ = os.ReadFile(os.Getenv("VERIF_TABLE"))
	d := filepath.Join(repo(), "textseg/internal/charprops/ucd")
	return filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
		if err != nil || e.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(d, p)
		regenFiles["ucd/"+rel] = b
		return err
	})
}

// compiles builds the library with a table.
func compiles(table []byte) (string, error) {
	d, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(d)
	t := filepath.Join(d, "table.go")
	if err := os.WriteFile(t, table, 0o644); err != nil {
		return "", err
	}
	j, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(repo(), "textseg/internal/charprops/property_table_raw.go"): t}})
	ov := filepath.Join(d, "overlay.json")
	if err := os.WriteFile(ov, j, 0o644); err != nil {
		return "", err
	}
	cmd := exec.Command(os.Getenv("VERIF_GO"), "build", "-overlay", ov, "./textseg/...")
	cmd.Dir = repo()
	cmd.Env = append(os.Environ(), "GOWORK=off", "GOFLAGS=")
	out, err := cmd.CombinedOutput()
	if _, ok := err.(*exec.ExitError); ok {
		return strings.ReplaceAll(string(out), d, ""), nil
	}
	return "", err
}

func c17() *engine.Check {
	base := c01()
	const regens = 400
	ck := *base
	ck.ID, ck.Setup, ck.Batch = "C17", setupRegen, 250
	ck.Runs = map[string]int{"quick": base.Runs["quick"] + regens, "thorough": base.Runs["thorough"] + 10*regens}
	ck.Gen = func(r *rng.R, seed uint64, idx int, tier string) any {
		n := regens
		if tier == "thorough" {
			n *= 10
		}
		if idx < n {
			return &Plan{Regen: &genrun.Proc{ReadMode: idx % 3, Seed: r.U64() >> 16}}
		}
		return base.Gen(r, seed, idx-n, tier)
	}
	ck.Exec = func(pl any, c *engine.Ctx) *engine.Violation {
		p := pl.(*Plan)
		if p.Regen == nil {
			return base.Exec(pl, c)
		}
		r, err := genrun.Run(regenBin, *p.Regen, regenFiles)
		if err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			os.Exit(2)
		}
		c.Add("generations", 1)
		c.Add("fault:short reads (generations)", b2i(p.Regen.ReadMode > 0))
		c.Add("generator file operations", r.Ops)
		c.Mix(r.Digest)
		t, ok := r.Files[genrun.Table]
		msg, _, _ := strings.Cut(strings.TrimSpace(r.Stderr), "\n")
		if r.Exit != 0 || !ok {
			return engine.V("no-table", "the generator writes no table for the shipped data (exit status %d): %s", r.Exit, msg)
		}
		if os.Getenv("VERIF_TABLE_BROKEN") != "" {
			out, err := compiles(t)
			if err != nil {
				fmt.Fprintln(os.Stderr, "ERROR:", err)
				os.Exit(2)
			}
			if out == "" {
				fmt.Fprintln(os.Stderr, "ERROR: the simulator does not build with the regenerated table, the library does")
				os.Exit(2)
			}
			return engine.V("table-does-not-compile", "the library does not compile with the regenerated table: %s", strings.Join(strings.Fields(out), " "))
		}
		if !bytes.Equal(t, regenTable) {
			return engine.V("unstable-table", "the regenerated table depends on how the data files are read: %d bytes, %d normally", len(t), len(regenTable))
		}
		c.Distinct(r.Digest)
		return nil
	}
	ck.Rule = "the first runs regenerate the table, each under a read schedule of its own, and compare it byte by byte with the one this binary was built with; the rest are those of C01 with the regenerated table: " + base.Rule
	ck.Real = append([]string{"textseg/internal/charprops/generate.go (main)", "textseg/internal/charprops/gentable", "textseg/internal/charprops/ucdparse", "the table they generate"}, base.Real...)
	ck.Stub = append([]string{"package os of the generator"}, base.Stub...)
	return &ck
}
