// Package simfilepath stands in for package path/filepath in the table
// generator: what looks at a file system looks at the simulated one.
package simfilepath

import (
	"io/fs"
	"path/filepath"
	"strings"

	"verifsim/simos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipAll       = filepath.SkipAll
	SkipDir       = filepath.SkipDir
)

type WalkFunc = filepath.WalkFunc

func Base(p string) string                  { return filepath.Base(p) }
func Clean(p string) string                 { return filepath.Clean(p) }
func Dir(p string) string                   { return filepath.Dir(p) }
func Ext(p string) string                   { return filepath.Ext(p) }
func FromSlash(p string) string             { return filepath.FromSlash(p) }
func HasPrefix(p, prefix string) bool       { return strings.HasPrefix(p, prefix) }
func IsAbs(p string) bool                   { return filepath.IsAbs(p) }
func IsLocal(p string) bool                 { return filepath.IsLocal(p) }
func Join(e ...string) string               { return filepath.Join(e...) }
func Localize(p string) (string, error)     { return filepath.Localize(p) }
func Match(pat, name string) (bool, error)  { return filepath.Match(pat, name) }
func Rel(base, targ string) (string, error) { return filepath.Rel(base, targ) }
func Split(p string) (string, string)       { return filepath.Split(p) }
func SplitList(p string) []string           { return filepath.SplitList(p) }
func ToSlash(p string) string               { return filepath.ToSlash(p) }
func VolumeName(p string) string            { return filepath.VolumeName(p) }

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := simos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

// EvalSymlinks: there are no links here.
func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Lstat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := simos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	dir = strings.TrimSuffix(dir, "/")
	if dir == "" {
		dir = "."
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		es, err := simos.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := filepath.Match(file, e.Name()); ok {
				out = append(out, filepath.Join(d, e.Name()))
			}
		}
	}
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		fi, e := d.Info()
		if err == nil {
			err = e
		}
		return fn(p, fi, err)
	})
}
