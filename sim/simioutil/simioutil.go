// Package simioutil stands in for package io/ioutil in the table generator.
package simioutil

import (
	"io"
	"io/fs"

	"verifsim/simos"
)

var Discard io.Writer = io.Discard

func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return simos.WriteFile(name, data, perm)
}
func TempDir(dir, pattern string) (string, error)       { return simos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
func ReadDir(dir string) ([]fs.FileInfo, error) {
	l, err := simos.ReadDir(dir)
	var o []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		o = append(o, i)
	}
	return o, err
}
