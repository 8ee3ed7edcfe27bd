// Package simioutil stands in for package io/ioutil in the code under test.
package simioutil

import (
	"io/fs"

	"verif.local/simrt/disk"
	"verif.local/simrt/simos"
)

func ReadFile(name string) ([]byte, error)                 { return disk.ReadFile(name) }
func WriteFile(name string, _ []byte, _ fs.FileMode) error { return disk.Denied("write", name) }
func TempDir(dir, pattern string) (string, error)          { return "", disk.Denied("mkdir", pattern) }
func TempFile(dir, pattern string) (*simos.File, error)    { return nil, disk.Denied("create", pattern) }
func ReadDir(name string) ([]fs.FileInfo, error)           { return nil, disk.Denied("readdir", name) }
