// Package simfilepath is path/filepath over the simulated file system.
package simfilepath

import (
	"io/fs"
	"path/filepath"
	"strings"

	os "github.com/hymkor/gmnlisp/zz_verif/simos"
)

// Glob is the algorithm of path/filepath.
func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	if !hasMeta(dir) {
		return glob(dir, file, nil)
	}
	if dir == pattern {
		return nil, filepath.ErrBadPattern
	}
	ds, err := Glob(dir)
	if err != nil {
		return nil, err
	}
	var matches []string
	for _, d := range ds {
		if matches, err = glob(d, file, matches); err != nil {
			break
		}
	}
	return matches, err
}

func hasMeta(p string) bool { return strings.ContainsAny(p, `*?[\`) }

func glob(dir, pattern string, m []string) ([]string, error) {
	fi, err := os.Stat(dir)
	if err != nil || !fi.IsDir() {
		return m, nil
	}
	d, err := os.Open(dir)
	if err != nil {
		return m, nil
	}
	defer d.Close()
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		ok, err := filepath.Match(pattern, e.Name())
		if err != nil {
			return m, err
		}
		if ok {
			m = append(m, filepath.Join(dir, e.Name()))
		}
	}
	return m, nil
}

func Abs(p string) (string, error) { return os.Abs(p), nil }
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return fs.WalkDir(os.AsFS(strings.HasPrefix(root, "/")), strings.TrimPrefix(root, "/"), fn)
}
