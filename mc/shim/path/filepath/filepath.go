// Package filepath resolves against the virtual working directory and file system.
package filepath

import (
	"io/fs"
	real "path/filepath"

	vos "verif/mc/shim/os"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := vos.Getwd()
	return real.Join(wd, p), err
}

func EvalSymlinks(p string) (string, error) {
	q, err := vos.Resolved(p)
	if err != nil {
		return "", err
	}
	if !real.IsAbs(p) {
		if wd, e := vos.Getwd(); e == nil {
			if r, e := real.Rel(wd, q); e == nil {
				return r, nil
			}
		}
	}
	return q, nil
}

func walk(p string, d fs.DirEntry, f fs.WalkDirFunc) error {
	if err := f(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := vos.ReadDir(p)
	if err != nil {
		if err = f(p, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(real.Join(p, e.Name()), e, f); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, f fs.WalkDirFunc) error {
	i, err := vos.Lstat(root)
	if err != nil {
		err = f(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), f)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func Walk(root string, f real.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return f(p, nil, err)
		}
		i, _ := d.Info()
		return f(p, i, err)
	})
}

func Glob(pattern string) ([]string, error) {
	dir, pat := real.Split(pattern)
	if dir == "" {
		dir = "."
	}
	es, err := vos.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range es {
		if ok, err := real.Match(pat, e.Name()); err != nil {
			return nil, err
		} else if ok {
			out = append(out, real.Join(dir, e.Name()))
		}
	}
	return out, nil
}
