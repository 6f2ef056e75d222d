package main

import (
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// pathsArea works in a scratch directory of its own, made in $VERIF_SCRATCH at every reset.
type pathsArea struct{ root string }

func init() { areas["paths"] = func() area { return &pathsArea{} } }

func (a *pathsArea) reset(rec Rec) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		rec["res"] = "err"
		return
	}
	root, err := os.MkdirTemp(base, "paths-")
	if err == nil {
		root, err = filepath.EvalSymlinks(root)
	}
	if err == nil {
		err = os.Chdir(root)
	}
	rec["res"] = result(err)
	a.root = root
	rec["root"] = bytesOf(root)
}

// arg makes a path of its components; an absolute one starts from the scratch directory.
func (a *pathsArea) arg(rec Rec, key string) string {
	m, _ := rec[key].(map[string]any)
	p := Rec(m)
	parts := make([]string, 0)
	for _, c := range p.lists("c") {
		parts = append(parts, string(toBytes(c)))
	}
	s := strings.Join(parts, "/")
	if p.flag("abs") {
		s = a.root + "/" + s
	}
	if p.flag("slash") {
		s += "/"
	}
	return s
}

func (a *pathsArea) do(rec Rec) {
	rec["res"] = "ok"
	switch rec.str("op") {
	case "mkdir":
		rec["res"] = result(os.Mkdir(a.arg(rec, "p"), 0o755))
	case "file":
		f, err := os.OpenFile(a.arg(rec, "p"), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
		if err == nil {
			err = f.Close()
		}
		rec["res"] = result(err)
	case "link":
		rec["res"] = result(os.Symlink(a.arg(rec, "to"), a.arg(rec, "p")))
	case "cd":
		rec["res"] = result(os.Chdir(a.arg(rec, "p")))
	case "resolve":
		dir, name, ext, err := dag.ResolveFilePath(a.arg(rec, "p"))
		rec["res"] = result(err)
		if err == nil {
			rec["dir"], rec["name"], rec["ext"] = bytesOf(dir), bytesOf(name), bytesOf(ext)
		}
	case "where":
		d, f := a.arg(rec, "d"), a.arg(rec, "f")
		rec["data"], rec["domain"], rec["file"] = bytesOf(common.GetDataPath()), bytesOf(common.DomainDataPath(d)), bytesOf(common.DomainFilePath(d, f))
	case "loader": // made for a directory, or told another one
		loader := opencorpora.NewLoader(a.arg(rec, "d"))
		if rec.has("was") {
			loader = opencorpora.NewLoader(a.arg(rec, "was"))
			loader.SetDataPath(a.arg(rec, "d"))
		}
		rec["dir"] = bytesOf(loader.DataPath())
		rec["has"] = []bool{loader.IsDownloadExists(), loader.IsUnpackedExists()}
		rec["names"] = [][]int{bytesOf(opencorpora.LocalSourceFilename), bytesOf(opencorpora.LocalUnpackedFilename)}
	case "mkdomain":
		rec["res"] = result(common.MakeDomainDataPath(a.arg(rec, "d")))
	case "tree":
		out := make([][]any, 0)
		err := filepath.WalkDir(a.root, func(path string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			kind := "file"
			if d.IsDir() {
				kind = "dir"
			} else if d.Type()&fs.ModeSymlink != 0 {
				kind = "link"
			}
			if path != a.root {
				out = append(out, []any{bytesOf(path[len(a.root)+1:]), kind})
			}
			return nil
		})
		rec["res"], rec["out"] = result(err), out
	default:
		rec["res"] = "unknown"
	}
}
