package main

import (
	"bytes"
	"os"
	"path/filepath"
	"time"

	"github.com/amarin/libxml"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// compileArea compiles documents with the real loader, in a scratch directory of its own.
type compileArea struct {
	*indexArea
	dir    string
	loader *opencorpora.Loader
}

func init() {
	areas["compile"] = func() area {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "compile-")
		if err != nil {
			panic(err)
		}
		a := areas["index"]().(*indexArea)
		return &compileArea{indexArea: a, dir: dir, loader: opencorpora.NewLoader(dir)}
	}
}

func (a *compileArea) do(rec Rec) {
	source := filepath.Join(a.dir, opencorpora.LocalUnpackedFilename)
	compiled := filepath.Join(a.dir, opencorpora.LocalCompiledFilename)
	switch rec.str("op") {
	case "compile":
		if err := os.WriteFile(source, rec.bytes("src"), 0o644); err != nil {
			panic(err)
		}
		delete(rec, "src")
		before, beforeErr := os.ReadFile(compiled)
		rec["before"] = beforeErr == nil
		if ms, at := rec.num("pause", 0), rec.num("at", 0); ms > 0 { // reading takes its time
			libxml.Before = func() {
				if at--; at == 0 {
					time.Sleep(time.Duration(ms) * time.Millisecond)
				}
			}
		}
		err := a.loader.ParseUpdate(source, compiled)
		libxml.Before = nil
		after, afterErr := os.ReadFile(compiled)
		switch {
		case afterErr != nil:
			rec["after"] = "absent"
		case beforeErr == nil && bytes.Equal(before, after):
			rec["after"] = "same"
		default:
			rec["after"] = "changed"
		}
		rec["res"] = result(err)
		if err == nil {
			rec["sum"] = sumOf(after)
		}
		if err != nil {
			rec["msg"] = short(err.Error())
		}
	case "removecompiled":
		_ = os.Remove(compiled)
		rec["res"] = "ok"
	case "loadindex":
		idx, err := a.loader.LoadIndex()
		rec["res"] = result(err)
		if err == nil {
			a.handles[rec.str("h")] = idx
		} else {
			a.handles[rec.str("h")] = index.New()
		}
	default:
		a.indexArea.do(rec)
	}
}

func short(s string) string {
	if len(s) > 120 {
		return s[:120]
	}
	return s
}
