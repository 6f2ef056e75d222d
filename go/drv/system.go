package main

import (
	"os"
	"path/filepath"
)

// systemArea is the updater and the console in one directory.
type systemArea struct {
	updateArea
	con consoleArea
}

func init() { areas["system"] = func() area { return &systemArea{} } }

func (a *systemArea) reset(rec Rec) {
	a.updateArea.reset(rec)
	a.con = consoleArea{dir: a.root, dat: filepath.Join(a.dir, dataFiles["dat"])}
	a.con.reset(rec)
	_ = os.MkdirAll(a.dir, 0o755)
}

func (a *systemArea) do(rec Rec) {
	switch rec.str("op") {
	case "start", "line", "eof":
		a.con.do(rec)
	default:
		a.updateArea.do(rec)
	}
}
