package main

import (
	"encoding/json"
	"os"

	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// subcommand runs helpers that are not scenario areas.
func subcommand(args []string) bool {
	if args[0] != "readindex" || len(args) < 3 {
		return false
	}
	// readindex DIR OUT: loads the dictionary as any program would, and tells which words it has
	words, err := indexWords(opencorpora.NewLoader(args[1]))
	b, _ := json.Marshal(Rec{"load": result(err), "words": words})
	if os.WriteFile(args[2], b, 0o644) != nil {
		os.Exit(3)
	}
	return true
}
