package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

func main() {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif, _ = os.Getwd()
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir := os.Getenv("VERIF_BUILD")
	if dir == "" {
		dir = filepath.Join(verif, ".build")
	}
	b, err := newBuilder(verif, repo, dir)
	if err != nil {
		die(err)
	}
	if len(os.Args) < 2 {
		die(fmt.Errorf("usage: simctl build|check ID|replay FILE"))
	}
	switch os.Args[1] {
	case "build":
		if err := b.build(true, true); err != nil {
			die(err)
		}
	case "check":
		os.Exit(b.check(os.Args[2]))
	case "replay":
		os.Exit(b.replay(os.Args[2]))
	case "selftest":
		n, _ := strconv.ParseUint(os.Args[2], 10, 64)
		os.Exit(b.selftest(n))
	default:
		die(fmt.Errorf("unknown command %q", os.Args[1]))
	}
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "simctl:", err)
	os.Exit(3)
}
