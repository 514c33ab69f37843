package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

const harnessDir = "zz_verif_sim"

type builder struct {
	verif, repo, dir string
	goroot           string
	env              []string
	sites            []string
}

func newBuilder(verif, repo, dir string) (*builder, error) {
	b := &builder{verif: verif, repo: repo, dir: dir}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch {
		case strings.HasPrefix(k, "GO") && k != "GOROOT", k == "TZ", k == "CGO_ENABLED", k == "CC", k == "CXX":
			continue
		}
		b.env = append(b.env, kv)
	}
	b.env = append(b.env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOSUMDB=off",
		"GOCACHE="+filepath.Join(dir, "cache"), "GOTELEMETRY=off", "TZ=UTC", "GOAMD64=v1")
	if mc := os.Getenv("GOMODCACHE"); mc != "" {
		b.env = append(b.env, "GOMODCACHE="+mc)
	}
	if mc := os.Getenv("GOPATH"); mc != "" {
		b.env = append(b.env, "GOPATH="+mc)
	}
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = b.env
	cmd.Dir = verif
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go env GOROOT: %v", err)
	}
	b.goroot = strings.TrimSpace(string(out))
	return b, nil
}

func (b *builder) bin(race bool) string {
	if race {
		return filepath.Join(b.dir, "sim.race")
	}
	return filepath.Join(b.dir, "sim.plain")
}

// build builds the requested simulation binaries from the working tree.
func (b *builder) build(plain, race bool) error {
	var last error
	for split := 2; split >= 0; split-- {
		if last = b.buildWith(split, true, plain, race); last == nil {
			return nil
		}
		if _, ok := last.(*compileError); !ok {
			return last
		}
	}
	if err := b.buildWith(0, false, plain, race); err == nil {
		return nil
	}
	return last
}

type compileError struct{ msg string }

func (c *compileError) Error() string { return c.msg }

func (b *builder) buildWith(split int, resets, plain, race bool) error {
	gen := filepath.Join(b.dir, "gen")
	if err := os.RemoveAll(gen); err != nil {
		return err
	}
	overlay := map[string]string{}
	if err := patchGo(b.goroot, b.verif, gen, overlay); err != nil {
		return err
	}
	in := &instrumenter{split: split, resets: resets}
	if err := in.repo(b.repo, gen, b.env, overlay); err != nil {
		return err
	}
	b.sites = in.sites
	hs, err := filepath.Glob(filepath.Join(b.verif, "harness", "*.go"))
	if err != nil || len(hs) == 0 {
		return fmt.Errorf("no harness sources in %s", b.verif)
	}
	for _, h := range hs {
		overlay[filepath.Join(b.repo, harnessDir, filepath.Base(h))] = h
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	ov := filepath.Join(b.dir, "overlay.json")
	if err := writeFile(ov, string(js)); err != nil {
		return err
	}
	type res struct {
		err error
	}
	ch := make(chan res, 2)
	n := 0
	run := func(race bool) {
		n++
		go func() {
			args := []string{"build", "-overlay", ov, "-o", b.bin(race)}
			if race {
				args = append(args, "-race")
			}
			args = append(args, "./"+harnessDir)
			cmd := exec.Command("go", args...)
			cmd.Dir = b.repo
			cmd.Env = b.env
			if !race {
				cmd.Env = append(append([]string{}, b.env...), "CGO_ENABLED=0")
			}
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			t := time.Now()
			err := cmd.Run()
			if os.Getenv("SIM_VERBOSE") != "" {
				fmt.Fprintf(os.Stderr, "build race=%v %.1fs\n", race, time.Since(t).Seconds())
			}
			if err != nil {
				err = &compileError{fmt.Sprintf("go build failed: %v\n%s", err, tail(out.String(), 4000))}
			}
			ch <- res{err}
		}()
	}
	if plain {
		run(false)
	}
	if race {
		run(true)
	}
	var first error
	for i := 0; i < n; i++ {
		if r := <-ch; r.err != nil && first == nil {
			first = r.err
		}
	}
	return first
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
