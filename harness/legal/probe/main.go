// The steps of internal/command for one target at a time. It is built inside
// the repository's module through an overlay.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/generator"
	"github.com/frk/gosql/internal/postgres"
	"github.com/frk/gosql/internal/search"
)

type verdict struct {
	Name, Err, Panic string
	Ok, Hang         bool
}

func main() {
	dir, dsn := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range os.Args[3:] {
		skip[s] = true
	}
	cfg := config.DefaultConfig
	db, err := postgres.Open(dsn)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	pkgs, err := search.Search(dir, false, nil)
	if err != nil || len(pkgs) == 0 {
		fmt.Fprintln(os.Stderr, "search:", err, len(pkgs))
		os.Exit(3)
	}
	enc := json.NewEncoder(os.Stdout)
	var mu sync.Mutex
	for _, pkg := range pkgs {
		for _, file := range pkg.Files {
			for _, m := range file.Matches {
				m := m
				v := &verdict{Name: m.Named.Obj().Name()}
				if skip[v.Name] {
					continue
				}
				done := make(chan bool, 1)
				go func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							v.Panic = fmt.Sprint("panic: ", r)
							mu.Unlock()
						}
						done <- true
					}()
					err := func() error {
						in, err := analysis.Run(pkg.Fset, m.Named, m.Pos, cfg)
						if err != nil {
							return err
						}
						ti, err := postgres.Check(db, in.Struct, in)
						if err != nil {
							return err
						}
						var buf bytes.Buffer
						if err := generator.Write(&buf, pkg.Name, []*postgres.TargetInfo{ti}, cfg); err != nil {
							return err
						}
						_, err = format.Source(buf.Bytes())
						if err != nil {
							return fmt.Errorf("format: %v", err)
						}
						return nil
					}()
					mu.Lock()
					v.Ok = err == nil
					if err != nil {
						v.Err = strings.TrimSpace(err.Error())
					}
					mu.Unlock()
				}()
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					v = &verdict{Name: v.Name, Hang: true}
					enc.Encode(v)
					os.Exit(4)
				}
				mu.Lock()
				enc.Encode(v)
				mu.Unlock()
			}
		}
	}
}
