// Replays behaviours of FilterGen.tla on generated filters.
package main

import (
	"bufio"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"sync"

	_ "github.com/lib/pq"

	_ "vfg/all"
	"vfg/env"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "ddl" {
		fmt.Print(env.DDL())
		return
	}
	db, err := sql.Open("postgres", "dbname=fg sslmode=disable")
	if err != nil {
		panic(err)
	}
	db.SetMaxOpenConns(12)
	db.SetMaxIdleConns(12)
	type job struct {
		D     int
		Steps []env.Step
	}
	var jobs []job
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var j job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		jobs = append(jobs, j)
	}
	outs := make([]env.Out, len(jobs))
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 12; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range ch {
				outs[n] = env.Run(db, jobs[n].D, jobs[n].Steps)
			}
		}()
	}
	for n := range jobs {
		ch <- n
	}
	close(ch)
	wg.Wait()
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	e := json.NewEncoder(w)
	for _, o := range outs {
		_ = e.Encode(o)
	}
}
