// Replays behaviours of Read.tla, Write.tla and Insert.tla: puts the database into
// the state the specification starts from, runs the generated method, reports what it
// issued, returned and left behind.
package main

import (
	"bufio"
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	_ "github.com/lib/pq"

	"vrel/env"
	"vrel/q"
)

type trace struct {
	D    int
	DB   map[string][]env.Row
	Args env.Args
	Recs json.RawMessage
	N    int
}

var cols = map[string][]string{
	"t": {"id", "a", "b", "s", "c", "f"}, "u": {"id", "t_id", "w", "g"}, "v": {"id", "u_id", "k"},
	"ck": {"x", "y", "n", "m"}, "e": {"id", "p", "w_q", "w_z", "j", "xm"}, "g": {"id", "a"},
}
var names = []string{"t", "u", "v", "ck", "e", "g"}
var texts = map[string]bool{"s": true, "c": true, "g": true, "n": true, "p": true}
var shown = map[string]string{"j": "j->>'N'", "xm": "(xpath('/J/N/text()', case when xm is document then xm end))[1]::text"}

func lit(col string, v env.Val) string {
	if env.IsNull(v) {
		return "NULL"
	}
	switch {
	case texts[col]:
		b := ""
		for _, c := range v {
			b += string(rune(c))
		}
		return "'" + strings.ReplaceAll(b, "'", "''") + "'"
	case col == "f":
		return fmt.Sprint(v[0] == 1)
	case col == "j":
		return fmt.Sprintf(`'{"N":%d}'`, v[0])
	case col == "xm":
		return fmt.Sprintf("'<J><N>%d</N></J>'", v[0])
	}
	return fmt.Sprint(v[0])
}

func load(tx *sql.Tx, db map[string][]env.Row) error {
	stmt := ""
	for _, t := range names {
		stmt += "delete from rel_" + t + ";"
	}
	for _, t := range names {
		for _, r := range db[t] {
			var vs []string
			for _, c := range cols[t] {
				vs = append(vs, lit(c, r[c]))
			}
			stmt += fmt.Sprintf("insert into rel_%s (%s) overriding system value values (%s);", t, strings.Join(cols[t], ","), strings.Join(vs, ","))
		}
	}
	for _, t := range []string{"t", "e", "g"} {
		stmt += "select setval('rel_" + t + "_id_seq', 100, true);"
	}
	_, err := tx.Exec(stmt)
	return err
}

func dump(tx *sql.Tx) (map[string][]env.Row, error) {
	out := map[string][]env.Row{}
	for _, t := range names {
		out[t] = []env.Row{}
		var xs []string
		for _, c := range cols[t] {
			if x := shown[c]; x != "" {
				c = x
			}
			xs = append(xs, c)
		}
		rows, err := tx.Query("select " + strings.Join(xs, ",") + " from rel_" + t + " order by 1, 2")
		if err != nil {
			return nil, err
		}
		for rows.Next() {
			vals := make([]interface{}, len(cols[t]))
			for i := range vals {
				vals[i] = new(sql.RawBytes)
			}
			if err := rows.Scan(vals...); err != nil {
				return nil, err
			}
			r := env.Row{}
			for i, c := range cols[t] {
				b := *vals[i].(*sql.RawBytes)
				switch {
				case b == nil:
					r[c] = env.Val{-999}
				case texts[c]:
					v := env.Val{}
					for _, x := range string(b) {
						v = append(v, int(x))
					}
					r[c] = v
				case c == "f":
					if string(b) == "true" {
						r[c] = env.Val{1}
					} else {
						r[c] = env.Val{0}
					}
				default:
					n := 0
					fmt.Sscan(string(b), &n)
					r[c] = env.Val{n}
				}
			}
			out[t] = append(out[t], r)
		}
		if err := rows.Close(); err != nil {
			return nil, err
		}
	}
	return out, nil
}

// conn notes every statement and its argument count.
type conn struct {
	tx *sql.Tx
	o  *env.Out
}

func (c *conn) note(q string, args []interface{}) {
	c.o.Issued = append(c.o.Issued, env.Issued{Query: q, Args: len(args), Marks: env.Marks(q)})
}
func (c *conn) Exec(q string, args ...interface{}) (sql.Result, error) {
	c.note(q, args)
	return c.tx.Exec(q, args...)
}
func (c *conn) ExecContext(x context.Context, q string, args ...interface{}) (sql.Result, error) {
	c.note(q, args)
	return c.tx.ExecContext(x, q, args...)
}
func (c *conn) Query(q string, args ...interface{}) (*sql.Rows, error) {
	c.note(q, args)
	return c.tx.Query(q, args...)
}
func (c *conn) QueryContext(x context.Context, q string, args ...interface{}) (*sql.Rows, error) {
	c.note(q, args)
	return c.tx.QueryContext(x, q, args...)
}
func (c *conn) QueryRow(q string, args ...interface{}) *sql.Row {
	c.note(q, args)
	return c.tx.QueryRow(q, args...)
}
func (c *conn) QueryRowContext(x context.Context, q string, args ...interface{}) *sql.Row {
	c.note(q, args)
	return c.tx.QueryRowContext(x, q, args...)
}

func one(db *sql.DB, t *trace) (o *env.Out) {
	o = new(env.Out)
	tx, err := db.Begin()
	if err != nil {
		panic(err)
	}
	defer tx.Rollback()
	if err := load(tx, t.DB); err != nil {
		panic(err)
	}
	if _, err := tx.Exec("savepoint s"); err != nil {
		panic(err)
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				o.Panic = fmt.Sprint(p)
			}
		}()
		f := q.Runs[t.D]
		if f == nil {
			o.Panic = "not generated"
			return
		}
		f(&env.Ctx{C: &conn{tx, o}, A: t.Args, R: t.Recs, O: o})
	}()
	if o.Panic != "" {
		return o // a statement may be under way
	}
	if o.Err != "" {
		if _, err := tx.Exec("rollback to savepoint s"); err != nil {
			panic(err)
		}
	}
	if o.DB, err = dump(tx); err != nil {
		panic(err)
	}
	return o
}

func main() {
	workers := 6
	var traces []*trace
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	for in.Scan() {
		t := new(trace)
		if err := json.Unmarshal(in.Bytes(), t); err != nil {
			panic(err)
		}
		t.N = len(traces)
		traces = append(traces, t)
	}
	// the traces of one description stay together
	sort.SliceStable(traces, func(i, j int) bool { return traces[i].D < traces[j].D })
	outs := make([]*env.Out, len(traces))
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var db *sql.DB
			for i := w; i < len(traces); i += workers {
				if db == nil {
					var err error
					if db, err = sql.Open("postgres", fmt.Sprintf("postgres:///rel%d?sslmode=disable", w)); err != nil {
						panic(err)
					}
					db.SetMaxOpenConns(1)
				}
				outs[traces[i].N] = one(db, traces[i])
				if outs[traces[i].N].Panic != "" {
					go db.Close()
					db = nil
				}
			}
		}(w)
	}
	wg.Wait()
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for _, o := range outs {
		enc.Encode(o)
	}
	out.Flush()
}
