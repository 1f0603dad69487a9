// Runs the methods of accepted descriptions against a driver that records the
// statement it is given, and has the database parse every statement.
package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"sync"
	"unsafe"

	"vlegal/p"

	"github.com/lib/pq"
)

var errRecorded = errors.New("recorded")

type rec struct {
	mu    sync.Mutex
	stmts []stmt
}
type stmt struct {
	Query string
	Args  int
}
type conn struct{ r *rec }

func (c conn) Open(string) (driver.Conn, error)             { return c, nil }
func (c conn) Connect(context.Context) (driver.Conn, error) { return c, nil }
func (c conn) Driver() driver.Driver                        { return c }
func (c conn) Prepare(q string) (driver.Stmt, error)        { return nil, errRecorded }
func (c conn) Close() error                                 { return nil }
func (c conn) Begin() (driver.Tx, error)                    { return nil, errRecorded }
func (c conn) note(q string, n int) {
	c.r.mu.Lock()
	c.r.stmts = append(c.r.stmts, stmt{q, n})
	c.r.mu.Unlock()
}
func (c conn) QueryContext(_ context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	c.note(q, len(a))
	return nil, errRecorded
}
func (c conn) ExecContext(_ context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	c.note(q, len(a))
	return nil, errRecorded
}

type noFilter struct{}

func (noFilter) ToSQL(int) (string, []interface{}) { return "", nil }

func fill(v reflect.Value, depth int) {
	if depth > 6 || !v.CanAddr() {
		return
	}
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if f, ok := reflect.TypeOf(noFilter{}), v.Kind() == reflect.Interface; ok {
		if f.Implements(v.Type()) {
			v.Set(reflect.ValueOf(noFilter{}))
		} else if c := reflect.TypeOf(context.Background()); c.Implements(v.Type()) && v.NumMethod() > 0 {
			v.Set(reflect.ValueOf(context.Background()))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		fill(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 1, 1)
		fill(s.Index(0), depth+1)
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(v.Field(i), depth+1)
		}
	}
}

type out struct {
	Name, Err, Panic, Bad string
	Stmts                 []stmt
}

func main() {
	real, err := sql.Open("postgres", os.Args[1])
	if err != nil {
		panic(err)
	}
	_ = pq.Driver{}
	real.SetMaxOpenConns(4)
	names := []string{}
	for n := range p.All {
		names = append(names, n)
	}
	sort.Strings(names)
	enc := json.NewEncoder(os.Stdout)
	for _, n := range names {
		o := out{Name: n}
		r := &rec{}
		db := sql.OpenDB(conn{r})
		func() {
			defer func() {
				if x := recover(); x != nil {
					o.Panic = fmt.Sprint(x)
				}
			}()
			q := p.All[n]()
			fill(reflect.ValueOf(q).Elem(), 0)
			if err := q.Exec(db); err != nil && !errors.Is(err, errRecorded) {
				o.Err = err.Error()
			}
		}()
		db.Close()
		o.Stmts = r.stmts
		for _, s := range r.stmts {
			st, err := real.Prepare(s.Query)
			if err != nil {
				o.Bad = err.Error()
				continue
			}
			// the number of arguments is checked by the driver before anything is sent
			x := make([]interface{}, s.Args+1)
			if _, err := st.Query(x...); err == nil || err.Error() != fmt.Sprintf("sql: expected %d arguments, got %d", s.Args, s.Args+1) {
				o.Bad = fmt.Sprintf("%d arguments: %v", s.Args, err)
			}
			st.Close()
		}
		enc.Encode(o)
	}
}
