// Package env holds what the generated filters of FilterGen.tla refer to, and the
// running of their behaviours.
package env

import (
	"database/sql"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
)

type Num int
type Str string
type J struct{ N int }
type Maker struct{ filter.Constructor }
type Row struct {
	Id int `sql:"id"`
}

// ConvNum takes the values of keys for Num columns down by a hundred.
func ConvNum(v any) (any, error) {
	switch n := v.(type) {
	case int64:
		return n - 100, nil
	case int:
		return n - 100, nil
	}
	return nil, fmt.Errorf("not a whole number: %T", v)
}

type Lit struct {
	Fam string
	V   int
}

// FQL renders a literal for a filter string.
func (l Lit) FQL() string {
	if l.Fam == "text" {
		return fmt.Sprintf("%q", Text(l.V))
	}
	return fmt.Sprint(l.V)
}

func Text(n int) string { return fmt.Sprintf("v%02d", n) }

var day0 = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// Into sets the pointed to variable to a literal's value.
func Into(p interface{}, l Lit) {
	v := reflect.ValueOf(p).Elem()
	switch t := v.Addr().Interface().(type) {
	case *sql.NullInt64:
		*t = sql.NullInt64{Int64: int64(l.V), Valid: true}
		return
	case *sql.NullString:
		*t = sql.NullString{String: Text(l.V), Valid: true}
		return
	case *time.Time:
		*t = day0.AddDate(0, 0, l.V)
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int16:
		v.SetInt(int64(l.V))
	case reflect.String:
		v.SetString(Text(l.V))
	case reflect.Slice:
		for k := 0; k < 2; k++ {
			e := reflect.New(v.Type().Elem()).Elem()
			e.SetInt(int64(l.V))
			v.Set(reflect.Append(v, e))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(reflect.ValueOf("N"), reflect.ValueOf(l.V))
	case reflect.Interface:
		v.Set(reflect.ValueOf(map[string]int{"N": l.V}))
	case reflect.Struct:
		v.Field(0).SetInt(int64(l.V))
	default:
		panic("no value for " + v.Type().String())
	}
}

// DDL makes the table of the specification.
func DDL() string {
	var cols []string
	rows := make([]string, 52)
	for r := range rows {
		rows[r] = fmt.Sprint(r + 1)
	}
	cols = append(cols, "id int primary key")
	add := func(name, typ string, n int, nullable bool, lit func(v int) string) {
		if !nullable {
			typ += " not null"
		}
		cols = append(cols, name+" "+typ)
		for r := range rows {
			v := n * (r + 1) % 53
			if nullable && v == 26 {
				rows[r] += ", null"
			} else {
				rows[r] += ", " + lit(v)
			}
		}
	}
	num := func(v int) string { return fmt.Sprint(v) }
	txt := func(v int) string { return "'" + Text(v) + "'" }
	for p, pfx := range []string{"", "x_", "y_", "x_x_", "x_y_", "y_x_", "y_y_"} {
		n := 2 + p*7
		add(pfx+"k", "int", n, true, num)
		add(pfx+"m", "int", n+1, false, num)
		add(pfx+"t", "text", n+2, true, txt)
		add(pfx+"u", "text", n+3, false, txt)
		add(pfx+"a", "int[]", n+4, true, func(v int) string { return fmt.Sprintf("'{%d,%d}'", v, v) })
		add(pfx+"j", "jsonb", n+5, true, func(v int) string { return fmt.Sprintf(`'{"N": %d}'`, v) })
		add(pfx+"d", "timestamptz", n+6, true, func(v int) string { return day0.AddDate(0, 0, v).Format("'2006-01-02 15:04:05+00'") })
	}
	add(`"Odd"`, "int", 51, true, num)
	add("doc1", "tsvector", 1, false, func(v int) string { return fmt.Sprintf("'w%02d'", v) })
	add("doc2", "tsvector", 5, false, func(v int) string { return fmt.Sprintf("'w%02d'", v) })
	return "drop table if exists rel_f; create table rel_f (" + strings.Join(cols, ", ") + ");\ninsert into rel_f values (" + strings.Join(rows, "),\n(") + ");\n"
}

type Step struct {
	A         string
	Key, Key2 string
	Desc      bool
	Lit, Lit2 Lit
}

type Out struct {
	Err   string
	Rows  []int
	Panic string
	SQL   string
}

// Target is what the glue knows of one generated filter type.
type Target struct {
	New     func() (f interface{}, c *filter.Constructor, b Bools)
	Query   func(c gosql.Conn, f gosql.Filter) ([]int, error)
	Methods map[string]func(f interface{}, l Lit)
}

type Bools struct{ And, Or func(func(interface{})) }

var Targets = map[int]Target{}

// Run executes one behaviour.
func Run(conn gosql.Conn, d int, steps []Step) (o Out) {
	t := Targets[d]
	defer func() {
		if r := recover(); r != nil {
			o.Panic = fmt.Sprint(r)
		}
	}()
	f, c, b := t.New()
	c.StrictSwitch()
	fail := func(err error) bool {
		if err == nil {
			return false
		}
		o.Err = err.Error()
		if _, ok := err.(filter.UnknownColumnKeyError); ok {
			o.Err = "unknown"
		}
		return true
	}
	ordered := false
	for _, s := range steps {
		switch s.A {
		case "fql":
			if strings.Contains(s.Key, "-") {
				o.Err = "n/a"
				return o
			}
			if fail(c.UnmarshalFQL(s.Key + ":" + s.Lit.FQL())) {
				return o
			}
		case "sort":
			k := s.Key
			if s.Desc {
				k = "-" + k
			}
			if fail(c.UnmarshalSort(k)) {
				return o
			}
			ordered = true
		case "call":
			t.Methods[s.Key](f, s.Lit)
		case "or":
			t.Methods[s.Key](f, s.Lit)
			b.Or(nil)
			t.Methods[s.Key2](f, s.Lit2)
		case "and":
			t.Methods[s.Key](f, s.Lit)
			b.And(nil)
			t.Methods[s.Key2](f, s.Lit2)
		case "nestor":
			// (m1 OR (m2))
			b.And(func(g interface{}) {
				t.Methods[s.Key](g, s.Lit)
				b.Or(func(h interface{}) { t.Methods[s.Key2](h, s.Lit2) })
			})
		case "nestand":
			t.Methods[s.Key](f, s.Lit)
			b.And(func(g interface{}) { t.Methods[s.Key2](g, s.Lit2) })
		case "method":
			_ = t.Methods[s.Key] // it compiled
			return o
		case "nomethod":
			if _, ok := reflect.TypeOf(f).MethodByName(s.Key); ok {
				o.Err = "method " + s.Key
			}
			return o
		case "search":
			c.TextSearch(s.Key)
		}
	}
	o.SQL, _ = c.Filter().ToSQL(0)
	rows, err := t.Query(conn, c.Filter())
	if fail(err) {
		return o
	}
	if !ordered {
		sort.Ints(rows)
	}
	o.Rows = rows
	return o
}
