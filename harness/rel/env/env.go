// Package env holds the record types of the descriptions of RelGen.tla and moves
// values between the specification's coding and Go fields.
//
// A value is a list of integers: [n] an integer, [0]/[1] a boolean, character codes
// a text, [-999] NULL; a list field is a list of values, [[-999],[-999]] the nil list.
package env

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/frk/gosql"
)

type Val []int
type Args map[string]json.RawMessage
type Row map[string]Val

func (a *Args) UnmarshalJSON(b []byte) error {
	if bytes.HasPrefix(b, []byte("[")) { // the empty function
		*a = Args{}
		return nil
	}
	m := map[string]json.RawMessage{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*a = m
	return nil
}

// Out is what one execution showed.
type Out struct {
	Err    string
	Rows   []Row
	Given  []Row // records as they were left in the input
	Count  *int64
	Yes    *bool
	Panic  string
	Issued []Issued
	DB     map[string][]Row
}

type Issued struct {
	Query string
	Args  int
	Marks []int // the placeholders, each once, ascending
}

// Marks finds the placeholders of a statement outside quotes and comments.
func Marks(q string) []int {
	set := map[int]bool{}
	for i := 0; i < len(q); i++ {
		switch {
		case q[i] == '\'' || q[i] == '"':
			for c := q[i]; i+1 < len(q); {
				i++
				if q[i] == c {
					break
				}
			}
		case q[i] == '-' && i+1 < len(q) && q[i+1] == '-':
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case q[i] == '$':
			n := 0
			for i+1 < len(q) && q[i+1] >= '0' && q[i+1] <= '9' {
				i++
				n = n*10 + int(q[i]-'0')
			}
			set[n] = true
		}
	}
	out := []int{}
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// The error handlers descriptions are decorated with.
type EH struct{}

func (EH) HandleError(err error) error { return err }

type EIH struct{}

func (EIH) HandleErrorInfo(i *gosql.ErrorInfo) error { return i.Error }

// Connections a method can be told to take.
type Conn interface{ gosql.Conn }

type DB struct{ gosql.Conn }

type Ctx struct {
	C gosql.Conn
	A Args
	R json.RawMessage
	O *Out
}

func IsNull(v Val) bool { return len(v) == 1 && v[0] == -999 }

func text(v Val) string {
	var b []rune
	for _, c := range v {
		b = append(b, rune(c))
	}
	return string(b)
}

// Set stores a coded value into a Go variable.
func Set(ptr interface{}, raw json.RawMessage) {
	if raw == nil {
		panic("no value for a field")
	}
	set(reflect.ValueOf(ptr).Elem(), raw)
}

func set(d reflect.Value, raw json.RawMessage) {
	if d.Kind() == reflect.Slice && d.Type().Elem().Kind() != reflect.Uint8 {
		var vs []Val
		must(json.Unmarshal(raw, &vs))
		if len(vs) == 2 && IsNull(vs[0]) && IsNull(vs[1]) {
			d.Set(reflect.Zero(d.Type()))
			return
		}
		d.Set(reflect.MakeSlice(d.Type(), len(vs), len(vs)))
		for i, v := range vs {
			setVal(d.Index(i), v)
		}
		return
	}
	var v Val
	must(json.Unmarshal(raw, &v))
	setVal(d, v)
}

func setVal(d reflect.Value, v Val) {
	switch x := d.Addr().Interface().(type) {
	case *J:
		x.N = v[0]
		return
	case *sql.NullInt64:
		x.Valid = !IsNull(v)
		if x.Valid {
			x.Int64 = int64(v[0])
		}
		return
	case *sql.NullString:
		x.Valid = !IsNull(v)
		if x.Valid {
			x.String = text(v)
		}
		return
	case *sql.NullBool:
		x.Valid = !IsNull(v)
		if x.Valid {
			x.Bool = v[0] == 1
		}
		return
	}
	switch d.Kind() {
	case reflect.Ptr:
		if IsNull(v) {
			d.Set(reflect.Zero(d.Type()))
			return
		}
		p := reflect.New(d.Type().Elem())
		setVal(p.Elem(), v)
		d.Set(p)
	case reflect.String:
		d.SetString(text(v))
	case reflect.Slice: // []byte
		d.SetBytes([]byte(text(v)))
	case reflect.Bool:
		d.SetBool(v[0] == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.SetInt(int64(v[0]))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.SetUint(uint64(v[0]))
	default:
		panic(fmt.Sprintf("cannot set %s", d.Type()))
	}
}

func get(d reflect.Value) Val {
	switch x := d.Interface().(type) {
	case J:
		return Val{x.N}
	case sql.NullInt64:
		if !x.Valid {
			return Val{-999}
		}
		return Val{int(x.Int64)}
	case sql.NullString:
		if !x.Valid {
			return Val{-999}
		}
		return get(reflect.ValueOf(x.String))
	case sql.NullBool:
		if !x.Valid {
			return Val{-999}
		}
		return get(reflect.ValueOf(x.Bool))
	}
	switch d.Kind() {
	case reflect.Ptr:
		if d.IsNil() {
			return Val{-999}
		}
		return get(d.Elem())
	case reflect.String:
		v := Val{}
		for _, r := range d.String() {
			v = append(v, int(r))
		}
		return v
	case reflect.Slice:
		return get(reflect.ValueOf(string(d.Bytes())))
	case reflect.Bool:
		if d.Bool() {
			return Val{1}
		}
		return Val{0}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Val{int(d.Int())}
	default:
		return Val{int(d.Uint())}
	}
}

// Canon is the record's content by column.
func Canon(rec interface{}) Row {
	r := Row{}
	if v := reflect.ValueOf(rec); v.Kind() == reflect.Ptr && v.IsNil() {
		return nil
	}
	canon(reflect.Indirect(reflect.ValueOf(rec)), "", r)
	return r
}

func canon(v reflect.Value, prefix string, r Row) {
	for i := 0; i < v.NumField(); i++ {
		tag := strings.Split(v.Type().Field(i).Tag.Get("sql"), ",")[0]
		if tag == "" || tag == "-" {
			continue
		}
		f := v.Field(i)
		if tag[0] == '>' {
			if f.Kind() == reflect.Ptr {
				if f.IsNil() {
					continue
				}
				f = f.Elem()
			}
			canon(f, prefix+tag[1:], r)
			continue
		}
		r[prefix+tag] = get(f)
	}
}

// Fill sets a record's fields from values by column.
func Fill(rec interface{}, raw json.RawMessage) {
	r := Row{}
	must(json.Unmarshal(raw, &r))
	fill(reflect.ValueOf(rec).Elem(), "", r)
}

func fill(v reflect.Value, prefix string, r Row) {
	for i := 0; i < v.NumField(); i++ {
		tag := strings.Split(v.Type().Field(i).Tag.Get("sql"), ",")[0]
		if tag == "" || tag == "-" {
			continue
		}
		f := v.Field(i)
		if tag[0] == '>' {
			if f.Kind() == reflect.Ptr {
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			fill(f, prefix+tag[1:], r)
			continue
		}
		if x, ok := r[prefix+tag]; ok {
			setVal(f, x)
		}
	}
}

// FillAll sets a record, a pointer to one, or a slice of either, from a value or list of values.
func FillAll(dst interface{}, raw json.RawMessage) {
	d := reflect.ValueOf(dst).Elem()
	if d.Kind() == reflect.Slice {
		var rs []json.RawMessage
		must(json.Unmarshal(raw, &rs))
		d.Set(reflect.MakeSlice(d.Type(), len(rs), len(rs)))
		for i, r := range rs {
			fillOne(d.Index(i), r)
		}
		return
	}
	var rs []json.RawMessage
	must(json.Unmarshal(raw, &rs))
	fillOne(d, rs[0])
}

func fillOne(d reflect.Value, raw json.RawMessage) {
	if d.Kind() == reflect.Ptr {
		d.Set(reflect.New(d.Type().Elem()))
		d = d.Elem()
	}
	Fill(d.Addr().Interface(), raw)
}

// Rows is the content of a slice of records.
func Rows(recs interface{}) []Row {
	v := reflect.ValueOf(recs)
	out := []Row{}
	if v.Kind() != reflect.Slice {
		return append(out, Canon(recs))
	}
	for i := 0; i < v.Len(); i++ {
		out = append(out, Canon(v.Index(i).Interface()))
	}
	return out
}

func (x *Ctx) Give(rec interface{}) error {
	x.O.Rows = append(x.O.Rows, Canon(rec))
	return nil
}

func (x *Ctx) Err(err error) bool {
	if err != nil {
		x.O.Err = err.Error()
		return true
	}
	return false
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Filt is a hand-written filter: a range of one column, or nothing.
type Filt struct {
	Col      string
	Min, Max int
	Tail     string
}

func (f Filt) ToSQL(pos int) (string, []interface{}) {
	if f.Col == "" {
		return f.Tail, nil
	}
	return fmt.Sprintf(" WHERE %[1]s >= $%[2]d AND %[1]s < $%[3]d%[4]s", f.Col, pos+1, pos+2, f.Tail), []interface{}{f.Min, f.Max}
}

// J is kept in json and xml columns.
type J struct{ N int }

type Flag bool

// ---------------------------------------------------------------- records

type RecP struct {
	Id *int    `sql:"id"`
	A  *int    `sql:"a"`
	B  *int    `sql:"b"`
	S  *string `sql:"s"`
	C  *string `sql:"c"`
	F  *bool   `sql:"f"`
}

type RecV struct {
	Id int    `sql:"id"`
	A  int    `sql:"a"`
	B  int    `sql:"b"`
	S  string `sql:"s"`
	C  string `sql:"c"`
	F  bool   `sql:"f"`
}

type Text string
type Num int32

// RecN has structs whose names run together the same way along two paths.
type RecN struct {
	F    sql.NullBool   `sql:"f"`
	Id   int64          `sql:"id"`
	Sub  *RecNSub       `sql:">"`
	SubC RecNSubC       `sql:">"`
	S    sql.NullString `sql:"s"`
	Not  string         `sql:"-"`
	A    sql.NullInt64  `sql:"a"`
}

type RecNSub struct {
	CIn *RecNB `sql:">"`
}

type RecNSubC struct {
	In *RecNC `sql:">"`
}

type RecNB struct {
	B Num `sql:"b"`
}

type RecNC struct {
	C Text `sql:"c"`
}
