// Runs the histories of Pairs.tla through the methods generated for every pair of a column and a Go type.
package main

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/frk/gosql"

	"vcodec/ent"
)

// generated holds the pairs of this run; it is filled by a file that is written for it.
var generated []ent.Entry

type querier interface{ Exec(gosql.Conn) error }

type ask struct {
	Op  string
	Xs  []string
	Ids []int
}
type step struct {
	How  string
	ID   int
	X    string
	Rows []string
	Asks []ask
}

// held is a value of a column, in the type of the field.
type held struct {
	tr    *trace
	whole string
	val   reflect.Value
	zero  bool // of a field that cannot be nil: may be kept as NULL
}

// zeros are the texts of the values that are kept as NULL by fields that cannot be nil.
var clock = map[string]bool{"date": true, "time": true, "timetz": true, "timestamp": true, "timestamptz": true}

var zeros = map[string][]string{
	"bit": {"0"}, "bool": {"f"}, "box": {"(0,0),(0,0)"}, "bpchar": {"", " "}, "bytea": {"\\x"}, "char": {"", " "}, "cidr": {"0.0.0.0/0"}, "circle": {"<(0,0),0>"},
	"date": {"0001-01-01"}, "daterange": {"(,)"}, "float4": {"0", "-0"}, "float8": {"0", "-0"}, "inet": {"0.0.0.0"}, "int2": {"0"}, "int4": {"0"}, "int8": {"0"},
	"int4range": {"(,)"}, "int8range": {"(,)"}, "interval": {"00:00:00"}, "json": {"null"}, "jsonb": {"null"}, "lseg": {"[(0,0),(0,0)]"},
	"macaddr": {"00:00:00:00:00:00"}, "macaddr8": {"00:00:00:00:00:00:00:00"}, "money": {"$0.00", "0"}, "numeric": {"0"}, "numrange": {"(,)"}, "path": {"((0,0))"},
	"point": {"(0,0)"}, "polygon": {"((0,0))"}, "text": {""}, "time": {"00:00:00"}, "timestamp": {"0001-01-01 00:00:00"}, "timestamptz": {"0001-01-01 00:00:00+00"},
	"timetz": {"00:00:00+00"}, "tsquery": {""}, "tsrange": {"(,)"}, "tstzrange": {"(,)"}, "tsvector": {""}, "uuid": {"00000000-0000-0000-0000-000000000000"},
	"varbit": {""}, "varchar": {""}, "xml": {""}, "label": {""}, "char3": {""},
}

func isZero(e *ent.Entry, v reflect.Value, whole string) bool {
	if v.Kind() == reflect.Ptr {
		return false
	}
	if v.IsZero() || whole == "{}" && strings.HasSuffix(e.Base, "[]") || v.Kind() == reflect.Slice && v.Len() == 0 {
		return true
	}
	for _, z := range zeros[e.Base] {
		if z == whole {
			return true
		}
	}
	return false
}

func trimCol(e *ent.Entry) string { return strings.TrimSuffix(e.Col, " not null") }

// goName is the name that the builder knows a Go type by, and the type itself without a pointer and a name of its own.
func goName(g string, t reflect.Type) (string, reflect.Type) {
	g = strings.TrimPrefix(g, "*")
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch g {
	case "NB":
		return "bool", reflect.TypeOf(false)
	case "NI":
		return "int", reflect.TypeOf(0)
	case "NS":
		return "string", reflect.TypeOf("")
	case "NBytes":
		return "[]byte", tBytes
	case "time.Duration":
		return "int64", reflect.TypeOf(int64(0))
	}
	return g, t
}

// rawDoc says that a field holds the text of a document.
func rawDoc(g string) bool {
	switch g {
	case "string", "[]byte", "[]uint8", "net.IP", "net.HardwareAddr":
		return true
	}
	return false
}

func isDoc(base string) bool { return base == "json" || base == "jsonb" || base == "xml" }

// fieldValue makes the value of the field for a value of the column.
func fieldValue(e *ent.Entry, tr *trace, t reflect.Type) (reflect.Value, bool) {
	whole := text(tr.X)
	zero := reflect.Zero(t)
	g, u := goName(e.Go, t)
	ptr := t.Kind() == reflect.Ptr
	wrap := func(v reflect.Value) reflect.Value {
		if v.Type() != u && v.Type() != t || v.Type() != t && !ptr {
			v = v.Convert(map[bool]reflect.Type{true: t, false: t}[ptr])
		}
		if ptr {
			p := reflect.New(t.Elem())
			p.Elem().Set(v.Convert(t.Elem()))
			return p
		}
		return v.Convert(t)
	}
	if tr.V.K == "null" {
		if isDoc(e.Base) && !rawDoc(g) && u != tNull {
			return zero, false // nil is a document of its own
		}
		if ptr {
			return zero, u.Kind() != reflect.Slice && u.Kind() != reflect.Map // a pointer to nil is nil too, and is not told apart
		}
		if g == "[]byte" || g == "string" || isDoc(e.Base) && u != tNull {
			return zero, false // the driver makes text of nil
		}
		v, ok := build(tr.V, u, e.Base, whole, g, false)
		if !ok {
			return zero, false
		}
		return v.Convert(t), true
	}
	if clock[e.Base] && (u == tNull || g == "string" || g == "[]byte") {
		return zero, false // the driver has its own text for times
	}
	if e.Base == "bytea" && u == tNull {
		return zero, false // text is kept as it is, by the driver
	}
	if isDoc(e.Base) && u != tNull && rawDoc(g) && u.Kind() == reflect.Slice {
		return wrap(reflect.ValueOf([]byte(whole)).Convert(u)), tr.T != "scalar"
	}
	if e.Base == "label" || e.Base == "char3" {
		switch {
		case u == tNull:
			return wrap(reflect.ValueOf(sql.NullString{String: whole, Valid: true})), true
		case g == "string" || g == "[]byte":
			return wrap(reflect.ValueOf(whole).Convert(u)), true
		}
		return zero, false
	}
	if isDoc(e.Base) && u != tNull && !rawDoc(g) {
		p := reflect.New(u)
		if e.Base == "xml" {
			if tr.T == "scalar" {
				if err := xml.Unmarshal([]byte("<x>"+whole+"</x>"), p.Interface()); err != nil {
					return zero, false
				}
				if fmt.Sprint(p.Elem().Interface()) != whole {
					return zero, false
				}
				return wrap(p.Elem()), true
			}
			if g != "XDoc" || xml.Unmarshal([]byte(whole), p.Interface()) != nil {
				return zero, false
			}
			return wrap(p.Elem()), true
		}
		in := []byte(whole)
		if g == "json.RawMessage" {
			var b bytes.Buffer
			if json.Compact(&b, in) != nil || e.Base == "jsonb" && bytes.ContainsAny(in, ",:") {
				return zero, false // documents have other spaces in the database
			}
			in = b.Bytes()
		}
		if json.Unmarshal(in, p.Interface()) != nil {
			return zero, false
		}
		// only what the type holds without loss
		b, err := json.Marshal(p.Interface())
		var x, y interface{}
		if err != nil || json.Unmarshal(b, &x) != nil || json.Unmarshal([]byte(whole), &y) != nil || !reflect.DeepEqual(x, y) {
			return zero, false
		}
		return wrap(p.Elem()), true
	}
	if tr.T == "scalar" {
		return zero, false
	}
	defer func() {
		if x := recover(); x != nil {
			panic(fmt.Sprintf("%s <-> %s, %s: %v", e.Col, e.Go, whole, x))
		}
	}()
	if u.Kind() == reflect.Interface {
		return zero, false
	}
	v, ok := build(tr.V, u, e.Base, whole, g, false)
	if !ok || !v.IsValid() || v.Type() != u {
		return zero, false
	}
	return wrap(v), true
}

// fits says whether the declared column has room for the value.
func fits(e *ent.Entry, tr *trace) bool {
	whole := text(tr.X)
	switch col := trimCol(e); col {
	case "varchar9":
		return utf8.RuneCountInString(whole) <= 9
	case "varchar9[]":
		for _, x := range tr.V.E {
			if utf8.RuneCountInString(text(x.C)) > 9 {
				return false
			}
		}
	case "varchar1":
		return utf8.RuneCountInString(whole) <= 1
	case "name":
		return len(whole) < 64
	case "varbit1":
		return len(whole) <= 1
	case "bit3":
		return len(whole) == 3
	case "varbit64":
		return len(whole) <= 64
	}
	return true
}

// sameField compares two values of a field.
func (w *pairWorker) sameField(e *ent.Entry, a, b reflect.Value, whole string) bool {
	g, _ := goName(e.Go, a.Type())
	if a.Kind() == reflect.Ptr {
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		a, b = a.Elem(), b.Elem()
	}
	if same(a, b, e.Base) {
		return true
	}
	if isDoc(e.Base) && !rawDoc(g) {
		return reflect.DeepEqual(a.Interface(), b.Interface()) || a.Kind() == reflect.Float64 && math.IsNaN(a.Float())
	}
	// text that means the same
	if g == "string" || g == "[]byte" || a.Type() == tNull {
		if stringy[elemType(e.Base)] || e.Base == "bytea" || e.Base == "label" || e.Base == "char3" {
			return false
		}
		s := fmt.Sprintf("%s", b.Interface())
		if a.Type() == tNull {
			ns := b.Interface().(sql.NullString)
			if !ns.Valid {
				return false
			}
			s = ns.String
		} else if a.Kind() == reflect.Slice && a.IsNil() != b.IsNil() {
			return false
		}
		if noEq[e.Base] {
			return s == whole || w.canon(e.Base, s) == w.canon(e.Base, whole)
		}
		var eq bool
		err := w.db.QueryRow("select $1::text::"+colType(e.Base)+" = $2::text::"+colType(e.Base), s, whole).Scan(&eq)
		return err == nil && eq
	}
	return false
}

func (w *pairWorker) canon(base, s string) (out string) {
	if base == "json" {
		base = "jsonb"
	}
	if err := w.db.QueryRow("select format('%s', $1::text::"+colType(base)+")", s).Scan(&out); err != nil {
		return err.Error()
	}
	return out
}

type pairWorker struct{ db *sql.DB }

func call(q interface{}, c gosql.Conn) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	return q.(querier).Exec(c)
}

func field(q interface{}, names ...string) reflect.Value {
	v := reflect.ValueOf(q).Elem()
	for _, n := range names {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.FieldByName(n)
	}
	return v
}

// fieldType is the type of the field C of the pair.
func fieldType(e *ent.Entry) reflect.Type {
	for op, n := range e.New {
		switch op {
		case "insert", "update":
			return field(n(), "R", "C").Type()
		case "select", "updates":
			return field(n(), "Rs").Type().Elem().Elem().Field(1).Type
		case "eq", "ne", "nd", "di":
			return field(n(), "Where", "C").Type()
		}
	}
	return nil
}

func sortedIDs(rs reflect.Value) []int {
	out := []int{}
	for i := 0; i < rs.Len(); i++ {
		out = append(out, int(rs.Index(i).Elem().Field(0).Int()))
	}
	sort.Ints(out)
	return out
}

// history runs one history with two contents in a transaction of its own.
func (w *pairWorker) history(e *ent.Entry, h []step, xs map[string]*held, table string, notNull, asIs bool) (why string) {
	tx, err := w.db.Begin()
	if err != nil {
		panic(err)
	}
	defer tx.Rollback()
	show2 := func(x string) string {
		c := xs[x]
		if !c.val.IsValid() {
			return c.whole
		}
		if c.val.Kind() == reflect.Ptr && !c.val.IsNil() {
			return "&" + show(c.val.Elem())
		}
		return show(c.val)
	}
	for n, s := range h {
		c := xs[s.X]
		// put
		op := s.How
		if mk := e.New[op]; mk != nil {
			q := mk()
			if op == "updates" {
				rs := field(q, "Rs")
				r := reflect.New(rs.Type().Elem().Elem())
				r.Elem().Field(0).SetInt(int64(s.ID))
				r.Elem().Field(1).Set(c.val)
				rs.Set(reflect.Append(rs, r))
			} else {
				field(q, "R", "ID").SetInt(int64(s.ID))
				field(q, "R", "C").Set(c.val)
			}
			if op == "update" {
				field(q, "Where", "ID").SetInt(int64(s.ID))
			}
			if err := call(q, tx); err != nil {
				return fmt.Sprintf("%s of %s fails: %v", op, show2(s.X), err)
			}
		} else {
			var lit interface{} = c.whole
			if c.tr.V.K == "null" {
				lit = nil
			}
			var err error
			if op == "insert" {
				_, err = tx.Exec("insert into "+table+" (id, c) values ($1, $2::text::"+w.declared(e)+")", s.ID, lit)
			} else {
				_, err = tx.Exec("update "+table+" set c = $2::text::"+w.declared(e)+" where id = $1", s.ID, lit)
			}
			if err != nil {
				panic(table + ": " + err.Error())
			}
		}
		// what is stored
		rows, err := tx.Query("select id, c is null, format('%s', c) from " + table + " order by id")
		if err != nil {
			panic(err)
		}
		type got struct {
			null bool
			text string
		}
		have := map[int]got{}
		for rows.Next() {
			var id int
			var g got
			if err := rows.Scan(&id, &g.null, &g.text); err != nil {
				panic(err)
			}
			have[id] = g
		}
		rows.Close()
		count, kept := 0, true
		for i, x := range s.Rows {
			g, ok := have[i+1]
			if ok != (x != "none") {
				return fmt.Sprintf("step %d, row %d: there is %v", n, i+1, ok)
			}
			if !ok {
				continue
			}
			count++
			if xs[x].zero {
				kept = kept && g.null
				continue
			}
			if null := xs[x].tr.V.K == "null"; g.null != null {
				return fmt.Sprintf("%s is stored as NULL: %v", show2(x), g.null)
			} else if !null && asIs && g.text != xs[x].whole {
				return fmt.Sprintf("%s is stored as %q, want %q", show2(x), g.text, xs[x].whole)
			}
		}
		// what is read
		if mk := e.New["select"]; mk != nil {
			q := mk()
			if err := call(q, tx); err != nil {
				return fmt.Sprintf("reading %v fails: %v", s.Rows, err)
			}
			rs := field(q, "Rs")
			if rs.Len() != count {
				return fmt.Sprintf("%d rows are read, want %d", rs.Len(), count)
			}
			for i := 0; i < rs.Len(); i++ {
				r := rs.Index(i).Elem()
				c := xs[s.Rows[r.Field(0).Int()-1]]
				if c.val.IsValid() && !w.sameField(e, c.val, r.Field(1), c.whole) {
					g := r.Field(1)
					if g.Kind() == reflect.Ptr && !g.IsNil() {
						g = g.Elem()
					}
					return fmt.Sprintf("%s is stored, %s is read", show2(s.Rows[r.Field(0).Int()-1]), show(g))
				}
			}
		}
		// what is found
		for _, a := range s.Asks {
			mk := e.New[a.Op]
			if mk == nil {
				continue
			}
			q := mk()
			f := field(q, "Where", "C")
			usable := kept
			for _, x := range a.Xs {
				usable = usable && xs[x] != nil && xs[x].val.IsValid() && !xs[x].zero
			}
			if !usable {
				continue
			}
			if a.Op == "in" || a.Op == "ni" || a.Op == "any" || a.Op == "all" {
				l := reflect.MakeSlice(f.Type(), 0, len(a.Xs))
				for _, x := range a.Xs {
					l = reflect.Append(l, xs[x].val)
				}
				f.Set(l)
			} else {
				f.Set(xs[a.Xs[0]].val)
			}
			names := []string{}
			for _, x := range a.Xs {
				names = append(names, show2(x))
			}
			if err := call(q, tx); err != nil {
				return fmt.Sprintf("the condition %s %v fails: %v", a.Op, names, err)
			}
			if noEq[e.Base] || noEq[elemType(e.Base)] {
				continue
			}
			if got := sortedIDs(field(q, "Rs")); !reflect.DeepEqual(got, append([]int{}, a.Ids...)) {
				return fmt.Sprintf("the condition %s %v finds %v of %v, want %v (v is %s)", a.Op, names, got, s.Rows, a.Ids, xs["v"].whole)
			}
		}
	}
	return ""
}

func (w *pairWorker) declared(e *ent.Entry) string {
	if e.Base == "label" {
		return "plabel"
	}
	return colType(e.Base)
}

func hasNull(h []step) bool {
	for _, s := range h {
		if s.X == "null" {
			return true
		}
	}
	return false
}

// pairsMode runs every generated pair; arguments: how many contents of each pair, and a seed.
func pairsMode(lines [][]byte, args []string) {
	limit, _ := strconv.Atoi(args[0])
	seed, _ := strconv.Atoi(args[1])
	vals := map[string][]*trace{}
	var hs [][]step
	for _, l := range lines {
		if l[0] == '[' {
			var h []step
			if err := json.Unmarshal(l, &h); err != nil {
				panic(err)
			}
			hs = append(hs, h)
			continue
		}
		tr := new(trace)
		if err := json.Unmarshal(l, tr); err != nil {
			panic(err)
		}
		vals[tr.T] = append(vals[tr.T], tr)
	}
	tables := map[string]string{}
	db := open("UTC")
	rows, err := db.Query("select obj_description(oid, 'pg_class'), relname from pg_class where relkind = 'r' and relname like 'pt\\_%'")
	if err != nil {
		panic(err)
	}
	for rows.Next() {
		var a, b string
		if err := rows.Scan(&a, &b); err != nil {
			panic(err)
		}
		tables[a] = b
	}
	jobs := make(chan *ent.Entry, len(generated))
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		w := &pairWorker{open("UTC")}
		w.db.SetMaxOpenConns(2)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for e := range jobs {
				w.pair(e, vals, hs, tables[e.Col], limit, seed)
			}
		}()
	}
	for i := range generated {
		jobs <- &generated[i]
	}
	close(jobs)
	wg.Wait()
}

func (w *pairWorker) pair(e *ent.Entry, vals map[string][]*trace, hs [][]step, table string, limit, seed int) {
	key := e.Col + " <-> " + e.Go
	t := fieldType(e)
	if t == nil {
		return
	}
	notNull := strings.HasSuffix(e.Col, " not null")
	var cs []*held
	var null, zero *held
	pool := vals[e.Base]
	if e.Base == "xml" {
		pool = append(append([]*trace{}, pool...), vals["scalar"]...)
	}
	for _, tr := range pool {
		if !fits(e, tr) {
			continue
		}
		v, ok := fieldValue(e, tr, t)
		c := &held{tr: tr, whole: text(tr.X), val: v}
		if tr.V.K == "null" {
			if ok && !notNull {
				null = c
			}
			continue
		}
		if ok && !notNull && isZero(e, v, c.whole) {
			c.zero = true
			if zero == nil || v.IsZero() {
				zero = c
			}
		} else if ok {
			cs = append(cs, c)
		}
	}
	g, u := goName(e.Go, t)
	// what the database holds for the value is its text, where the value is all of it
	asIs := !(isDoc(e.Base) && !rawDoc(g) && u != tNull)
	if e.Base == "jsonb" {
		asIs = false
	}
	mu.Lock()
	res.Pairs++
	if len(cs) < 2 {
		res.NoValues = append(res.NoValues, key)
	}
	mu.Unlock()
	if len(cs) < 2 {
		return
	}
	if limit < len(cs) {
		// the first and the last, and others by the seed
		var some []*held
		for i := 0; i < limit; i++ {
			some = append(some, cs[(i*len(cs)/limit+seed*7)%len(cs)])
		}
		for _, c := range cs {
			if c.whole == "18446744073709551615" || e.Base == "float8" && c.whole == "1.5" {
				some = append(some, c)
			}
		}
		cs = some
	}
	k := seed * 31
	for i, c := range cs {
		d := cs[(i+1)%len(cs)]
		if d.whole == c.whole {
			continue
		}
		xs := map[string]*held{"v": c, "w": d}
		if null == nil {
			null = zero
		}
		if null != nil {
			xs["null"] = null
		}
		var h []step
		for tries := 0; ; tries++ {
			k++
			h = hs[k*89%len(hs)]
			if (null != nil || !hasNull(h)) && h[len(h)-1].Rows[1] != "none" || tries > 1000 {
				break
			}
		}
		why := w.history(e, h, xs, table, notNull, asIs)
		mu.Lock()
		res.Histories++
		mu.Unlock()
		if why != "" {
			fail("pair", key, h, "%s: %s", key, why)
		}
	}
}

var _ = time.Now
