// Executes the values of Codec.tla and the scan histories of Scan.tla with the real converters.
package main

import (
	"bufio"
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"net"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/frk/gosql/pgsql"
	_ "github.com/lib/pq"
)

type driverValuer = driver.Valuer

// XDoc stands for the structs that are kept as XML.
type XDoc struct {
	XMLName xml.Name `xml:"doc"`
	A       string   `xml:"a"`
	B       []string `xml:"b"`
}

// anyVal is a destination for anything.
type anyVal struct{ V interface{} }

var tAny = reflect.TypeOf(anyVal{})

type xdocScan struct{ p **XDoc }

func (s xdocScan) Scan(src interface{}) error {
	if src == nil {
		*s.p = nil
		return nil
	}
	if *s.p == nil {
		*s.p = new(XDoc)
	}
	return pgsql.XML(*s.p).Scan(src)
}

// pair is a PostgreSQL type and a Go type that goes with it.
type pair struct {
	pg, gt string
	typ    reflect.Type
	from   func(reflect.Value) interface{} // what is passed to the driver
	to     func(reflect.Value) interface{} // what is passed to Scan, given a pointer
	valuer bool
	scan   bool
}

var pairs = map[string][]*pair{}

func reg[T any](pg, gt string, from func(T) driver.Valuer, to func(*T) sql.Scanner) {
	p := &pair{pg: pg, gt: gt, typ: reflect.TypeOf((*T)(nil)).Elem(), valuer: from != nil, scan: to != nil}
	p.from = func(v reflect.Value) interface{} {
		if from != nil {
			x, _ := v.Interface().(T)
			return from(x)
		}
		return v.Interface()
	}
	p.to = func(ptr reflect.Value) interface{} {
		if to != nil {
			return to(ptr.Interface().(*T))
		}
		return ptr.Interface()
	}
	pairs[pg] = append(pairs[pg], p)
}

// tree is a value of Codec.tla.
type tree struct {
	K string
	C []string
	E []*tree
}

type trace struct {
	T string
	V *tree
	X []string
}

func text(c []string) string {
	var b strings.Builder
	for _, t := range c {
		if strings.HasPrefix(t, "U+") {
			n, err := strconv.ParseInt(t[2:], 16, 32)
			if err != nil {
				panic(t)
			}
			b.WriteRune(rune(n))
		} else {
			b.WriteString(t)
		}
	}
	return b.String()
}

func elemType(pg string) string { return strings.TrimSuffix(pg, "[]") }

var stringy = map[string]bool{"text": true, "varchar": true, "char": true, "bpchar": true}

var (
	tTime   = reflect.TypeOf(time.Time{})
	tIP     = reflect.TypeOf(net.IP{})
	tIPNet  = reflect.TypeOf(net.IPNet{})
	tMAC    = reflect.TypeOf(net.HardwareAddr{})
	tNull   = reflect.TypeOf(sql.NullString{})
	tUUID   = reflect.TypeOf([16]byte{})
	tBytes  = reflect.TypeOf([]byte{})
	tIface  = reflect.TypeOf((*interface{})(nil)).Elem()
	tXDoc   = reflect.TypeOf((*XDoc)(nil))
	tString = reflect.TypeOf("")
)

// build makes the Go value of the given type a tree denotes; read is set when the value
// is one that is read rather than written, where a type without NULL gets its zero value; gt is the
// name of the Go type of the whole value, and empty for its parts.
func build(v *tree, t reflect.Type, pg string, whole string, gt string, read bool) (reflect.Value, bool) {
	top := gt != ""
	textual := gt == "string" || gt == "[]byte"
	zero := reflect.Zero(t)
	if t == tAny {
		return zero, v.K == "null"
	}
	if v.K == "null" {
		switch t.Kind() {
		case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface:
			return zero, true
		}
		if t == tNull || t == tIPNet {
			return zero, true
		}
		return zero, read && t != tString || t == tTime && !top && strings.HasSuffix(elemType(pg), "range")
	}
	arr := strings.HasSuffix(pg, "[]")
	el := elemType(pg)
	if textual && !(stringy[el] && arr) && (arr || el != "varbit") && el != "bytea" {
		return reflect.ValueOf(whole).Convert(t), true
	}
	switch t {
	case tIface:
		var x interface{}
		if err := json.Unmarshal([]byte(whole), &x); err != nil {
			panic(err)
		}
		return reflect.ValueOf(&x).Elem(), true
	case tXDoc:
		d := new(XDoc)
		if err := xml.Unmarshal([]byte(whole), d); err != nil {
			panic(err)
		}
		return reflect.ValueOf(d), true
	}
	if v.K == "list" && el == "hstore" && t.Kind() == reflect.Map {
		m := reflect.MakeMap(t)
		for _, p := range v.E {
			x, ok := build(p.E[1], t.Elem(), pg, "", "", read)
			if p.E[1].K == "null" && t.Elem() == tString {
				x, ok = reflect.ValueOf(""), read
			}
			if !ok {
				return zero, false
			}
			m.SetMapIndex(reflect.ValueOf(text(p.E[0].C)), x)
		}
		return m, true
	}
	if v.K == "list" {
		if t == tString { // list of characters, or text form
			if top && stringy[el] && el != "text" && el != "varchar" {
				s := ""
				for _, e := range v.E {
					if e.K == "null" {
						return zero, false
					}
					s += text(e.C)
				}
				return reflect.ValueOf(s), len(v.E) > 0 || read
			}
			if top {
				return reflect.ValueOf(whole), true
			}
			return zero, false
		}
		if gt == "[]byte" && (el == "text" || el == "varchar" || el == "bytea") {
			return reflect.ValueOf(whole).Convert(t), true
		}
		switch t.Kind() {
		case reflect.Slice:
			out := reflect.MakeSlice(t, 0, len(v.E))
			for _, e := range v.E {
				x, ok := build(e, t.Elem(), el, "", "", false)
				if !ok {
					return zero, false
				}
				out = reflect.Append(out, x)
			}
			return out, true
		case reflect.Array:
			out := reflect.New(t).Elem()
			if t.Len() != len(v.E) {
				return zero, false
			}
			for i, e := range v.E {
				x, ok := build(e, t.Elem(), pg, "", "", read)
				if !ok {
					return zero, false
				}
				out.Index(i).Set(x)
			}
			return out, true
		}
		return zero, false
	}
	// an atom
	s := text(v.C)
	if top {
		s = whole
	}
	fam := el
	switch t {
	case tTime:
		x, ok := parseTime(s)
		return reflect.ValueOf(x), ok
	case tIP:
		if strings.Contains(s, "/") {
			return zero, false
		}
		return reflect.ValueOf(net.ParseIP(s)), true
	case tIPNet:
		return reflect.ValueOf(parseIPNet(s)), true
	case tMAC:
		m, err := net.ParseMAC(s)
		return reflect.ValueOf(m), err == nil
	case tNull:
		return reflect.ValueOf(sql.NullString{String: s, Valid: true}), true
	case tUUID:
		b, err := hex.DecodeString(strings.Replace(s, "-", "", -1))
		if err != nil {
			return zero, false
		}
		var u [16]byte
		copy(u[:], b)
		return reflect.ValueOf(u), true
	}
	switch t.Kind() {
	case reflect.Ptr:
		x, ok := build(v, t.Elem(), pg, whole, gt, read)
		if !ok {
			return zero, false
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(x)
		return p, true
	case reflect.String:
		if fam == "bytea" {
			b, _ := hex.DecodeString(s[2:])
			return reflect.ValueOf(string(b)), true
		}
		return reflect.ValueOf(s), true
	case reflect.Bool:
		return reflect.ValueOf(s == "t" || s == "1").Convert(t), s == "t" || s == "f" || s == "1" || s == "0"
	case reflect.Slice:
		switch t.Elem().Kind() {
		case reflect.Uint8:
			if fam == "bytea" {
				b, _ := hex.DecodeString(s[2:])
				return reflect.ValueOf(b), true
			}
			if fam == "varbit" && gt != "[]byte" {
				b := []byte{}
				for i := range s {
					b = append(b, s[i]-'0')
				}
				return reflect.ValueOf(b), true
			}
			return reflect.ValueOf([]byte(s)), true
		case reflect.Bool:
			b := []bool{}
			for i := range s {
				b = append(b, s[i] == '1')
			}
			return reflect.ValueOf(b), true
		}
		return zero, false
	case reflect.Uint8, reflect.Int32:
		if stringy[fam] {
			r := []rune(s)
			if len(r) != 1 || t.Kind() == reflect.Uint8 && r[0] > 127 {
				return zero, false
			}
			return reflect.ValueOf(r[0]).Convert(t), true
		}
	}
	if fam == "money" {
		s = strings.NewReplacer("$", "", ",", "", ".", "").Replace(s)
	}
	base := 10
	if fam == "varbit" {
		base = 2
		if s == "" || len(s) > 1 && s[0] == '0' {
			return zero, false
		}
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(s, base, t.Bits())
		return reflect.ValueOf(n).Convert(t), err == nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(s, base, t.Bits())
		return reflect.ValueOf(n).Convert(t), err == nil
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(s, t.Bits())
		if err != nil {
			return zero, false
		}
		if !strings.HasPrefix(fam, "float") || fam == "float8" && t.Bits() == 32 {
			// only what the float type holds exactly
			if strconv.FormatFloat(f, 'f', -1, 64) != s || strconv.FormatFloat(f, 'f', -1, t.Bits()) != s {
				return zero, false
			}
		}
		return reflect.ValueOf(f).Convert(t), true
	}
	return zero, false
}

func parseTime(s string) (time.Time, bool) {
	for _, l := range []string{"2006-01-02", "2006-01-02 15:04:05.999999", "2006-01-02 15:04:05.999999-07", "2006-01-02 15:04:05.999999-07:00",
		"15:04:05.999999", "15:04:05.999999-07", "15:04:05.999999-07:00"} {
		if t, err := time.Parse(l, s); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

func parseIPNet(s string) net.IPNet {
	if !strings.Contains(s, "/") {
		if strings.Contains(s, ":") {
			s += "/128"
		} else {
			s += "/32"
		}
	}
	ip, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return net.IPNet{IP: ip, Mask: n.Mask}
}

// same says whether two Go values are equal as values of the PostgreSQL type.
func same(a, b reflect.Value, pg string) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch x := a.Interface().(type) {
	case anyVal:
		norm := func(v interface{}) interface{} {
			if b, ok := v.([]byte); ok {
				return string(b)
			}
			return v
		}
		y, v := norm(b.Interface().(anyVal).V), norm(x.V)
		if t, ok := v.(time.Time); ok {
			u, ok := y.(time.Time)
			return ok && t.Equal(u)
		}
		if f, ok := v.(float64); ok && math.IsNaN(f) {
			g, ok := y.(float64)
			return ok && math.IsNaN(g)
		}
		return v == y
	case time.Time:
		y := b.Interface().(time.Time)
		if !x.Equal(y) {
			return false
		}
		if strings.HasPrefix(pg, "timetz") {
			_, o := x.Zone()
			_, p := y.Zone()
			return o == p
		}
		return true
	case net.IP:
		y := b.Interface().(net.IP)
		return (x == nil) == (y == nil) && (x == nil || x.Equal(y))
	case net.IPNet:
		y := b.Interface().(net.IPNet)
		if (x.IP == nil) != (y.IP == nil) || x.IP != nil && !x.IP.Equal(y.IP) {
			return false
		}
		full := func(m net.IPMask) bool { o, n := m.Size(); return m == nil || o == n } // a single host needs no mask
		return full(x.Mask) && full(y.Mask) || x.Mask.String() == y.Mask.String()
	case *XDoc:
		y := b.Interface().(*XDoc)
		if x == nil || y == nil {
			return x == y
		}
		return x.A == y.A && reflect.DeepEqual(x.B, y.B)
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return false
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), pg) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || math.IsNaN(a.Float()) && math.IsNaN(b.Float())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "<none>"
	}
	return fmt.Sprintf("%#v", v.Interface())
}

type failure struct {
	Class, Key, Detail string
	Trace              interface{}
}

type out struct {
	Cases, Written, Read, Scans, Histories, Pairs int
	ByClass                                       map[string]int
	NoValues                                      []string
	Failures                                      []failure
}

var (
	mu  sync.Mutex
	res = out{ByClass: map[string]int{}}
	per = map[string]int{}
)

func fail(class, key string, tr interface{}, format string, args ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	res.ByClass[class]++
	per[class+key]++
	if per[class+key] <= 3 && len(res.Failures) < 3000 {
		res.Failures = append(res.Failures, failure{class, key, fmt.Sprintf(format, args...), tr})
	}
}

// raw records what the driver hands over.
type raw struct{ v interface{} }

func (r *raw) Scan(src interface{}) error {
	if b, ok := src.([]byte); ok {
		src = append([]byte{}, b...)
	}
	r.v = src
	return nil
}

func scanInto(sc sql.Scanner, src interface{}) (err error, panicked bool) {
	defer func() {
		if x := recover(); x != nil {
			err, panicked = fmt.Errorf("panic: %v", x), true
		}
	}()
	return sc.Scan(src), false
}

func valueOf(a interface{}) (v interface{}, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	if dv, ok := a.(driver.Valuer); ok {
		return dv.Value()
	}
	return a, nil
}

func ident(pg string) string {
	return "codec_" + strings.Replace(pg, "[]", "_arr", 1)
}

func colType(pg string) string {
	switch pg {
	case "bit", "bpchar", "char":
		return pg + "(1)"
	case "char3":
		return "char(3)"
	case "bit[]", "bpchar[]", "char[]":
		return elemType(pg) + "(1)[]"
	}
	return pg
}

// noEq are the types PostgreSQL cannot compare.
var noEq = map[string]bool{"json": true, "xml": true, "point": true, "polygon": true, "json[]": true, "xml[]": true, "point[]": true, "polygon[]": true, "box": true, "lseg": true, "line": true, "path": true, "circle": true, "int2vector": true}

type worker struct {
	db    *sql.DB
	stmts map[string]*sql.Stmt
}

func (w *worker) prep(q string) *sql.Stmt {
	if s := w.stmts[q]; s != nil {
		return s
	}
	s, err := w.db.Prepare(q)
	if err != nil {
		panic(q + ": " + err.Error())
	}
	w.stmts[q] = s
	return s
}

// codecCase writes and reads one value through every pair of its type.
func (w *worker) codecCase(tr *trace, tz string) {
	whole := text(tr.X)
	isNull := tr.V.K == "null"
	var lit interface{} = whole
	if isNull {
		lit = nil
	}
	ct := colType(tr.T)
	ins := w.prep("insert into " + ident(tr.T) + " (c) values ($1) returning c, c is null, format('%s', c)")
	// what the driver returns for the value
	var r raw
	if err := w.prep("select $1::text::" + ct).QueryRow(lit).Scan(&r); err != nil {
		panic(tr.T + " " + whole + ": " + err.Error())
	}
	for _, p := range pairs[tr.T] {
		key := tr.T + " <-> " + p.gt
		// reading
		want, ok := build(tr.V, p.typ, tr.T, whole, p.gt, true)
		if ok && p.scan && !((p.gt == "string" || p.gt == "[]byte") && !stringy[elemType(tr.T)] && elemType(tr.T) != "varbit" && elemType(tr.T) != "bytea") {
			dst := reflect.New(p.typ)
			src := r.v
			if b, isb := src.([]byte); isb {
				src = append([]byte{}, b...)
			}
			err, _ := scanInto(p.to(dst).(sql.Scanner), src)
			mu.Lock()
			res.Read++
			mu.Unlock()
			if err != nil {
				fail("read", key, tr, "%s: scanning %s (%s): %v", key, show(reflect.ValueOf(r.v)), whole, err)
			} else if !same(want, dst.Elem(), tr.T) {
				fail("read", key, tr, "%s: scanning %s gives %s, want %s", key, whole, show(dst.Elem()), show(want))
			}
		}
		// writing, and reading back
		val, ok := build(tr.V, p.typ, tr.T, whole, p.gt, false)
		if !ok {
			continue
		}
		if isNull && !p.valuer {
			continue
		}
		if k := p.typ.Kind(); !p.valuer && (k == reflect.Uint || k == reflect.Uint64) && val.Uint() > math.MaxInt64 {
			continue // there's no converter, the driver gets the value as it is (see the known findings of C13)
		}
		if tz != "UTC" && !p.scan && p.typ != tTime && strings.HasPrefix(whole, "18") { // database/sql drops the seconds of the offset
			continue
		}
		dst := reflect.New(p.typ)
		var target interface{} = p.to(dst)
		var isnull bool
		var stored sql.NullString
		// check the valuer on its own, so that a panic is not lost in the driver
		a := p.from(val)
		if _, err := valueOf(a); err != nil {
			fail("write", key, tr, "%s: Value of %s: %v", key, show(val), err)
			continue
		}
		if isNull && !p.scan {
			target = &raw{}
		}
		err := ins.QueryRow(a).Scan(target, &isnull, &stored)
		mu.Lock()
		res.Written++
		mu.Unlock()
		if err != nil {
			fail("write", key, tr, "%s: storing %s (%s): %v", key, show(val), whole, err)
			continue
		}
		if isnull != isNull {
			fail("write", key, tr, "%s: %s is stored as NULL: %v", key, show(val), isnull)
			continue
		}
		if !isNull && p.typ != tIface && p.typ != tXDoc && tz == "UTC" && stored.String != whole {
			fail("write", key, tr, "%s: %s is stored as %q, want %q", key, show(val), stored.String, whole)
			continue
		}
		if !isNull && (p.typ == tIface || tz != "UTC") && !noEq[tr.T] || tr.T == "json" && p.typ == tIface && !isNull {
			cast := ct
			if tr.T == "json" {
				cast = "jsonb"
			}
			var eq bool
			if err := w.prep("select $1::text::"+cast+" = $2::text::"+cast).QueryRow(stored.String, whole).Scan(&eq); err != nil {
				panic(err)
			}
			if !eq {
				fail("write", key, tr, "%s: %s is stored as %q, want %q (%s)", key, show(val), stored.String, whole, tz)
				continue
			}
		}
		if isNull && !p.scan {
			continue
		}
		got := dst.Elem()
		// the textual Go types hold text that means the same
		if !same(val, got, tr.T) {
			if (p.gt == "string" || p.gt == "[]byte") && !isNull && !stringy[elemType(tr.T)] && elemType(tr.T) != "bytea" && !noEq[tr.T] {
				var eq bool
				if err := w.prep("select $1::text::"+ct+" = $2::text::"+ct).QueryRow(fmt.Sprintf("%s", got.Interface()), whole).Scan(&eq); err == nil && eq {
					continue
				}
			}
			fail("roundtrip", key, tr, "%s: wrote %s, read back %s", key, show(val), show(got))
		}
	}
}

func main() {
	registerAll()
	mode := os.Args[1]
	var traces [][]byte
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		traces = append(traces, append([]byte{}, sc.Bytes()...))
	}
	for _, ps := range pairs {
		res.Pairs += len(ps)
	}
	switch mode {
	case "codec":
		codec(traces)
	case "scan":
		scanHistories(traces)
	case "pairs":
		res.Pairs = 0
		pairsMode(traces, os.Args[2:])
	}
	if res.Failures == nil {
		res.Failures = []failure{}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

func open(tz string) *sql.DB {
	name := os.Getenv("VDB")
	if name == "" {
		name = "postgres"
	}
	db, err := sql.Open("postgres", "postgres:///"+name+"?sslmode=disable&timezone="+tz)
	if err != nil {
		panic(err)
	}
	return db
}

func codec(traces [][]byte) {
	db := open("UTC")
	for pg := range pairs {
		if _, err := db.Exec("create unlogged table if not exists " + ident(pg) + " (c " + colType(pg) + ")"); err != nil {
			panic(err)
		}
	}
	type job struct {
		tr *trace
		tz string
	}
	jobs := make(chan job, 100)
	var wg sync.WaitGroup
	zones := []string{"UTC", "Asia/Kolkata", "Europe/Zagreb", "America/St_Johns"}
	for i := 0; i < runtime.NumCPU(); i++ {
		ws := map[string]*worker{}
		for _, tz := range zones {
			d := open(tz)
			d.SetMaxOpenConns(1)
			ws[tz] = &worker{d, map[string]*sql.Stmt{}}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				ws[j.tz].codecCase(j.tr, j.tz)
			}
		}()
	}
	for _, l := range traces {
		tr := new(trace)
		if err := json.Unmarshal(l, tr); err != nil {
			panic(err)
		}
		res.Cases++
		jobs <- job{tr, "UTC"}
		if strings.HasPrefix(tr.T, "timestamptz") || strings.HasPrefix(tr.T, "tstzrange") {
			for _, tz := range zones[1:] {
				jobs <- job{tr, tz}
			}
		}
	}
	close(jobs)
	wg.Wait()
}

var _ = bytes.Equal
