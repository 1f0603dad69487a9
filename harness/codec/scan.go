package main

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// hist is a history of Scan.tla.
type hist []struct {
	Do   string
	D    int
	V    string
	Want []string
	Kept []string
}

// content is a value as the driver hands it over and as it should be read.
type content struct {
	raw  interface{}
	text string
	want reflect.Value
}

// clone copies a value so that it shares nothing with the original.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i)))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(clone(k), clone(v.MapIndex(k)))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.New(v.Type().Elem()))
		out.Elem().Set(clone(v.Elem()))
	case reflect.Interface:
		if v.IsNil() {
			return out
		}
		out.Set(clone(v.Elem()))
	case reflect.String:
		out.SetString(strings.Clone(v.String()))
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(clone(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// scribble overwrites every piece of memory a value refers to.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			scribble(e)
			if !e.CanSet() {
				continue
			}
			switch e.Kind() {
			case reflect.Uint8:
				e.SetUint('X')
			default:
				e.Set(reflect.Zero(e.Type()))
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem())
			v.Elem().Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i))
			}
		}
	}
}

var digits = regexp.MustCompile(`[0-9]+`)

// spoil makes text with an element that is not of the type, if the type has such.
func spoil(p *pair, text string) (string, bool) {
	el := elemType(p.pg)
	t := p.typ
	if t == tAny {
		return "", false
	}
	if t == tIface || t == tXDoc {
		return "{<" + text, true
	}
	leaf := t
	for leaf.Kind() == reflect.Slice {
		leaf = leaf.Elem()
	}
	switch el {
	case "bool", "bit", "varbit":
		if leaf.Kind() == reflect.String {
			return "", false
		}
		return map[bool]string{true: "{x}", false: "x"}[strings.HasSuffix(p.pg, "[]")], true
	}
	for t.Kind() == reflect.Slice && t != tIP && t != tMAC || t.Kind() == reflect.Array && t != tUUID {
		t = t.Elem()
		if t == reflect.TypeOf([]byte(nil)) && el != "bytea" && el != "varbit" {
			return "", false // text kept as it is
		}
	}
	if t.Kind() == reflect.String || p.typ == reflect.TypeOf([]byte(nil)) && (el == "time" || el == "timetz") {
		return "", false
	}
	if el == "bytea" || t == tIP || t == tMAC || t == tIPNet || t == tUUID || t == tTime {
		s := digits.ReplaceAllString(text, "zz")
		return s, s != text
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int64, reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.Int32, reflect.Uint8:
		if stringy[el] {
			return "", false
		}
		loc := digits.FindStringIndex(text)
		if loc == nil {
			return "", false
		}
		return text[:loc[0]] + "zz" + text[loc[1]:], true
	}
	return "", false
}

var composite = regexp.MustCompile(`range|box|lseg|line|path|polygon|point|circle|vector|hstore|varbit`)

// refused makes texts with one element spoiled, for every element, and a few more; those that PostgreSQL refuses too.
func refused(db *sql.DB, p *pair, text string) (out []string) {
	var try []string
	for _, loc := range digits.FindAllStringIndex(text, -1) {
		try = append(try, text[:loc[0]]+"zz"+text[loc[1]:])
		if !composite.MatchString(p.pg) {
			try = append(try, text[:loc[0]]+text[loc[1]:])
		}
	}
	if composite.MatchString(p.pg) {
		// what is not of the structure at all is not text with a bad element
	} else if strings.HasSuffix(p.pg, "[]") {
		try = append(try, "{x}", "{ab}", "{Nab}", "{abc,abc}", "{\"\"}")
	} else {
		try = append(try, "x", "")
	}
	seen := map[string]bool{}
	if p.pg == "bytea[]" {
		// of a notation that isn't the one scanned
		out = append(out, "{ab}", "{abcdabz}", "{Nab}", "{\"abcabz\"}", "{\"\\\\x61\",abcdabz}")
	}
	for _, t := range try {
		var r raw
		if !seen[t] && db.QueryRow("select $1::text::"+colType(p.pg), t).Scan(&r) != nil {
			out = append(out, t)
		}
		seen[t] = true
	}
	return out
}

type scanner struct {
	p      *pair
	vals   map[string]content // v0, v1, v2
	null   reflect.Value
	bad    string
	hasBad bool
	bads   []string // more of the kind
}

func (s *scanner) holds(want string, got reflect.Value, v0 reflect.Value) (bool, reflect.Value) {
	switch want {
	case "?":
		return true, got
	case "null":
		return same(s.null, got, s.p.pg), s.null
	case "v0":
		return same(v0, got, s.p.pg), v0
	}
	w := s.vals[want].want
	return same(w, got, s.p.pg), w
}

func (s *scanner) run(h hist, line string) {
	p := s.p
	key := p.pg + " -> " + p.gt
	bufmem := make([]byte, 0, 4096)
	var buf, kept []byte
	dests := []reflect.Value{reflect.New(p.typ), reflect.New(p.typ)}
	for _, d := range dests {
		d.Elem().Set(clone(s.vals["v0"].want))
	}
	taken := make([]reflect.Value, len(dests))
	n := 0
	for i, st := range h {
		var err error
		var panicked bool
		bad := func(class, f string, args ...interface{}) {
			fail(class, key, json.RawMessage(line), "%s: step %d %s %s: %s", key, i+1, st.Do, st.V, fmt.Sprintf(f, args...))
		}
		switch st.Do {
		case "bytes", "string":
			c := s.vals[st.V]
			src := c.raw
			if b, ok := src.([]byte); ok {
				if st.Do == "bytes" {
					buf = append(bufmem[:0], b...)
					kept = append([]byte{}, buf...)
					src = buf
				} else {
					src = string(b)
				}
			}
			err, panicked = scanInto(p.to(dests[st.D-1]).(sql.Scanner), src)
			n++
			if err != nil {
				bad("scan", "%v", err)
				return
			}
		case "null":
			err, panicked = scanInto(p.to(dests[st.D-1]).(sql.Scanner), nil)
			n++
			if err != nil {
				bad("null", "%v", err)
				return
			}
		case "clobber":
			for j := range buf {
				buf[j] = '#'
			}
			kept = append([]byte{}, buf...)
		case "take":
			taken[st.D-1] = reflect.New(p.typ).Elem()
			taken[st.D-1].Set(dests[st.D-1].Elem())
			if t := taken[st.D-1]; t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface && t.Elem().Kind() == reflect.Ptr {
				// a pointer that the caller put into the destination: what it points to is the destination
				taken[st.D-1] = reflect.Value{}
			}
		case "scribble":
			scribble(dests[st.D-1].Elem())
		case "foreign":
			if p.typ == tAny {
				break
			}
			for _, f := range []interface{}{int64(7), float64(1.5), true, time.Unix(0, 0), [3]int{}} {
				same := false
				for _, c := range s.vals {
					same = same || reflect.TypeOf(c.raw) == reflect.TypeOf(f)
				}
				if same {
					continue
				}
				err, panicked = scanInto(p.to(dests[st.D-1]).(sql.Scanner), f)
				n++
				if panicked {
					bad("panic", "%T: %v", f, err)
				} else if err == nil {
					bad("foreign", "%T is accepted: %s", f, show(dests[st.D-1].Elem()))
				}
			}
			err, panicked = nil, false
		case "garbage":
			if s.hasBad {
				for _, x := range append(s.bads, s.bad) {
					for _, src := range []interface{}{[]byte(x), x} {
						err, panicked = scanInto(p.to(dests[st.D-1]).(sql.Scanner), src)
						n++
						if panicked {
							bad("panic", "%q: %v", x, err)
						} else if err == nil {
							bad("garbage", "%q is accepted: %s", x, show(dests[st.D-1].Elem()))
						}
					}
				}
				err, panicked = nil, false
			}
		}
		if string(buf) != string(kept) {
			bad("shared", "the driver's memory was changed")
			return
		}
		for d, want := range st.Want {
			if ok, w := s.holds(want, dests[d].Elem(), s.vals["v0"].want); !ok {
				bad("value", "destination %d holds %s, want %s (%s)", d+1, show(dests[d].Elem()), show(w), want)
				return
			}
			if k := st.Kept[d]; k != "-" && k != "?" && taken[d].IsValid() && !same(s.vals[k].want, taken[d], p.pg) {
				bad("kept", "the value taken out of destination %d is now %s, was %s", d+1, show(taken[d]), show(s.vals[k].want))
				return
			}
		}
	}
	mu.Lock()
	res.Scans += n
	res.Histories++
	mu.Unlock()
}

// shapes feeds text of every broken shape: nothing may panic.
func (s *scanner) shapes() {
	seen := map[string]bool{}
	try := func(t string) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, src := range []interface{}{[]byte(t), t} {
			dst := reflect.New(s.p.typ)
			err, panicked := scanInto(s.p.to(dst).(sql.Scanner), src)
			mu.Lock()
			res.Scans++
			mu.Unlock()
			if panicked {
				key := s.p.pg + " -> " + s.p.gt
				fail("panic", key, t, "%s: scanning %q: %v", key, t, err)
			}
		}
	}
	for _, t := range []string{"", "{", "}", "{}", "{{}}", "\"", "{\"", "{\"}", "{\"\\", "{\"\\\"", "{,}", "{,,}", "{\"\"}", "{\"\",}", "[", "]", "(", ")", "()", "(,", "[,)", "empty", "{empty}", "NULL", "{NULL", "{NULL}", "{N}", "N",
		"{\"(\"}", "{\"[(\"}", "{\"((1,2),(3\"}", "((((", "{\"[(1,2),(3,4),(5,6)]\"}", "[(1,2),(3,4),(5,6)]", "{1,2,3,4}", "{\"{1,2,3,4}\"}", "(1,2),", "(1,2),(3", "{(1,2);}", "{(1,2),(3,4);(5}", "x", "\\", "\\\\", "\\x", "{\\}", "=>", "\"a\"=>", "\"a\"", "{\"\\\"a\\\"=>\"}", "{\"\\\"a", "{\"\\\"a\\", "' ", "'", "$", "-", "-$", "{$}", "{-}", "{\"\\\\x\"}", "{\"\\\\", "{\\x", "1 ", " 1", "{ }", "{\" \"}", "\xff", "{\xff}"} {
		try(t)
	}
	for _, c := range s.vals {
		for i := 0; i <= len(c.text); i++ {
			try(c.text[:i])
			try(c.text[i:])
			if i < len(c.text) {
				try(c.text[:i] + c.text[i+1:])
				try(c.text[:i] + "\"" + c.text[i:])
				try(c.text[:i] + "\\" + c.text[i:])
				try(c.text[:i] + "," + c.text[i:])
			}
		}
	}
}

func scanHistories(lines [][]byte) {
	db := open("UTC")
	byType := map[string][]*trace{}
	var hs []hist
	var hl []string
	for _, l := range lines {
		if l[0] == '[' {
			var h hist
			if err := json.Unmarshal(l, &h); err != nil {
				panic(err)
			}
			hs, hl = append(hs, h), append(hl, string(l))
			continue
		}
		tr := new(trace)
		if err := json.Unmarshal(l, tr); err != nil {
			panic(err)
		}
		byType[tr.T] = append(byType[tr.T], tr)
	}
	var scs []*scanner
	names := []string{}
	for pg := range pairs {
		names = append(names, pg)
	}
	sort.Strings(names)
	for _, pg := range names {
		trs := byType[pg]
		for _, p := range pairs[pg] {
			if !p.scan {
				continue
			}
			// several triples of contents for each pair
			var found []content
			for _, tr := range trs {
				if tr.V.K == "null" || len(found) >= 9 {
					continue
				}
				whole := text(tr.X)
				want, ok := build(tr.V, p.typ, pg, whole, p.gt, true)
				if p.typ == tAny {
					ok = true
				}
				if !ok || (p.gt == "string" || p.gt == "[]byte") && tr.V.K == "list" && len(tr.V.E) == 0 {
					continue
				}
				var r raw
				if err := db.QueryRow("select $1::text::"+colType(pg), whole).Scan(&r); err != nil {
					panic(err)
				}
				if p.typ == tAny {
					want = reflect.ValueOf(anyVal{r.v})
				}
				// the Go types that hold text take what there is
				if (p.gt == "string" || p.gt == "[]byte") && !stringy[elemType(pg)] && elemType(pg) != "varbit" && elemType(pg) != "bytea" {
					dst := reflect.New(p.typ)
					if err, _ := scanInto(p.to(dst).(sql.Scanner), r.v); err != nil {
						fail("scan", pg+" -> "+p.gt, tr, "%s -> %s: scanning %s: %v", pg, p.gt, whole, err)
						continue
					}
					want = clone(dst.Elem())
				}
				dup := false
				for _, f := range found {
					dup = dup || same(f.want, want, pg)
				}
				if !dup {
					found = append(found, content{r.v, whole, want})
				}
			}
			if len(found) < 2 {
				fail("coverage", pg+" -> "+p.gt, nil, "%s -> %s: %d contents to scan", pg, p.gt, len(found))
				continue
			}
			null, ok := build(&tree{K: "null"}, p.typ, pg, "", p.gt, true)
			if !ok {
				null = reflect.Zero(p.typ)
			}
			for i := 0; i+1 < len(found) && i < 8; i += 3 {
				s := &scanner{p: p, null: null, vals: map[string]content{"v1": found[i], "v2": found[i+1]}}
				s.vals["v0"] = found[(i+2)%len(found)]
				for _, c := range []string{"v1", "v2", "v0"} {
					if !s.hasBad {
						s.bad, s.hasBad = spoil(p, s.vals[c].text)
					}
				}
				if s.hasBad {
					for _, c := range []string{"v1", "v2", "v0"} {
						s.bads = append(s.bads, refused(db, p, s.vals[c].text)...)
					}
				}
				scs = append(scs, s)
			}
		}
	}
	jobs := make(chan *scanner)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range jobs {
				s.shapes()
				for i, h := range hs {
					s.run(h, hl[i])
				}
			}
		}()
	}
	for _, s := range scs {
		res.Cases++
		jobs <- s
	}
	close(jobs)
	wg.Wait()
}

var _ = net.IP{}
