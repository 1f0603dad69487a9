// Replays behaviours of spec/Filter.tla and spec/FilterText.tla into filter.Constructor and
// compares what it renders, and what PostgreSQL makes of it, with the observations of the model.
package main

import (
	"bufio"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	_ "github.com/lib/pq"
)

const null = -999

type Pred struct {
	K     string   `json:"k"`
	How   string   `json:"how"`
	Col   string   `json:"col"`
	Op    string   `json:"op"`
	V     int      `json:"v"`
	Vs    []int    `json:"vs"`
	Words []string `json:"words"`
}
type Key struct {
	Col  string `json:"col"`
	Desc bool   `json:"desc"`
	NF   bool   `json:"nf"`
}
type Arg struct {
	Col string            `json:"col"`
	K   string            `json:"k"`
	V   []json.RawMessage `json:"v"`
}
type Obs struct {
	Count   []int `json:"count"`
	Ordered []int `json:"ordered"`
	Window  []int `json:"window"`
	Args    []Arg `json:"args"`
	Keys    []Key `json:"keys"`
	Limit   int   `json:"limit"`
	Offset  int   `json:"offset"`
}
type Tok struct {
	T    string `json:"t"` // token kind
	Text string `json:"text"`
}
type Ev struct {
	Op  string `json:"op"`
	P   Pred   `json:"p"`
	C   string `json:"c"`
	M   string `json:"m"`
	Key Key    `json:"key"`
	N   int64  `json:"n"`
	Pos int    `json:"pos"`
	Obs *Obs   `json:"obs"`
	// text mode
	Text   string `json:"text"`
	Strict bool   `json:"strict"`
	Res    string `json:"res"`   // "ok", "syntax", "unknown", "conv"
	Which  string `json:"which"` // offending key
}

var bText = map[int]string{1: "x", 2: "y 2", 3: `z'"\o`}

func dTime(v int) time.Time { return time.Unix(int64(v)*1000000, 0).UTC() }

// value gives the Go value a coded value of a column stands for.
func value(col string, v int) interface{} {
	if v == null {
		return nil
	}
	switch col {
	case "a":
		return v
	case "b":
		return bText[v]
	case "c":
		return v == 1
	case "d":
		return dTime(v)
	case "e":
		return float64(v) + 0.5
	}
	panic("column " + col)
}

func conv[T int | int16 | int64](vs []int) []T {
	out := make([]T, len(vs))
	for i, v := range vs {
		out[i] = T(v)
	}
	return out
}
func strs(vs []int) []string {
	out := make([]string, len(vs))
	for i, v := range vs {
		out[i] = bText[v]
	}
	return out
}

// the name of one column is a prefix of another's
func col(c string) string {
	if c == "e" {
		return "r.col_a_e"
	}
	return "r.col_" + c
}

func addPred(c *filter.Constructor, p Pred) {
	switch p.K {
	case "cmp":
		c.Col(col(p.Col), p.Op, value(p.Col, p.V))
	case "ts":
		c.TextSearch(p.How)
	case "in", "any":
		switch p.How {
		case "ColInInts":
			c.ColInInts(col(p.Col), p.Vs)
		case "ColInInt64s":
			c.ColInInt64s(col(p.Col), conv[int64](p.Vs))
		case "ColInInt16s":
			c.ColInInt16s(col(p.Col), conv[int16](p.Vs))
		case "ColInStrings":
			c.ColInStrings(col(p.Col), strs(p.Vs))
		case "ColAnyInts":
			c.ColAnyInts(col(p.Col), p.Vs)
		case "ColAnyInt64s":
			c.ColAnyInt64s(col(p.Col), conv[int64](p.Vs))
		case "ColAnyInt16s":
			c.ColAnyInt16s(col(p.Col), conv[int16](p.Vs))
		case "ColAnyStrings":
			c.ColAnyStrings(col(p.Col), strs(p.Vs))
		default:
			parts := strings.SplitN(p.How, ":", 2)
			switch parts[1] {
			case "ints":
				c.Col(col(p.Col), parts[0], p.Vs)
			case "int64s":
				c.Col(col(p.Col), parts[0], conv[int64](p.Vs))
			case "int16s":
				c.Col(col(p.Col), parts[0], conv[int16](p.Vs))
			case "strings":
				c.Col(col(p.Col), parts[0], strs(p.Vs))
			default:
				panic(p.How)
			}
		}
	default:
		panic(p.K)
	}
}

func fmtv(v interface{}) string {
	dv, err := driver.DefaultParameterConverter.ConvertValue(v)
	if err != nil {
		return "ERR " + err.Error()
	}
	switch x := dv.(type) {
	case []byte:
		return string(x)
	case time.Time:
		return x.UTC().Format(time.RFC3339Nano)
	}
	return fmt.Sprint(dv)
}

func plain(s string) string {
	return strings.NewReplacer(`"`, "", `\`, "", "{", "", "}", "", " ", "").Replace(s)
}

// wantArg is the text of the argument the model says stands at one placeholder.
func wantArg(a Arg) string {
	num := func(r json.RawMessage) int { var n int; json.Unmarshal(r, &n); return n }
	switch a.K {
	case "v":
		return fmtv(value(a.Col, num(a.V[0])))
	case "arr":
		ss := []string{}
		for _, r := range a.V {
			ss = append(ss, fmtv(value(a.Col, num(r))))
		}
		return plain(strings.Join(ss, ","))
	case "ts":
		ss := []string{}
		for _, r := range a.V {
			var s string
			json.Unmarshal(r, &s)
			ss = append(ss, s+":*")
		}
		return strings.ReplaceAll(strings.Join(ss, "&"), " ", "")
	}
	panic(a.K)
}

var rxPlace = regexp.MustCompile(`\$(\d+)`)
var rxCol = regexp.MustCompile(`col_(?:a_)?([a-et])\b`)

// checkArgs: exactly one placeholder per argument, numbered pos+1.., each in its predicate.
func checkArgs(sqls string, params []interface{}, pos int, o *Obs) string {
	ph := rxPlace.FindAllStringSubmatchIndex(sqls, -1)
	if len(ph) != len(params) {
		return fmt.Sprintf("%d placeholders, %d arguments", len(ph), len(params))
	}
	if len(params) != len(o.Args) {
		return fmt.Sprintf("%d arguments, model says %d", len(params), len(o.Args))
	}
	for i, m := range ph {
		n, _ := strconv.Atoi(sqls[m[2]:m[3]])
		if n != pos+i+1 {
			return fmt.Sprintf("placeholder %d is $%d, want $%d", i, n, pos+i+1)
		}
		cs := rxCol.FindAllStringSubmatch(sqls[:m[0]], -1)
		if len(cs) == 0 || cs[len(cs)-1][1] != o.Args[i].Col {
			return fmt.Sprintf("placeholder $%d stands in a predicate on %v, model says %q", n, cs, o.Args[i].Col)
		}
		got, want := fmtv(params[i]), wantArg(o.Args[i])
		if o.Args[i].K == "arr" {
			got = plain(got)
		} else if o.Args[i].K == "ts" {
			got = strings.ReplaceAll(got, " ", "")
		}
		if got != want {
			return fmt.Sprintf("argument of $%d is %q, model says %q", n, got, want)
		}
	}
	return ""
}

type failure struct {
	Class  string `json:"class"` // rows | paging | args | text
	Detail string `json:"detail"`
	SQL    string `json:"sql"`
	Trace  string `json:"trace"`
}

var (
	dsn   = flag.String("dsn", "", "")
	noexe = flag.Bool("noexec", false, "")
	setup = flag.Bool("setup", false, "")
	db    *sql.DB
	rows  map[int]map[string]interface{} // id -> coded row
)

func ids(q string, args ...interface{}) ([]int, error) {
	rs, err := db.Query(q, args...)
	if err != nil {
		return nil, err
	}
	defer rs.Close()
	var out []int
	for rs.Next() {
		var id int
		if err := rs.Scan(&id); err != nil {
			return nil, err
		}
		out = append(out, id)
	}
	return out, rs.Err()
}

func keyTuple(id int, ks []Key) string {
	ss := []string{}
	for _, k := range ks {
		ss = append(ss, fmt.Sprint(rows[id][k.Col]))
	}
	return strings.Join(ss, "|")
}

type cnt struct{ renders, queries, selNonTrivial int }

// render compares one rendering with the observation of the model.
func render(c *filter.Constructor, pos int, o *Obs, k *cnt) (class, detail, sqls string) {
	k.renders++
	s, params := c.Filter().ToSQL(pos)
	if d := checkArgs(s, params, pos, o); d != "" {
		return "args", d, s
	}
	s2, params2 := c.Filter().ToSQL(pos)
	if s2 != s || len(params2) != len(params) {
		return "args", "rendering twice differs: " + s2, s
	}
	cs, cparams := c.CountFilter().ToSQL(pos)
	if d := checkArgs(cs, cparams, pos, o); d != "" {
		return "args", "count form: " + d, cs
	}
	if *noexe {
		return "", "", ""
	}
	q, args := "SELECT r.id FROM rws r", []interface{}{}
	if pos > 3 {
		pos = 0
		s, params = c.Filter().ToSQL(0)
		cs, cparams = c.CountFilter().ToSQL(0)
	}
	if pos > 0 {
		q = "SELECT q.id FROM (SELECT r.id"
		for i := 1; i <= pos; i++ {
			q += fmt.Sprintf(", $%d::int4", i)
			args = append(args, i)
		}
		q += " FROM rws r" + s + ") q"
	} else {
		q += s
	}
	k.queries++
	got, err := ids(q, append(args, params...)...)
	if err != nil {
		return "rows", "rejected by the database: " + err.Error(), s
	}
	inCount := map[int]bool{}
	for _, id := range o.Count {
		inCount[id] = true
	}
	if n := len(o.Count); n > 0 && n < len(rows) {
		k.selNonTrivial++
	}
	seen := map[int]bool{}
	for _, id := range got {
		if !inCount[id] {
			return "rows", fmt.Sprintf("row %d %v selected, model excludes it", id, rows[id]), s
		}
		if seen[id] {
			return "rows", "row returned twice", s
		}
		seen[id] = true
	}
	if o.Limit == 0 && o.Offset == 0 && len(got) != len(o.Count) {
		for _, id := range o.Count {
			if !seen[id] {
				return "rows", fmt.Sprintf("row %d %v not selected, model includes it", id, rows[id]), s
			}
		}
	}
	if len(got) != len(o.Window) {
		return "paging", fmt.Sprintf("%d rows returned, model says %d (limit %d offset %d)", len(got), len(o.Window), o.Limit, o.Offset), s
	}
	if len(o.Keys) > 0 {
		for i := range got {
			if g, w := keyTuple(got[i], o.Keys), keyTuple(o.Window[i], o.Keys); g != w {
				return "paging", fmt.Sprintf("row %d has sort keys %s, model says %s", i, g, w), s
			}
		}
	}
	cq, cargs := "SELECT count(*) FROM rws r"+cs, cparams
	if pos > 0 {
		cq = "SELECT count(*), " + strings.TrimPrefix(strings.SplitN(q, " FROM rws r", 2)[0], "SELECT q.id FROM (SELECT r.id, ") + " FROM rws r" + cs
		cargs = append(args, cparams...)
	}
	k.queries++
	var total int
	dst := []interface{}{&total}
	for i := 0; i < pos; i++ {
		dst = append(dst, new(int))
	}
	if err := db.QueryRow(cq, cargs...).Scan(dst...); err != nil {
		return "rows", "count form rejected by the database: " + err.Error(), cs
	}
	if total != len(o.Count) {
		return "paging", fmt.Sprintf("count form counts %d rows, model says %d", total, len(o.Count)), cs
	}
	return "", "", ""
}

type stop struct{ class, detail, sqls string }

// play performs evs[i:] until the matching close (nested) or the end.
func play(c *filter.Constructor, evs []Ev, i int, nested bool, k *cnt) int {
	for i < len(evs) {
		e := evs[i]
		i++
		switch e.Op {
		case "pred":
			addPred(c, e.P)
		case "and":
			c.And(nil)
		case "or":
			c.Or(nil)
		case "open":
			f := func() { i = play(c, evs, i, true, k) }
			if e.C == "and" {
				c.And(f)
			} else {
				c.Or(f)
			}
		case "close":
			if nested {
				return i
			}
			panic("close without open")
		case "order":
			switch e.M {
			case "OrderBy":
				c.OrderBy(col(e.Key.Col), e.Key.Desc, e.Key.NF)
			case "OrderByV2":
				c.OrderByV2(col(e.Key.Col), e.Key.Desc, true, e.Key.NF)
			case "OrderByV2nn":
				c.OrderByV2(col(e.Key.Col), e.Key.Desc, false, e.Key.NF)
			}
		case "limit":
			c.Limit(e.N)
		case "offset":
			c.Offset(e.N)
		case "page":
			c.Page(e.N)
		case "strict":
			c.StrictSwitch()
		case "fql", "sort":
			var err error
			if e.Op == "fql" {
				err = c.UnmarshalFQL(e.Text)
			} else {
				err = c.UnmarshalSort(e.Text)
			}
			var uk filter.UnknownColumnKeyError
			switch e.Res {
			case "ok":
				if err != nil {
					panic(stop{"text", fmt.Sprintf("%q: unexpected error %v", e.Text, err), ""})
				}
			case "unknown":
				if !errors.As(err, &uk) || uk.Key != e.Which {
					panic(stop{"text", fmt.Sprintf("%q: want unknown key %q, got %v", e.Text, e.Which, err), ""})
				}
				return len(evs)
			case "conv":
				if !errors.Is(err, errConv) {
					panic(stop{"text", fmt.Sprintf("%q: want the converter's error, got %v", e.Text, err), ""})
				}
				return len(evs)
			case "syntax":
				if err == nil || errors.As(err, &uk) || errors.Is(err, errConv) {
					panic(stop{"text", fmt.Sprintf("%q: want a syntax error, got %v", e.Text, err), ""})
				}
				return len(evs)
			}
		case "render":
			if cl, d, s := render(c, e.Pos, e.Obs, k); cl != "" {
				panic(stop{cl, d, s})
			}
		default:
			panic("unknown event " + e.Op)
		}
	}
	return i
}

var errConv = errors.New("converter failed")

func keymap() map[string]filter.Column {
	return map[string]filter.Column{
		"a":   {Name: col("a"), IsNULLable: true},
		"b":   {Name: col("b"), IsNULLable: true},
		"c":   {Name: col("c"), IsNULLable: true},
		"d":   {Name: col("d"), IsNULLable: true},
		"e":   {Name: col("e")},
		"n.b": {Name: col("b"), IsNULLable: true},
		"_a1": {Name: col("a"), IsNULLable: true},
		"inc": {Name: col("a"), IsNULLable: true, ConvertValue: func(v any) (any, error) {
			switch x := v.(type) {
			case nil:
				return int64(1), nil
			case int64:
				return x + 1, nil
			}
			return nil, fmt.Errorf("converter got %T", v)
		}},
		"bad": {Name: col("a"), ConvertValue: func(v any) (any, error) { return nil, errConv }},
	}
}

func runTrace(line string, k *cnt) (f *failure) {
	var evs []Ev
	if err := json.Unmarshal([]byte(line), &evs); err != nil {
		fmt.Fprintln(os.Stderr, "bad trace:", err, line)
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				f = &failure{s.class, s.detail, s.sqls, line}
			} else {
				f = &failure{"panic", fmt.Sprint(r), "", line}
			}
		}
	}()
	c := new(filter.Constructor)
	if len(evs) > 0 && evs[0].Op == "init" {
		if evs[0].M == "v1" {
			m := map[string]string{}
			for key, v := range keymap() {
				m[key] = v.Name
			}
			c.Init(m, "r.col_t")
		} else {
			c.InitV2(keymap(), "r.col_t")
		}
		evs = evs[1:]
	} else {
		c.Init(map[string]string{"a": col("a"), "b": col("b")}, "r.col_t")
	}
	play(c, evs, 0, false, k)
	return nil
}

func lists(k *cnt) *failure {
	// every n, pos: n ordinals following pos
	for _, pos := range []int{0, 1, 2, 7, 99, 998, 65000} {
		for n := 0; n <= 40; n++ {
			want := []string{}
			for i := 1; i <= n; i++ {
				want = append(want, "$"+strconv.Itoa(pos+i))
			}
			got := strings.ReplaceAll(gosql.InValueList(n, pos), " ", "")
			k.renders++
			if got != strings.Join(want, ",") {
				return &failure{"args", fmt.Sprintf("InValueList(%d,%d) = %q", n, pos, got), "", ""}
			}
		}
	}
	for i, s := range gosql.OrdinalParameters {
		if s != "$"+strconv.Itoa(i+1) {
			return &failure{"args", fmt.Sprintf("OrdinalParameters[%d] = %q", i, s), "", ""}
		}
	}
	return nil
}

func main() {
	table := flag.String("rows", "", "JSON file with the model's rows")
	flag.Parse()
	b, err := os.ReadFile(*table)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rs []map[string]interface{}
	if err := json.Unmarshal(b, &rs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	rows = map[int]map[string]interface{}{}
	for _, r := range rs {
		rows[int(r["id"].(float64))] = r
	}
	if !*noexe {
		if db, err = sql.Open("postgres", *dsn); err == nil {
			err = db.Ping()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		db.SetMaxOpenConns(10)
		db.SetMaxIdleConns(10)
		if err := load(rs); err != nil {
			fmt.Fprintln(os.Stderr, "loading rows:", err)
			os.Exit(2)
		}
	}
	var mu sync.Mutex
	var total cnt
	fails := []*failure{}
	n := 0
	lines := make(chan string, 1000)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var k cnt
			for l := range lines {
				if f := runTrace(l, &k); f != nil {
					mu.Lock()
					fails = append(fails, f)
					mu.Unlock()
				}
			}
			mu.Lock()
			total.renders += k.renders
			total.queries += k.queries
			total.selNonTrivial += k.selNonTrivial
			mu.Unlock()
		}()
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			lines <- sc.Text()
			n++
		}
	}
	close(lines)
	wg.Wait()
	if f := lists(&total); f != nil {
		fails = append(fails, f)
	}
	sort.Slice(fails, func(i, j int) bool { return len(fails[i].Trace) < len(fails[j].Trace) })
	if len(fails) > 200 {
		fails = fails[:200]
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{
		"traces": n, "renders": total.renders, "queries": total.queries, "nontrivial": total.selNonTrivial, "failures": fails})
}

func load(rs []map[string]interface{}) error {
	if _, err := db.Exec(`DROP TABLE IF EXISTS rws; CREATE TABLE rws (id int primary key, col_a int4, col_b text, col_c boolean, col_d timestamptz, col_a_e float8 not null, col_t tsvector)`); err != nil {
		return err
	}
	for _, r := range rs {
		num := func(c string) interface{} { return value(c, int(r[c].(float64))) }
		var ts interface{}
		lex := []string{}
		for _, x := range r["t"].([]interface{}) {
			lex = append(lex, x.(string))
		}
		if len(lex) == 1 && lex[0] == "NULL" {
			ts = nil
		} else {
			ts = strings.Join(lex, " ")
		}
		if _, err := db.Exec(`INSERT INTO rws VALUES ($1,$2,$3,$4,$5,$6,$7::tsvector)`, int(r["id"].(float64)), num("a"), num("b"), num("c"), num("d"), num("e"), ts); err != nil {
			return err
		}
	}
	_, err := db.Exec("ANALYZE rws")
	return err
}
