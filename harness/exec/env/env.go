// Package env plays the environment of Exec.tla: a scripted database/sql driver,
// record types with hooks, iterators and error handlers that log what they see.
package env

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/frk/gosql"
)

type Ev struct{ At, Do string }

type Shape struct {
	Op, Out, Dst, Handler, Via, Ctx, Extra string
	Many, Ptr, Hook                        bool
}

type Trace struct {
	Shape   Shape
	Inputs  int
	Script  []Ev
	Ret     string
	Failure string
	Told    []string
	Hooked  int
	Given   int
}

// failures the environment injects
var (
	ErrCall     = errors.New("injected: call")
	ErrNext     = errors.New("injected: next")
	ErrScan     = errors.New("injected: scan")
	ErrClose    = errors.New("injected: close")
	ErrAffected = errors.New("injected: affected")
	ErrDeliver  = errors.New("injected: deliver")
	ErrWrapped  = errors.New("handler's own error")
)

var Failures = map[string]error{"call": ErrCall, "next": ErrNext, "scan": ErrScan, "close": ErrClose,
	"affected": ErrAffected, "deliver": ErrDeliver, "norows": sql.ErrNoRows}

const Affected = 7

// E is one run.
type E struct {
	T *Trace
	// script, by step
	next, scan, deliver []string
	call, close, aff    string
	react               string

	// observations
	Sent     []string // statements received by the driver
	Args     [][]driver.NamedValue
	CtxSeen  []interface{}
	Rows     int // rows handed out by the driver
	Opened   int
	Closed   int
	Hooks    []string // snapshots at hook time
	Got      []string // snapshots at delivery
	Told     []error
	NilTold  int
	Infos    []*gosql.ErrorInfo
	Scalar   interface{}
	RowsAff  int64
	QV       interface{}
	Iterated int
	Ctx      context.Context
}

type ctxKey struct{}

var Cur *E

func New(t *Trace) *E {
	e := &E{T: t}
	for _, ev := range t.Script {
		switch ev.At {
		case "call":
			e.call = ev.Do
		case "next":
			e.next = append(e.next, ev.Do)
		case "scan":
			e.scan = append(e.scan, ev.Do)
		case "deliver":
			e.deliver = append(e.deliver, ev.Do)
		case "close":
			e.close = ev.Do
		case "affected":
			e.aff = ev.Do
		case "handle":
			e.react = ev.Do
		}
	}
	e.Ctx = context.WithValue(context.Background(), ctxKey{}, e)
	Cur = e
	return e
}

// ---------------------------------------------------------------- records

type Name string

func (n *Name) Scan(v interface{}) error {
	switch v := v.(type) {
	case string:
		if v == "BOOM" {
			return ErrScan
		}
		*n = Name(v)
	case []byte:
		*n = Name(v)
	default:
		return fmt.Errorf("Name: %T", v)
	}
	return nil
}

func (n Name) Value() (driver.Value, error) { return string(n), nil }

type Sub struct {
	X int `sql:"x"`
}

// Rec has no hook.
type Rec struct {
	Id     int     `sql:"id"`
	Name   Name    `sql:"name"`
	Note   *string `sql:"note"`
	Sub    *Sub    `sql:">sub_"`
	Hooked int
}

// HRec has a hook.
type HRec struct {
	Id     int     `sql:"id"`
	Name   Name    `sql:"name"`
	Note   *string `sql:"note"`
	Sub    *Sub    `sql:">sub_"`
	Hooked int
}

func (r *HRec) AfterScan() {
	Cur.Hooks = append(Cur.Hooks, snap(r.Id, r.Name, r.Note, r.Sub))
	r.Hooked++
}

// PRec has its columns and no hook from an embedded type, QRec its columns and its hook.
type PRec struct {
	Rec `sql:">"`
}
type QRec struct {
	HRec `sql:">"`
}

func snap(id int, name Name, note *string, sub *Sub) string {
	s := fmt.Sprintf("%d/%s", id, name)
	if note == nil {
		s += "/nil"
	} else {
		s += "/" + *note
	}
	if sub == nil {
		return s + "/nil"
	}
	return s + fmt.Sprintf("/%d", sub.X)
}

// values of row k (1-based) as the database holds them
func Want(k int) string {
	if k%2 == 0 {
		return fmt.Sprintf("%d/n%d/nil/%d", 10*k+1, k, 10*k+2)
	}
	return fmt.Sprintf("%d/n%d/t%d/%d", 10*k+1, k, k, 10*k+2)
}

func (e *E) value(col string, k int) driver.Value {
	switch col {
	case "id":
		return int64(10*k + 1)
	case "name":
		if k <= len(e.scan) && e.scan[k-1] == "fail" {
			return "BOOM"
		}
		return fmt.Sprintf("n%d", k)
	case "note":
		if k%2 == 0 {
			return nil
		}
		return fmt.Sprintf("t%d", k)
	case "sub_x":
		return int64(10*k + 2)
	}
	panic("unknown column " + col)
}

func Snap(v interface{}) (string, int) {
	switch r := v.(type) {
	case *Rec:
		return snap(r.Id, r.Name, r.Note, r.Sub), r.Hooked
	case *HRec:
		return snap(r.Id, r.Name, r.Note, r.Sub), r.Hooked
	case *PRec:
		return snap(r.Id, r.Name, r.Note, r.Sub), r.Hooked
	case *QRec:
		return snap(r.Id, r.Name, r.Note, r.Sub), r.Hooked
	}
	panic(fmt.Sprintf("snap %T", v))
}

// Give is what iterators do with a record; hooked records must have been hooked once.
func (e *E) Give(v interface{}) error {
	e.give(v)
	e.Iterated++
	if n := len(e.Got); n <= len(e.deliver) && e.deliver[n-1] == "fail" {
		return ErrDeliver
	}
	return nil
}

func (e *E) give(v interface{}) {
	s, n := Snap(v)
	want := 0
	if e.T.Shape.Hook {
		want = 1
	}
	if n != want {
		s += fmt.Sprintf(" (hook ran %d times)", n)
	}
	e.Got = append(e.Got, s)
}

// Collect notes the records found in the query value after Exec returned.
func (e *E) Collect(v interface{}) { e.give(v) }

// fill gives an input record recognisable values
func (e *E) Fill(v interface{}, k int) {
	note := "in"
	id, name, sub := -k, Name(fmt.Sprintf("in%d", k)), &Sub{X: -100 - k}
	switch r := v.(type) {
	case *Rec:
		*r = Rec{Id: id, Name: name, Note: &note, Sub: sub}
	case *HRec:
		*r = HRec{Id: id, Name: name, Note: &note, Sub: sub}
	case *PRec:
		r.Rec = Rec{Id: id, Name: name, Note: &note, Sub: sub}
	case *QRec:
		r.HRec = HRec{Id: id, Name: name, Note: &note, Sub: sub}
	}
}

// ---------------------------------------------------------------- handlers

type ErrH struct{ E *E }

func (h ErrH) HandleError(err error) error {
	if err == nil {
		h.E.NilTold++
		return nil
	}
	h.E.Told = append(h.E.Told, err)
	return h.E.reaction(err)
}

type InfoH struct{ E *E }

func (h InfoH) HandleErrorInfo(i *gosql.ErrorInfo) error {
	h.E.Infos = append(h.E.Infos, i)
	if i.Error == nil {
		h.E.NilTold++
		return nil
	}
	h.E.Told = append(h.E.Told, i.Error)
	return h.E.reaction(i.Error)
}

func (e *E) reaction(err error) error {
	switch e.react {
	case "wrap":
		return ErrWrapped
	case "swallow":
		return nil
	}
	return err
}

// ---------------------------------------------------------------- filter

type Filt struct{}

func (Filt) ToSQL(pos int) (string, []interface{}) {
	return fmt.Sprintf(` WHERE "id" <> $%d`, pos+1), []interface{}{4711}
}

// ---------------------------------------------------------------- driver

type Connector struct{}

func (Connector) Connect(context.Context) (driver.Conn, error) { return &conn{}, nil }
func (Connector) Driver() driver.Driver                         { return nil }

type conn struct{}

func (*conn) Prepare(q string) (driver.Stmt, error)        { return nil, errors.New("unexpected Prepare") }
func (*conn) Close() error                                 { return nil }
func (*conn) Begin() (driver.Tx, error)                    { return nil, errors.New("unexpected Begin") }
func (*conn) CheckNamedValue(nv *driver.NamedValue) error  { return nil }

func (e *E) sent(ctx context.Context, q string, args []driver.NamedValue) error {
	e.Sent = append(e.Sent, q)
	e.Args = append(e.Args, args)
	e.CtxSeen = append(e.CtxSeen, ctx.Value(ctxKey{}))
	if e.call == "fail" {
		return ErrCall
	}
	return nil
}

func (*conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	e := Cur
	if err := e.sent(ctx, q, args); err != nil {
		return nil, err
	}
	return result{e}, nil
}

func (*conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	e := Cur
	if err := e.sent(ctx, q, args); err != nil {
		return nil, err
	}
	e.Opened++
	return &rows{e: e, cols: e.columns(q)}, nil
}

type result struct{ e *E }

func (result) LastInsertId() (int64, error) { return 0, errors.New("no id") }
func (r result) RowsAffected() (int64, error) {
	if r.e.aff == "fail" {
		return 99, ErrAffected
	}
	return Affected, nil
}

var (
	rxSelect = regexp.MustCompile(`(?is)^\s*SELECT(.*?)\bFROM\b`)
	rxRet    = regexp.MustCompile(`(?is)\bRETURNING\b(.*)$`)
	rxCol    = regexp.MustCompile(`\b(id|name|note|sub_x)\b`)
)

// columns finds out which columns the statement asks for, in order.
func (e *E) columns(q string) []string {
	switch e.T.Shape.Out {
	case "count", "exists", "notexists":
		return []string{"v"}
	}
	rx := rxRet
	if e.T.Shape.Op == "select" {
		rx = rxSelect
	}
	m := rx.FindStringSubmatch(q)
	if m == nil {
		panic("no output columns in " + q)
	}
	var out []string
	for _, c := range strings.Split(m[1], ",") {
		x := rxCol.FindAllString(c, -1)
		if len(x) == 0 {
			continue // second half of a coalesce
		}
		out = append(out, x[len(x)-1])
	}
	return out
}

type rows struct {
	e    *E
	cols []string
	n    int // Next calls
	k    int // rows handed out
}

func (r *rows) Columns() []string { return r.cols }
func (r *rows) Close() error {
	r.e.Closed++
	if r.e.close == "fail" {
		return ErrClose
	}
	return nil
}

func (r *rows) Next(dest []driver.Value) error {
	e := r.e
	do := "end"
	if r.n < len(e.next) {
		do = e.next[r.n]
	} else if e.T.Given > 0 && (e.T.Shape.Out == "one") {
		do = "row" // rows beyond the first are the environment's business
	}
	r.n++
	switch do {
	case "fail":
		return ErrNext
	case "end":
		return io.EOF
	}
	r.k++
	e.Rows++
	if len(r.cols) == 1 && r.cols[0] == "v" {
		switch {
		case len(e.scan) > 0 && e.scan[0] == "fail":
			dest[0] = "BOOM"
		case e.T.Shape.Out == "count":
			dest[0] = int64(31)
		default:
			dest[0] = true
		}
		return nil
	}
	for i, c := range r.cols {
		dest[i] = e.value(c, r.k)
	}
	return nil
}
