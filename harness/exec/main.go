// Replays the behaviours of Exec.tla against generated methods.
package main

import (
	"bufio"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"

	. "vexec/env"
	"vexec/plain"
	"vexec/withctx"
)

type failure struct {
	Class, Detail, Name string
	Trace               json.RawMessage
}

type out struct {
	Traces, Rows, Failed int
	Failures             []failure
}

// names of the query types, by shape
var names map[string]string

func key(s Shape) string {
	return fmt.Sprintf("%s %s %s %s %s %s %s %v %v %v", s.Op, s.Out, s.Dst, s.Handler, s.Via, s.Ctx, s.Extra, s.Many, s.Ptr, s.Hook)
}

var kinds = map[string]string{"select": "Select", "insert": "Insert", "update": "Update", "delete": "Delete"}

func main() {
	db := sql.OpenDB(Connector{})
	db.SetMaxOpenConns(1)
	o := out{Failures: []failure{}}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		t := new(Trace)
		if err := json.Unmarshal(sc.Bytes(), t); err != nil {
			panic(err)
		}
		k := key(t.Shape)
		run, name := plain.Runs[k], plain.Names[k]
		if t.Shape.Ctx == "arg" {
			run, name = withctx.Runs[k], withctx.Names[k]
		}
		if run == nil {
			panic("no query for " + k)
		}
		o.Traces++
		e := New(t)
		add := func(class, format string, args ...interface{}) {
			if o.Failed < 200 {
				o.Failures = append(o.Failures, failure{class, fmt.Sprintf(format, args...), name, append(json.RawMessage{}, sc.Bytes()...)})
			}
			o.Failed++
		}
		err, panicked := call(run, e, db)
		if panicked != "" {
			add("panic", "%s panics: %s", name, panicked)
			db = sql.OpenDB(Connector{})
			db.SetMaxOpenConns(1)
			continue
		}
		o.Rows += e.Rows
		judge(t, e, err, name, db, add)
	}
	json.NewEncoder(os.Stdout).Encode(o)
}

func call(run func(*E, *sql.DB) error, e *E, db *sql.DB) (err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	return run(e, db), ""
}

func isFailure(err error, what string, t *Trace) bool {
	if errors.Is(err, Failures[what]) {
		return true
	}
	scalar := t.Shape.Out == "count" || t.Shape.Out == "exists" || t.Shape.Out == "notexists"
	return what == "scan" && scalar && err != nil && strings.Contains(err.Error(), "Scan error")
}

func judge(t *Trace, e *E, err error, name string, db *sql.DB, add func(class, format string, args ...interface{})) {
	s := t.Shape
	// --- what is returned (C05)
	switch t.Ret {
	case "nil":
		if err != nil {
			add("errors", "%s returns %q, want success", name, err)
		}
	case "fail":
		if !isFailure(err, t.Failure, t) {
			add("errors", "%s returns %v, want the %s failure", name, err, t.Failure)
		}
	case "handled":
		if err != ErrWrapped {
			add("errors", "%s returns %v, want what the handler made of the %s failure", name, err, t.Failure)
		}
	}
	// --- whom the failure is told (C05)
	if len(e.Told) != len(t.Told) {
		add("errors", "%s tells its handler %d failures %v, want %v", name, len(e.Told), e.Told, t.Told)
	} else if len(t.Told) == 1 && !isFailure(e.Told[0], t.Told[0], t) {
		add("errors", "%s tells its handler %v, want the %s failure", name, e.Told[0], t.Told[0])
	}
	if s.Handler == "info" && e.NilTold > 0 {
		add("errors", "%s tells its ErrorInfoHandler about a failure that did not happen", name)
	}
	if e.NilTold > 0 && len(t.Told) > 0 {
		add("errors", "%s tells its handler nil although it failed", name)
	}
	if s.Handler == "info" && len(e.Infos) == 1 && len(t.Told) == 1 {
		i := e.Infos[0]
		if len(e.Sent) != 1 || i.QueryString != e.Sent[0] {
			add("errors", "%s: ErrorInfo.QueryString is %q, executed %q", name, i.QueryString, e.Sent)
		}
		if i.QueryKind != kinds[s.Op] || i.QueryName != name || !reflect.DeepEqual(reflect.ValueOf(i.QueryValue).Kind(), reflect.Ptr) || i.QueryValue != e.QV {
			add("errors", "%s: ErrorInfo has kind %q, name %q, value %T", name, i.QueryKind, i.QueryName, i.QueryValue)
		}
	}
	// --- what is sent
	if len(e.Sent) != 1 {
		add("errors", "%s sends %d statements", name, len(e.Sent))
	} else {
		want := interface{}(nil)
		if s.Ctx != "none" {
			want = e
		}
		if e.CtxSeen[0] != want {
			add("errors", "%s does not execute under the context it was given", name)
		}
	}
	// --- what is delivered (C06)
	iter := s.Out == "iterF" || s.Out == "iterI"
	if iter || s.Out == "list" || (s.Out == "one" || s.Out == "back") && t.Failure == "-" {
		var want []string
		for k := 1; k <= t.Given; k++ {
			want = append(want, Want(k))
		}
		if s.Out == "back" {
			for k := t.Given + 1; k <= t.Inputs; k++ {
				want = append(want, "untouched")
			}
		}
		got := e.Got
		if s.Out == "list" && len(got) > t.Given && t.Failure != "-" {
			add("delivery", "%s delivers %d records, %d were good: %v", name, len(got), t.Given, got)
		} else if fmt.Sprint(got) != fmt.Sprint(want) {
			add("delivery", "%s delivers %v, want %v", name, got, want)
		}
	}
	if s.Hook && (t.Failure == "-" || s.Out != "back") {
		var want []string
		for k := 1; k <= t.Hooked; k++ {
			want = append(want, Want(k))
		}
		if fmt.Sprint(e.Hooks) != fmt.Sprint(want) {
			add("delivery", "%s runs the hook on %v, want %v", name, e.Hooks, want)
		}
	}
	if t.Failure == "-" {
		switch s.Out {
		case "count":
			if fmt.Sprint(e.Scalar) != "31" {
				add("delivery", "%s yields %v, want 31", name, e.Scalar)
			}
		case "exists", "notexists":
			if e.Scalar != true {
				add("delivery", "%s yields %v, want true", name, e.Scalar)
			}
		case "affected":
			if e.RowsAff != Affected {
				add("delivery", "%s reports %d affected rows, want %d", name, e.RowsAff, Affected)
			}
		}
	}
	// --- what is left open (C06)
	if e.Opened != e.Closed || db.Stats().InUse != 0 {
		add("delivery", "%s leaves a result set open (opened %d, closed %d, connections in use %d)", name, e.Opened, e.Closed, db.Stats().InUse)
	}
}
