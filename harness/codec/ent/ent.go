// Package ent describes the methods generated for a column and a Go type.
package ent

// Entry holds, by what they do, the query structs of one column and one Go type:
// insert, update, select, and eq, ne, nd, di, in, ni for the conditions.
type Entry struct {
	Col, Base, Go string
	New           map[string]func() interface{}
}
