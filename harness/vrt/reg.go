// Package vrt is the run-time half of the harness: it is linked with generated packages and drives them.
package vrt

import "reflect"

type Type struct {
	Case, Name string
	New, Plain func() any
	Strict     bool
	Transit    bool
	Dec, Enc   bool
	Custom     bool
	Helper     bool
	Cell       string
	Alias      bool // declared over another declared type
	U8         bool // unnamed uint8 elements are written "uint8" in the source

	rt       reflect.Type
	plainOK  bool
	plainDec bool // for decoding
}

var Types []*Type
var byType = map[reflect.Type]*Type{}

func Register(t Type) {
	t.rt = reflect.TypeOf(t.New()).Elem()
	p := &t
	Types = append(Types, p)
	byType[t.rt] = p
}
