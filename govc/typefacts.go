package main

import (
	"fmt"
	"go/types"
)

// typeFacts states what reflection tells about the types named in the
// contracts; it is read off the types of the program.
func (g *Gen) typeFacts() {
	if _, ok := g.spec.Fns["typeOfTag"]; !ok {
		return
	}
	for _, n := range []string{"typeOfTag", "tkind", "telem", "tIn", "tOut", "tNumIn", "tNumOut", "tVariadic"} {
		g.declFn(g.spec.Fns[n])
	}
	seen := map[int]bool{}
	var fact func(t types.Type) string
	fact = func(t types.Type) string {
		id := g.tag(t)
		n := fmt.Sprintf("(typeOfTag %d)", id)
		if seen[id] {
			return n
		}
		seen[id] = true
		ax := func(f string, a ...any) { g.axiom(fmt.Sprintf(f, a...), []string{"typeOfTag"}) }
		kind := 0
		switch u := t.Underlying().(type) {
		case *types.Basic:
			kind = map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}[u.Kind()]
		case *types.Array:
			kind = 17
			ax("(= (telem %s) %s)", n, fact(u.Elem()))
		case *types.Chan:
			kind = 18
		case *types.Signature:
			kind = 19
			ax("(= (tNumIn %s) %d)", n, u.Params().Len())
			ax("(= (tNumOut %s) %d)", n, u.Results().Len())
			ax("(= (tVariadic %s) %v)", n, u.Variadic())
			for i := 0; i < u.Params().Len(); i++ {
				ax("(= (tIn %s %d) %s)", n, i, fact(u.Params().At(i).Type()))
			}
			for i := 0; i < u.Results().Len(); i++ {
				ax("(= (tOut %s %d) %s)", n, i, fact(u.Results().At(i).Type()))
			}
		case *types.Interface:
			kind = 20
		case *types.Map:
			kind = 21
		case *types.Pointer:
			kind = 22
			ax("(= (telem %s) %s)", n, fact(u.Elem()))
		case *types.Slice:
			kind = 23
			ax("(= (telem %s) %s)", n, fact(u.Elem()))
		case *types.Struct:
			kind = 25
		}
		ax("(= (tkind %s) %d)", n, kind)
		return n
	}
	for _, r := range g.spec.TypeFacts {
		t, err := g.goType(r)
		if err != nil {
			panic(specErr{err.Error()})
		}
		fact(t)
	}
}
