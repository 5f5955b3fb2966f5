package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effect is the set of heaps a function may write.
type effect struct {
	heaps map[string]bool
	all   bool
}

var effMemo = map[*ssa.Function]*effect{}
var dirMemo = map[*ssa.Function]*direct{}

type direct struct {
	heaps map[string]bool
	all   bool
	calls []*ssa.Function
}

func (g *Gen) effects(fn *ssa.Function) *effect {
	if e := effMemo[fn]; e != nil {
		return e
	}
	e := &effect{heaps: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		d := g.direct(f)
		for h := range d.heaps {
			e.heaps[h] = true
		}
		e.all = e.all || d.all
		for _, c := range d.calls {
			walk(c)
		}
	}
	walk(fn)
	effMemo[fn] = e
	return e
}

func (g *Gen) sameSCC(a, b *ssa.Function) bool {
	if a == nil || b == nil {
		return false
	}
	reach := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for _, c := range g.direct(f).calls {
				if c == to {
					return true
				}
				if !seen[c] {
					seen[c] = true
					if walk(c) {
						return true
					}
				}
			}
			return false
		}
		return walk(from)
	}
	return reach(b, a)
}

func (g *Gen) typeHeaps(t types.Type, out map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for _, gf := range g.ghostFields(t) {
			out[g.ghostHeap(gf)] = true
		}
		if g.opaque(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			out[g.fieldHeap(t, i)] = true
		}
	case *types.Array:
		out[g.elemHeap(u.Elem())] = true
	default:
		out[g.cellHeap(t)] = true
	}
}

func (g *Gen) addrHeaps(v ssa.Value, out map[string]bool) {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		switch b := a.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			g.addrHeaps(b, out)
			return
		}
		st := a.X.Type().Underlying().(*types.Pointer).Elem()
		if !g.opaque(st) {
			out[g.fieldHeap(st, a.Field)] = true
		}
	case *ssa.IndexAddr:
		switch u := a.X.Type().Underlying().(type) {
		case *types.Slice:
			out[g.elemHeap(u.Elem())] = true
		case *types.Pointer:
			out[g.elemHeap(u.Elem().Underlying().(*types.Array).Elem())] = true
		}
	case *ssa.Global:
		out[g.globalVar(a)] = true
	case *ssa.Alloc:
		if !a.Heap {
			if _, arr := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array); !arr {
				return
			}
		}
		g.typeHeaps(a.Type().(*types.Pointer).Elem(), out)
	default:
		g.typeHeaps(v.Type().Underlying().(*types.Pointer).Elem(), out)
	}
}

func (g *Gen) direct(fn *ssa.Function) *direct {
	if d := dirMemo[fn]; d != nil {
		return d
	}
	d := &direct{heaps: map[string]bool{}}
	dirMemo[fn] = d
	contract := func(c *Contract, sig []types.Type) {
		if c.Pure {
			return
		}
		hs, all := g.modHeaps(c, sig)
		for h := range hs {
			d.heaps[h] = true
		}
		if all {
			d.all = true
		}
	}
	x := &Exec{g: g}
	call := func(c *ssa.CallCommon) {
		if bi, ok := c.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append", "copy":
				d.heaps[g.elemHeap(c.Args[0].Type().Underlying().(*types.Slice).Elem())] = true
			case "delete":
				a, b, n := g.mapHeaps(c.Args[0].Type().Underlying().(*types.Map))
				d.heaps[a], d.heaps[b], d.heaps[n] = true, true, true
			}
			return
		}
		if c.IsInvoke() {
			t := c.Value.Type()
			if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
				t = tp.Constraint()
			}
			ct := x.contract(ifaceKey(t, c.Method.Name()))
			if ct == nil {
				if it, ok := t.Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumEmbeddeds(); i++ {
						if k := ifaceKey(it.EmbeddedType(i), c.Method.Name()); ct == nil {
							ct = x.contract(k)
						}
					}
				}
			}
			switch {
			case ct == nil:
				d.all = true
			case ct.Pure:
			case len(ct.Cases) > 0:
				for _, k := range ct.Cases {
					if f := g.p.funcs[k]; f != nil {
						d.calls = append(d.calls, f)
					}
				}
			default:
				d.all = true
			}
			return
		}
		if f := c.StaticCallee(); f != nil {
			key := funcKey(f)
			if g.p.isRepo(f) && len(f.Blocks) > 0 {
				d.calls = append(d.calls, f)
				return
			}
			if key == "errors.As" {
				if mi, ok := c.Args[1].(*ssa.MakeInterface); ok {
					if pt, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
						d.heaps[g.cellHeap(pt.Elem())] = true
					}
				}
				return
			}
			if ct := x.contract(key); ct != nil {
				var ts []types.Type
				for _, p := range f.Params {
					ts = append(ts, p.Type())
				}
				if len(ts) == 0 {
					if r := f.Signature.Recv(); r != nil {
						ts = append(ts, r.Type())
					}
					for i := 0; i < f.Signature.Params().Len(); i++ {
						ts = append(ts, f.Signature.Params().At(i).Type())
					}
				}
				contract(ct, ts)
			}
			return
		}
		// a function value
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
			key := tstr(n.Origin())
			if i := strings.Index(key, "["); i > 0 {
				key = key[:i]
			}
			if ct := x.contract(key); ct != nil {
				if len(ct.Cases) > 0 {
					for _, k := range ct.Cases {
						if f := g.p.funcs[k]; f != nil {
							d.calls = append(d.calls, f)
						}
					}
					return
				}
				if !ct.Pure {
					d.all = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				g.addrHeaps(i.Addr, d.heaps)
			case *ssa.Alloc:
				g.addrHeaps(i, d.heaps)
			case *ssa.MakeSlice:
				d.heaps[g.elemHeap(i.Type().Underlying().(*types.Slice).Elem())] = true
			case *ssa.Convert:
				if sl, ok := i.Type().Underlying().(*types.Slice); ok {
					d.heaps[g.elemHeap(sl.Elem())] = true
				}
			case *ssa.MakeMap:
				a, _, n := g.mapHeaps(i.Type().Underlying().(*types.Map))
				d.heaps[a], d.heaps[n] = true, true
			case *ssa.MapUpdate:
				a, v, n := g.mapHeaps(i.Map.Type().Underlying().(*types.Map))
				d.heaps[a], d.heaps[v], d.heaps[n] = true, true, true
			case *ssa.Call:
				call(&i.Call)
			case *ssa.Defer:
				call(&i.Call)
			}
			for _, op := range i.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok && g.p.isRepo(f) && len(f.Blocks) > 0 {
					if c, isC := i.(ssa.CallInstruction); isC && c.Common().Value == ssa.Value(f) {
						continue
					}
					d.calls = append(d.calls, f)
				}
			}
		}
	}
	return d
}

// modHeaps gives the heaps named in the modifies clause of an external function.
func (g *Gen) modHeaps(c *Contract, ts []types.Type) (out map[string]bool, all bool) {
	out = map[string]bool{}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); !ok {
				panic(r)
			}
			all = true
		}
	}()
	if len(c.Mods) == 0 {
		return out, false
	}
	x := newExec(g, nil, "", nil)
	x.dry = 1
	st := &State{v: map[string]string{}}
	x.entry = st
	env := &Env{x: x, g: g, st: st, old: st, vars: map[string]TV{}}
	for i, n := range c.Params {
		if i < len(ts) {
			s := g.sortOf(ts[i])
			env.vars[n] = TV{S: "dummy", Sort: s, T: ts[i]}
		}
	}
	for _, l := range c.Lets {
		env.vars[l.Title] = env.eval(l.E)
	}
	mods, all := x.evalMods(env, c.Mods)
	for _, m := range mods {
		out[m.heap] = true
	}
	return out, all
}
