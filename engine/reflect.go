package main

import (
	"go/types"

	"golang.org/x/tools/go/types/typeutil"
)

// Run-time type descriptors: one base-heap object per type, so that identity of descriptors is identity of types.
type rtypes struct {
	ids typeutil.Map
	of  map[int]types.Type
}

func (e *Engine) rtypeOf(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	p := e.prog.ImportedPackage("reflect")
	if p == nil {
		panic(unsupported{"reflection without package reflect"})
	}
	rt := p.Pkg.Scope().Lookup("rtype").Type()
	if e.rt.of == nil {
		e.rt.of = map[int]types.Type{}
	}
	id, ok := e.rt.ids.At(t).(int)
	if !ok {
		id = e.nextObj
		e.nextObj++
		e.base[id] = &Obj{id: id, v: e.zero(rt), typ: rt}
		e.rt.ids.Set(t, id)
		e.rt.of[id] = t
	}
	return Iface{t: types.NewPointer(rt), v: Ptr{obj: id}}
}

func (ic *ICall) rtype(i int) types.Type {
	v := ic.e.resolve(ic.st, ic.args[i])
	if x, ok := v.(Iface); ok {
		v = x.v
	}
	p, ok := v.(Ptr)
	if !ok || ic.e.rt.of[p.obj] == nil {
		panic(unsupported{"reflection on an unknown type descriptor"})
	}
	return ic.e.rt.of[p.obj]
}

func relQual(p *types.Package) string { return p.Name() }

func reflectNatives(m map[string]native) {
	m["reflect.TypeOf"] = func(ic *ICall) Value {
		return ic.e.rtypeOf(ic.e.resolve(ic.st, ic.args[0]).(Iface).t)
	}
	m["(*reflect.rtype).Elem"] = func(ic *ICall) Value {
		switch t := ic.rtype(0).Underlying().(type) {
		case interface{ Elem() types.Type }:
			return ic.e.rtypeOf(t.Elem())
		}
		panic(goPanic{msg: "reflect: Elem of invalid type"})
	}
	m["(*reflect.rtype).Implements"] = func(ic *ICall) Value {
		it, ok := ic.rtype(1).Underlying().(*types.Interface)
		if !ok {
			panic(goPanic{msg: "reflect: non-interface type passed to Type.Implements"})
		}
		return ic.e.c.Bool(types.Implements(ic.rtype(0), it))
	}
	m["(*reflect.rtype).ConvertibleTo"] = func(ic *ICall) Value {
		return ic.e.c.Bool(types.ConvertibleTo(ic.rtype(0), ic.rtype(1)))
	}
	m["(*reflect.rtype).AssignableTo"] = func(ic *ICall) Value {
		return ic.e.c.Bool(types.AssignableTo(ic.rtype(0), ic.rtype(1)))
	}
	m["(*reflect.rtype).String"] = func(ic *ICall) Value {
		return Str{s: types.TypeString(ic.rtype(0), relQual)}
	}
	m["(*reflect.rtype).Name"] = func(ic *ICall) Value {
		switch t := ic.rtype(0).(type) {
		case *types.Named:
			return Str{s: t.Obj().Name()}
		case *types.Basic:
			return Str{s: t.Name()}
		}
		return Str{}
	}
	// sort.Slice and friends
	m["internal/reflectlite.ValueOf"] = func(ic *ICall) Value {
		return &StructV{[]Value{ic.args[0], Ptr{}, ic.e.c.BV(0, 64)}}
	}
	m["(internal/reflectlite.Value).Len"] = func(ic *ICall) Value {
		s, ok := ic.e.resolve(ic.st, ic.args[0]).(*StructV)
		if ok {
			if iv, ok := ic.e.resolve(ic.st, s.f[0]).(Iface); ok {
				if sl, ok := ic.e.resolve(ic.st, iv.v).(Slice); ok {
					return ic.e.c.BV(uint64(sl.len), 64)
				}
			}
		}
		panic(unsupported{"reflected length"})
	}
	m["internal/reflectlite.Swapper"] = func(ic *ICall) Value {
		iv := ic.e.resolve(ic.st, ic.args[0]).(Iface)
		if _, ok := ic.e.resolve(ic.st, iv.v).(Slice); !ok {
			panic(unsupported{"swapper of something other than a slice"})
		}
		return &FuncV{native: swapNative, binds: []Value{iv.v}, name: "swapper"}
	}
}

func swapNative(ic *ICall) Value {
	e := ic.e
	s := e.resolve(ic.st, ic.binds[0]).(Slice)
	i, j := int(ic.konst(0)), int(ic.konst(1))
	if i < 0 || j < 0 || i >= s.len || j >= s.len {
		panic(goPanic{msg: "reflect: slice index out of range"})
	}
	a := e.sliceElems(ic.st, s)
	e.writeSlice(ic.st, s, i, []Value{a[j]})
	e.writeSlice(ic.st, s, j, []Value{a[i]})
	return nil
}
