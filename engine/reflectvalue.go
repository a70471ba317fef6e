package main

import (
	"go/types"
	"reflect"
)

// A reflect.Value is modelled by its three fields: an interface value with the value, or with a pointer to it if it is
// addressable; an unused pointer; and a flag: 0 invalid, 1 plain, 2 addressable.

type rval struct {
	t    types.Type // nil: invalid
	v    Value      // the value, or its address
	addr bool
}

func (ic *ICall) rval(i int) rval {
	s, ok := ic.e.resolve(ic.st, ic.args[i]).(*StructV)
	if !ok {
		panic(unsupported{"reflected value"})
	}
	switch flag := ic.e.mustConst(ic.st, ic.e.term(ic.st, s.f[2])); flag {
	case 0:
		return rval{}
	case 1:
		x := ic.e.resolve(ic.st, s.f[0]).(Iface)
		return rval{t: x.t, v: x.v}
	default:
		x := ic.e.resolve(ic.st, s.f[0]).(Iface)
		return rval{t: x.t.(*types.Pointer).Elem(), v: x.v, addr: true}
	}
}

func (ic *ICall) mkval(r rval) Value {
	c := ic.e.c
	switch {
	case r.t == nil:
		return &StructV{[]Value{Ptr{}, Ptr{}, c.BV(0, 64)}}
	case r.addr:
		return &StructV{[]Value{Iface{t: types.NewPointer(r.t), v: r.v}, Ptr{}, c.BV(2, 64)}}
	default:
		return &StructV{[]Value{Iface{t: r.t, v: r.v}, Ptr{}, c.BV(1, 64)}}
	}
}

// get returns the value itself.
func (ic *ICall) rget(r rval) Value {
	if r.t == nil {
		panic(goPanic{msg: "reflect: call on zero Value"})
	}
	if r.addr {
		return ic.e.load(ic.st, ic.e.resolve(ic.st, r.v))
	}
	return r.v
}

func (ic *ICall) rset(r rval, v Value) {
	if !r.addr {
		panic(goPanic{msg: "reflect: set of an unaddressable value"})
	}
	ic.e.store(ic.st, r.v, v)
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	panic(unsupported{"kind of " + t.String()})
}

func (ic *ICall) kind(k reflect.Kind) Value { return ic.e.c.BV(uint64(k), 64) }

func reflectValueNatives(m map[string]native) {
	v := func(name string, f func(ic *ICall, r rval) Value) {
		m["(reflect.Value)."+name] = func(ic *ICall) Value { return f(ic, ic.rval(0)) }
	}
	m["reflect.ValueOf"] = func(ic *ICall) Value {
		x := ic.e.resolve(ic.st, ic.args[0]).(Iface)
		return ic.mkval(rval{t: x.t, v: x.v})
	}
	m["reflect.New"] = func(ic *ICall) Value {
		t := ic.rtype(0)
		return ic.mkval(rval{t: types.NewPointer(t), v: Ptr{obj: ic.e.alloc(ic.st, ic.e.zero(t), t)}})
	}
	m["reflect.TypeFor"] = func(ic *ICall) Value { return ic.e.rtypeOf(ic.fn.TypeArgs()[0]) }
	m["reflect.TypeAssert"] = func(ic *ICall) Value {
		t, r := ic.fn.TypeArgs()[0], ic.rval(0)
		if r.t == nil {
			panic(goPanic{msg: "reflect: TypeAssert of zero Value"})
		}
		x := Iface{t: r.t, v: nil}
		if kindOf(r.t) == reflect.Interface {
			x = ic.e.resolve(ic.st, ic.rget(r)).(Iface)
		} else {
			x.v = ic.rget(r)
		}
		if it, ok := t.Underlying().(*types.Interface); ok {
			if x.t != nil && types.Implements(x.t, it) {
				return Tuple{x, ic.e.c.True}
			}
		} else if x.t != nil && types.Identical(x.t, t) {
			return Tuple{x.v, ic.e.c.True}
		}
		return Tuple{ic.e.zero(t), ic.e.c.False}
	}
	v("IsValid", func(ic *ICall, r rval) Value { return ic.e.c.Bool(r.t != nil) })
	v("Kind", func(ic *ICall, r rval) Value {
		if r.t == nil {
			return ic.kind(reflect.Invalid)
		}
		return ic.kind(kindOf(r.t))
	})
	v("Type", func(ic *ICall, r rval) Value { return ic.e.rtypeOf(r.t) })
	v("CanInterface", func(ic *ICall, r rval) Value { return ic.e.c.True })
	v("CanAddr", func(ic *ICall, r rval) Value { return ic.e.c.Bool(r.addr) })
	v("CanSet", func(ic *ICall, r rval) Value { return ic.e.c.Bool(r.addr) })
	v("Addr", func(ic *ICall, r rval) Value { return ic.mkval(rval{t: types.NewPointer(r.t), v: r.v}) })
	v("Interface", func(ic *ICall, r rval) Value {
		x := ic.rget(r)
		if kindOf(r.t) == reflect.Interface {
			return x
		}
		return Iface{t: r.t, v: x}
	})
	v("IsNil", func(ic *ICall, r rval) Value {
		switch x := ic.e.resolve(ic.st, ic.rget(r)).(type) {
		case Ptr:
			return ic.e.c.Bool(x.obj == 0)
		case Slice:
			return ic.e.c.Bool(x.obj == 0)
		case MapV:
			return ic.e.c.Bool(x.obj == 0)
		case Iface:
			return ic.e.c.Bool(x.t == nil)
		}
		panic(unsupported{"reflected nil test of " + r.t.String()})
	})
	v("Elem", func(ic *ICall, r rval) Value {
		x := ic.e.resolve(ic.st, ic.rget(r))
		switch y := x.(type) {
		case Ptr:
			if y.obj == 0 {
				return ic.mkval(rval{})
			}
			return ic.mkval(rval{t: r.t.Underlying().(*types.Pointer).Elem(), v: y, addr: true})
		case Iface:
			return ic.mkval(rval{t: y.t, v: y.v})
		}
		panic(unsupported{"reflected element of " + r.t.String()})
	})
	v("Set", func(ic *ICall, r rval) Value {
		s := ic.rval(1)
		x := ic.rget(s)
		if kindOf(r.t) == reflect.Interface && kindOf(s.t) != reflect.Interface {
			x = Iface{t: s.t, v: x}
		}
		ic.rset(r, x)
		return nil
	})
	for _, n := range []string{"SetString", "SetBytes", "SetBool"} {
		v(n, func(ic *ICall, r rval) Value { ic.rset(r, ic.args[1]); return nil })
	}
	v("NumField", func(ic *ICall, r rval) Value {
		return ic.e.c.BV(uint64(r.t.Underlying().(*types.Struct).NumFields()), 64)
	})
	v("Field", func(ic *ICall, r rval) Value {
		i := int(ic.konst(1))
		ft := r.t.Underlying().(*types.Struct).Field(i).Type()
		if r.addr {
			return ic.mkval(rval{t: ft, v: ic.e.fieldAddr(ic.st, ic.e.resolve(ic.st, r.v), i), addr: true})
		}
		return ic.mkval(rval{t: ft, v: ic.e.resolve(ic.st, r.v).(*StructV).f[i]})
	})
	v("Len", func(ic *ICall, r rval) Value {
		if s, ok := ic.e.resolve(ic.st, ic.rget(r)).(Slice); ok {
			return ic.e.c.BV(uint64(s.len), 64)
		}
		panic(unsupported{"reflected length of " + r.t.String()})
	})
	v("Grow", func(ic *ICall, r rval) Value {
		n := int(ic.konst(1))
		s := ic.e.resolve(ic.st, ic.rget(r)).(Slice)
		if s.len+n > s.cap {
			g := ic.e.newSlice(ic.st, r.t.Underlying().(*types.Slice).Elem(), ic.e.sliceElems(ic.st, s), max(4, 2*(s.len+n)))
			ic.rset(r, g)
		}
		return nil
	})
	v("SetLen", func(ic *ICall, r rval) Value {
		n := int(ic.konst(1))
		s := ic.e.resolve(ic.st, ic.rget(r)).(Slice)
		if n < 0 || n > s.cap {
			panic(goPanic{msg: "reflect: slice length out of range in SetLen"})
		}
		s.len = n
		ic.rset(r, s)
		return nil
	})
	v("Index", func(ic *ICall, r rval) Value {
		i := int(ic.konst(1))
		s, ok := ic.e.resolve(ic.st, ic.rget(r)).(Slice)
		if !ok {
			panic(unsupported{"reflected element of " + r.t.String()})
		}
		if i < 0 || i >= s.len {
			panic(goPanic{msg: "reflect: slice index out of range"})
		}
		p := Ptr{obj: s.obj, path: append(s.path[:len(s.path):len(s.path)], PE{i: s.off + i})}
		return ic.mkval(rval{t: r.t.Underlying().(*types.Slice).Elem(), v: p, addr: true})
	})
	m["(*reflect.rtype).Kind"] = func(ic *ICall) Value { return ic.kind(kindOf(ic.rtype(0))) }
	m["(*reflect.rtype).NumField"] = func(ic *ICall) Value {
		return ic.e.c.BV(uint64(ic.rtype(0).Underlying().(*types.Struct).NumFields()), 64)
	}
	m["(*reflect.rtype).Field"] = func(ic *ICall) Value {
		i := int(ic.konst(1))
		s := ic.rtype(0).Underlying().(*types.Struct)
		f := s.Field(i)
		pkg := ""
		if !f.Exported() {
			pkg = f.Pkg().Path()
		}
		idx := ic.e.newSlice(ic.st, types.Typ[types.Int], []Value{ic.e.c.BV(uint64(i), 64)}, 1)
		return &StructV{[]Value{Str{s: f.Name()}, Str{s: pkg}, ic.e.rtypeOf(f.Type()), Str{s: s.Tag(i)}, ic.e.c.BV(0, 64), idx, ic.e.c.Bool(f.Anonymous())}}
	}
}

// interpretedReflect are the functions of package reflect that are executed as they are.
var interpretedReflect = map[string]bool{
	"(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true, "(reflect.StructField).IsExported": true,
}
