package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Str, Ptr, Slice, *StructV, *ArrayV, Iface, *FuncV, MapV, ChanV, Tuple, *Union, Poison, nil
type Value interface{}

type Poison struct{ why string }

// Str is a string of concrete length; bytes are terms when sym.
type Str struct {
	s   string
	b   []*Term
	sym bool
}

func (s Str) Len() int {
	if s.sym {
		return len(s.b)
	}
	return len(s.s)
}

type PE struct {
	i int
	s *Term
}

type Ptr struct {
	obj  int // 0 = nil
	path []PE
}

type Slice struct {
	obj           int // 0 = nil
	path          []PE
	off, len, cap int
}

type StructV struct{ f []Value }

const chunkSize = 64

// ArrayV is an immutable array with shared chunks; nil chunk = all default.
type ArrayV struct {
	n      int
	def    Value
	chunks [][]Value
}

func NewArrayV(n int, def Value) *ArrayV {
	return &ArrayV{n: n, def: def, chunks: make([][]Value, (n+chunkSize-1)/chunkSize)}
}

func ArrayOf(def Value, vs []Value) *ArrayV {
	a := NewArrayV(len(vs), def)
	for i := 0; i < len(vs); i += chunkSize {
		j := i + chunkSize
		if j > len(vs) {
			j = len(vs)
		}
		ch := make([]Value, chunkSize)
		for k := range ch {
			ch[k] = def
		}
		copy(ch, vs[i:j])
		a.chunks[i/chunkSize] = ch
	}
	return a
}

func (a *ArrayV) Get(i int) Value {
	ch := a.chunks[i/chunkSize]
	if ch == nil {
		return a.def
	}
	return ch[i%chunkSize]
}

func (a *ArrayV) Set(i int, v Value) *ArrayV {
	b := &ArrayV{n: a.n, def: a.def, chunks: append([][]Value(nil), a.chunks...)}
	b.setIn(i, v, a)
	return b
}

func (a *ArrayV) setIn(i int, v Value, from *ArrayV) {
	ci := i / chunkSize
	nc := make([]Value, chunkSize)
	if a.chunks[ci] == nil {
		for k := range nc {
			nc[k] = a.def
		}
	} else {
		copy(nc, a.chunks[ci])
	}
	nc[i%chunkSize] = v
	a.chunks[ci] = nc
}

// SetMany replaces a consecutive range.
func (a *ArrayV) SetMany(start int, vs []Value) *ArrayV {
	if len(vs) == 0 {
		return a
	}
	b := &ArrayV{n: a.n, def: a.def, chunks: append([][]Value(nil), a.chunks...)}
	fresh := map[int]bool{}
	for k, v := range vs {
		i := start + k
		ci := i / chunkSize
		if !fresh[ci] {
			nc := make([]Value, chunkSize)
			if b.chunks[ci] == nil {
				for q := range nc {
					nc[q] = b.def
				}
			} else {
				copy(nc, b.chunks[ci])
			}
			b.chunks[ci] = nc
			fresh[ci] = true
		}
		b.chunks[ci][i%chunkSize] = v
	}
	return b
}

type Iface struct {
	t types.Type // nil = nil interface
	v Value
}

type FuncV struct {
	fn      *ssa.Function
	builtin *ssa.Builtin
	binds   []Value
	native  native
	name    string
}

type MapV struct{ obj int }
type ChanV struct{ obj int }
type Tuple []Value

type Alt struct {
	g *Term
	v Value
}

type Union struct{ alts []Alt }

type MapEntry struct {
	key, val Value
	present  *Term
}

type MapData struct {
	entries []MapEntry
	idx     map[string]int
	nsym    int // entries with non-concrete keys or symbolic presence
}

type ChanData struct {
	cap    int
	buf    []Value
	closed bool
	// rendez-vous for unbuffered channels
	sendq []sendWait
}

type sendWait struct {
	tid   int // -1: handed to a parked receiver
	v     Value
	done  bool
	arm   int   // arm of a select statement
	group []int // channels of the send arms of that select statement
}

type Obj struct {
	id    int
	owner int64
	v     Value
	m     *MapData
	ch    *ChanData
	it    *IterData
	typ   types.Type
}

type IterData struct {
	m   int // map object, or 0 for string
	str Str
	pos int
}

func (s Str) bytes(c *Ctx) []*Term {
	if s.sym {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = c.BV(uint64(s.s[i]), 8)
	}
	return out
}

func (s Str) at(c *Ctx, i int) *Term {
	if s.sym {
		return s.b[i]
	}
	return c.BV(uint64(s.s[i]), 8)
}

func (s Str) slice(lo, hi int) Str {
	if s.sym {
		return mkStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

// mkStr normalises: all-constant bytes become a concrete string.
func mkStr(b []*Term) Str {
	for _, t := range b {
		if t.op != OpConst {
			return Str{b: b, sym: true}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.k)
	}
	return Str{s: string(bs)}
}

func concatStr(c *Ctx, a, b Str) Str {
	if !a.sym && !b.sym {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	return Str{b: append(append([]*Term(nil), a.bytes(c)...), b.bytes(c)...), sym: true}
}

func pathEq(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// same reports cheap identity of two values (no solver).
func same(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		if !ok || x.sym != y.sym {
			return false
		}
		if !x.sym {
			return x.s == y.s
		}
		if len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.obj == y.obj && pathEq(x.path, y.path)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.obj == y.obj && x.off == y.off && x.len == y.len && x.cap == y.cap && pathEq(x.path, y.path)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !same(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || x.n != y.n {
			return false
		}
		if x == y {
			return true
		}
		for ci := range x.chunks {
			if len(x.chunks[ci]) > 0 && len(y.chunks[ci]) > 0 && &x.chunks[ci][0] == &y.chunks[ci][0] {
				continue
			}
			for i := ci * chunkSize; i < (ci+1)*chunkSize && i < x.n; i++ {
				if !same(x.Get(i), y.Get(i)) {
					return false
				}
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && same(x.v, y.v)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		if x.fn != y.fn || x.fn == nil || x.builtin != y.builtin || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !same(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case ChanV:
		y, ok := b.(ChanV)
		return ok && x == y
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Union:
		y, ok := b.(*Union)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !same(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case Poison:
		_, ok := b.(Poison)
		return ok
	}
	return false
}

// merge builds "if cond then a else b"; always succeeds, falling back to guarded unions.
func merge(c *Ctx, cond *Term, a, b Value) Value {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if same(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return c.Ite(cond, x, y)
		}
	case Str:
		if y, ok := b.(Str); ok && x.Len() == y.Len() {
			xb, yb := x.bytes(c), y.bytes(c)
			out := make([]*Term, len(xb))
			for i := range xb {
				out[i] = c.Ite(cond, xb[i], yb[i])
			}
			return mkStr(out)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			f := make([]Value, len(x.f))
			for i := range f {
				f[i] = merge(c, cond, x.f[i], y.f[i])
			}
			return &StructV{f}
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok && x.n == y.n {
			out := &ArrayV{n: x.n, def: x.def, chunks: make([][]Value, len(x.chunks))}
			for ci := range x.chunks {
				xc, yc := x.chunks[ci], y.chunks[ci]
				if xc == nil && yc == nil && same(x.def, y.def) {
					continue
				}
				if xc != nil && yc != nil && &xc[0] == &yc[0] {
					out.chunks[ci] = xc
					continue
				}
				nc := make([]Value, chunkSize)
				for k := 0; k < chunkSize; k++ {
					i := ci*chunkSize + k
					if i < x.n {
						nc[k] = merge(c, cond, x.Get(i), y.Get(i))
					} else {
						nc[k] = x.def
					}
				}
				out.chunks[ci] = nc
			}
			return out
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			m := merge(c, cond, x.v, y.v)
			if _, isU := m.(*Union); !isU {
				return Iface{x.t, m}
			}
			return Iface{x.t, m}
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			out := make(Tuple, len(x))
			for i := range x {
				out[i] = merge(c, cond, x[i], y[i])
			}
			return out
		}
	case Ptr:
		// same object, same path shape: merge indices
		if y, ok := b.(Ptr); ok && x.obj == y.obj && x.obj != 0 && len(x.path) == len(y.path) {
			diff := -1
			for i := range x.path {
				if x.path[i] != y.path[i] {
					if diff >= 0 {
						diff = -2
						break
					}
					diff = i
				}
			}
			_ = diff
		}
	}
	// guarded union
	var alts []Alt
	add := func(g *Term, v Value) {
		if g.IsFalse() {
			return
		}
		for i := range alts {
			if same(alts[i].v, v) {
				alts[i].g = c.Or(alts[i].g, g)
				return
			}
		}
		alts = append(alts, Alt{g, v})
	}
	expand := func(g *Term, v Value) {
		if u, ok := v.(*Union); ok {
			for _, al := range u.alts {
				add(c.And(g, al.g), al.v)
			}
			return
		}
		add(g, v)
	}
	expand(cond, a)
	expand(c.Not(cond), b)
	if len(alts) == 1 {
		return alts[0].v
	}
	return &Union{alts}
}

func keyString(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.IsConst() {
			return "t" + strconv.FormatUint(x.k+b2u(x.IsTrue()), 16), true
		}
	case Str:
		if !x.sym {
			return "s" + strconv.Itoa(len(x.s)) + ":" + x.s, true
		}
	case Ptr:
		var sb strings.Builder
		fmt.Fprintf(&sb, "p%d", x.obj)
		for _, p := range x.path {
			if p.s != nil {
				return "", false
			}
			fmt.Fprintf(&sb, ".%d", p.i)
		}
		return sb.String(), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := keyString(x.v)
		if !ok {
			return "", false
		}
		return "i" + types.TypeString(x.t, nil) + "=" + k, true
	case *StructV:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range x.f {
			k, ok := keyString(f)
			if !ok {
				return "", false
			}
			sb.WriteString(k + ";")
		}
		return sb.String() + "}", true
	case *ArrayV:
		var sb strings.Builder
		sb.WriteString("[")
		for i := 0; i < x.n; i++ {
			k, ok := keyString(x.Get(i))
			if !ok {
				return "", false
			}
			sb.WriteString(k + ";")
		}
		return sb.String() + "]", true
	case ChanV:
		return fmt.Sprintf("c%d", x.obj), true
	}
	return "", false
}

func (m *MapData) clone() *MapData {
	n := &MapData{entries: append([]MapEntry(nil), m.entries...), idx: make(map[string]int, len(m.idx)), nsym: m.nsym}
	for k, v := range m.idx {
		n.idx[k] = v
	}
	return n
}

func isSigned(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsUnsigned == 0
	}
	return false
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return -1
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		w := width(t)
		if w == 0 {
			return e.c.False
		}
		if w < 0 {
			if u.Info()&types.IsComplex != 0 {
				return &StructV{[]Value{e.c.BV(0, 64), e.c.BV(0, 64)}}
			}
			panic(unsupported{"zero of " + t.String()})
		}
		return e.c.BV(0, w)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		return NewArrayV(int(u.Len()), e.zero(u.Elem()))
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = e.zero(u.At(i).Type())
		}
		return out
	}
	panic(unsupported{"zero of " + t.String()})
}
