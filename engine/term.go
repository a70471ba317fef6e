package main

// Terms: hash-consed Bool / bit-vector expressions. Floating point values are
// carried as their IEEE bit patterns; FP operations are operators on bit-vectors.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpVar Op = iota
	OpConst
	OpTrue
	OpFalse
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpConcat
	OpExtract
	OpZExt
	OpSExt
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFLt
	OpFLe
	OpFEq
	OpFToF  // k = 0; arg width vs w
	OpFToSI // float -> signed int (RTZ), in-range only
	OpFToUI
	OpSIToF
	OpUIToF
	OpFRound // k = rounding mode: RTN, RTP, RTZ, RNA
	OpFSqrt
	OpUF // uninterpreted function, name, args
)

var opNames = map[Op]string{OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpConcat: "concat", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "="}

type Term struct {
	id    int
	op    Op
	w     int // 0 = Bool
	k     uint64
	name  string
	args  []*Term
	umaxv uint64 // upper bound as unsigned (w<=64)
	uminv uint64 // lower bound as unsigned (w<=64)
	hasFP bool
	sup   []int // sorted leaf ids (variables, UF symbols as negative numbers)
	supOK bool
}

func (t *Term) IsConst() bool { return t.op == OpConst || t.op == OpTrue || t.op == OpFalse }
func (t *Term) IsTrue() bool  { return t.op == OpTrue }
func (t *Term) IsFalse() bool { return t.op == OpFalse }

type tkey struct {
	op         Op
	w          int
	k          uint64
	name       string
	a0, a1, a2 int
}

type Ctx struct {
	smalls map[*Term]*Term // see small
	tab    map[tkey]*Term
	n      int
	True   *Term
	False  *Term
	vars   map[string]*Term
	varl   []*Term
	ufs    map[string]int
	rng    map[string]*Term // range constraint of a variable created with bounds
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[tkey]*Term), vars: map[string]*Term{}, rng: map[string]*Term{}}
	c.True = c.mk(OpTrue, 0, 0, "")
	c.False = c.mk(OpFalse, 0, 0, "")
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) mk(op Op, w int, k uint64, name string, args ...*Term) *Term {
	key := tkey{op: op, w: w, k: k, name: name, a0: -1, a1: -1, a2: -1}
	if len(args) > 3 {
		var sb strings.Builder
		sb.WriteString(name)
		for _, a := range args {
			fmt.Fprintf(&sb, "|%d", a.id)
		}
		key.name = sb.String()
	} else {
		if len(args) > 0 {
			key.a0 = args[0].id
		}
		if len(args) > 1 {
			key.a1 = args[1].id
		}
		if len(args) > 2 {
			key.a2 = args[2].id
		}
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{id: c.n, op: op, w: w, k: k, name: name, args: append([]*Term(nil), args...)}
	c.n++
	for _, a := range args {
		if a.hasFP {
			t.hasFP = true
		}
	}
	if op >= OpFAdd && op <= OpFSqrt {
		t.hasFP = true
	}
	t.umaxv = umax(t)
	t.uminv = umin(t)
	c.tab[key] = t
	return t
}

func umax(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OpConst:
		return t.k
	case OpZExt:
		if t.args[0].w <= 64 {
			return t.args[0].umaxv
		}
	case OpBAnd:
		a, b := t.args[0].umaxv, t.args[1].umaxv
		if b < a {
			a = b
		}
		return a
	case OpBOr, OpBXor:
		a := t.args[0].umaxv | t.args[1].umaxv
		n := bits.Len64(a)
		return mask(n) & m
	case OpIte:
		if t.w == 0 {
			return 1
		}
		a, b := t.args[1].umaxv, t.args[2].umaxv
		if a > b {
			return a
		}
		return b
	case OpLShr:
		if t.args[1].op == OpConst && t.args[1].k < 64 {
			return t.args[0].umaxv >> t.args[1].k
		}
		return t.args[0].umaxv
	case OpURem:
		if t.args[1].op == OpConst && t.args[1].k > 0 {
			a := t.args[1].k - 1
			if t.args[0].umaxv < a {
				a = t.args[0].umaxv
			}
			return a
		}
		return t.args[0].umaxv
	case OpUDiv:
		if t.args[1].op == OpConst && t.args[1].k > 0 {
			return t.args[0].umaxv / t.args[1].k
		}
	case OpAdd:
		s, carry := bits.Add64(t.args[0].umaxv, t.args[1].umaxv, 0)
		if carry == 0 && s <= m {
			return s
		}
		// x - K with x >= K
		if b := t.args[1]; b.op == OpConst && t.args[0].uminv >= -b.k&m {
			return (t.args[0].umaxv + b.k) & m
		}
	case OpSub:
		if t.args[0].uminv >= t.args[1].umaxv {
			return t.args[0].umaxv - t.args[1].uminv
		}
	case OpMul:
		hi, lo := bits.Mul64(t.args[0].umaxv, t.args[1].umaxv)
		if hi == 0 && lo <= m {
			return lo
		}
	case OpShl:
		if t.args[1].op == OpConst && t.args[1].k < 64 {
			s := t.args[1].k
			a := t.args[0].umaxv
			if bits.Len64(a)+int(s) <= t.w && t.w <= 64 {
				return a << s
			}
		}
	case OpConcat:
		if t.w <= 64 {
			return t.args[0].umaxv<<uint(t.args[1].w) | t.args[1].umaxv
		}
	case OpExtract:
		if t.k&0xffff == 0 && t.args[0].w <= 64 && t.args[0].umaxv <= m {
			return t.args[0].umaxv
		}
	}
	return m
}

// leaves returns the sorted ids of the variables (and uninterpreted symbols) t depends on.
func (c *Ctx) leaves(t *Term) []int {
	if t.supOK {
		return t.sup
	}
	var out []int
	if t.op == OpVar {
		out = []int{t.id}
	} else {
		if t.op == OpUF {
			if c.ufs == nil {
				c.ufs = map[string]int{}
			}
			n, ok := c.ufs[t.name]
			if !ok {
				n = -len(c.ufs) - 1
				c.ufs[t.name] = n
			}
			out = []int{n}
		}
		for _, a := range t.args {
			out = mergeInts(out, c.leaves(a))
		}
	}
	t.sup, t.supOK = out, true
	return out
}

func mergeInts(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	i, j := 0, 0
	sub := true
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i++
			j++
		} else if a[i] < b[j] {
			i++
		} else {
			sub = false
			break
		}
	}
	if sub && j == len(b) {
		return a
	}
	out := make([]int, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func umin(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpZExt:
		if t.w <= 64 {
			return t.args[0].uminv
		}
	case OpBOr:
		a, b := t.args[0].uminv, t.args[1].uminv
		if a > b {
			return a
		}
		return b
	case OpIte:
		if t.w == 0 {
			return 0
		}
		a, b := t.args[1].uminv, t.args[2].uminv
		if a < b {
			return a
		}
		return b
	case OpAdd:
		s, carry := bits.Add64(t.args[0].umaxv, t.args[1].umaxv, 0)
		if carry == 0 && s <= mask(t.w) {
			return t.args[0].uminv + t.args[1].uminv
		}
		if b := t.args[1]; b.op == OpConst && t.args[0].uminv >= -b.k&mask(t.w) {
			return (t.args[0].uminv + b.k) & mask(t.w)
		}
	case OpSub:
		if t.args[0].uminv >= t.args[1].umaxv {
			return t.args[0].uminv - t.args[1].umaxv
		}
	case OpMul:
		hi, lo := bits.Mul64(t.args[0].umaxv, t.args[1].umaxv)
		if hi == 0 && lo <= mask(t.w) {
			return t.args[0].uminv * t.args[1].uminv
		}
	case OpUDiv:
		if t.args[1].op == OpConst && t.args[1].k > 0 {
			return t.args[0].uminv / t.args[1].k
		}
	case OpConcat:
		if t.w <= 64 {
			return t.args[0].uminv<<uint(t.args[1].w) | t.args[1].uminv
		}
	}
	return 0
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) BV(k uint64, w int) *Term { return c.mk(OpConst, w, k&mask(w), "") }

func (c *Ctx) Var(name string, w int) *Term {
	if t, ok := c.vars[name]; ok {
		if t.w != w {
			panic("variable width mismatch: " + name)
		}
		return t
	}
	t := c.mk(OpVar, w, 0, name)
	c.vars[name] = t
	c.varl = append(c.varl, t)
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OpTrue:
		return c.False
	case OpFalse:
		return c.True
	case OpNot:
		return a.args[0]
	case OpUlt:
		return c.Ule(a.args[1], a.args[0])
	case OpUle:
		return c.Ult(a.args[1], a.args[0])
	case OpSlt:
		return c.Sle(a.args[1], a.args[0])
	case OpSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(OpNot, 0, 0, "", a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsFalse() || b.IsFalse() {
		return c.False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if (a.op == OpNot && a.args[0] == b) || (b.op == OpNot && b.args[0] == a) {
		return c.False
	}
	if a.op == OpAnd && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.op == OpAnd && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	// a and (a or x) = a ; a and (not a or x) = a and x
	if b.op == OpOr {
		if b.args[0] == a || b.args[1] == a {
			return a
		}
		na := c.Not(a)
		if b.args[0] == na {
			return c.And(a, b.args[1])
		}
		if b.args[1] == na {
			return c.And(a, b.args[0])
		}
	}
	if a.op == OpOr {
		if a.args[0] == b || a.args[1] == b {
			return b
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, 0, "", a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsTrue() || b.IsTrue() {
		return c.True
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	if a.op == OpOr && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.op == OpOr && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	// (x and y) or (x and not y) = x
	if a.op == OpAnd && b.op == OpAnd {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if a.args[i] == b.args[j] {
					x := a.args[i]
					return c.And(x, c.Or(a.args[1-i], b.args[1-j]))
				}
			}
		}
	}
	if a.op == OpAnd {
		// (x and y) or not x = y or not x
		nb := c.Not(b)
		if a.args[0] == nb {
			return c.Or(a.args[1], b)
		}
		if a.args[1] == nb {
			return c.Or(a.args[0], b)
		}
		if a.args[0] == b || a.args[1] == b {
			return b
		}
	}
	if b.op == OpAnd {
		na := c.Not(a)
		if b.args[0] == na {
			return c.Or(a, b.args[1])
		}
		if b.args[1] == na {
			return c.Or(a, b.args[0])
		}
		if b.args[0] == a || b.args[1] == a {
			return a
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, 0, 0, "", a, b)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if cond.IsTrue() || a == b {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.op == OpIte && a.args[2] == b {
		return c.Ite(c.And(cond, a.args[0]), a.args[1], b)
	}
	if b.op == OpIte && b.args[1] == a {
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	return c.mk(OpIte, a.w, 0, "", cond, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return c.False // distinct hash-consed constants
	}
	if a.w == 0 {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.op == OpConst {
		if a.w <= 64 && (a.umaxv < b.k || a.uminv > b.k) {
			return c.False
		}
		switch a.op {
		case OpBNot:
			return c.Eq(a.args[0], c.BV(^b.k, a.w))
		case OpIte:
			x, y := a.args[1], a.args[2]
			if x.IsConst() || y.IsConst() {
				return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OpZExt:
			in := a.args[0]
			if b.k > mask(in.w) {
				return c.False
			}
			return c.Eq(in, c.BV(b.k, in.w))
		case OpSExt:
			in := a.args[0]
			lo := b.k & mask(in.w)
			if sext(lo, in.w)&mask(a.w) != b.k {
				return c.False
			}
			return c.Eq(in, c.BV(lo, in.w))
		case OpAdd:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], c.BV(b.k-a.args[1].k, a.w))
			}
		case OpBXor:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], c.BV(b.k^a.args[1].k, a.w))
			}
		case OpConcat:
			lo := a.args[1]
			if a.w <= 64 {
				return c.And(c.Eq(a.args[0], c.BV(b.k>>uint(lo.w), a.args[0].w)), c.Eq(lo, c.BV(b.k, lo.w)))
			}
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OpSExt && b.op == OpSExt && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OpIte && b.op == OpIte && a.args[0] == b.args[0] {
		return c.Ite(a.args[0], c.Eq(a.args[1], b.args[1]), c.Eq(a.args[2], b.args[2]))
	}
	if a.op == OpIte && (a.args[1] == b || a.args[2] == b) {
		if a.args[1] == b {
			return c.Or(a.args[0], c.Eq(a.args[2], b))
		}
		return c.Or(c.Not(a.args[0]), c.Eq(a.args[1], b))
	}
	if b.op == OpIte && (b.args[1] == a || b.args[2] == a) {
		return c.Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, "", a, b)
}

func sext(v uint64, w int) uint64 {
	if w >= 64 {
		return v
	}
	if v&(1<<uint(w-1)) != 0 {
		return v | ^mask(w)
	}
	return v & mask(w)
}

func foldBV(op Op, a, b uint64, w int) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m, true
	case OpSub:
		return (a - b) & m, true
	case OpMul:
		return (a * b) & m, true
	case OpBAnd:
		return a & b, true
	case OpBOr:
		return a | b, true
	case OpBXor:
		return a ^ b, true
	case OpUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OpURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSDiv:
		x, y := int64(sext(a, w)), int64(sext(b, w))
		if y == 0 {
			if x >= 0 {
				return m, true
			}
			return 1, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OpSRem:
		x, y := int64(sext(a, w)), int64(sext(b, w))
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OpLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAShr:
		x := int64(sext(a, w))
		if b >= 63 {
			b = 63
		}
		return uint64(x>>b) & m, true
	}
	return 0, false
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("bv width mismatch %v %d %d", opNames[op], a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst && w <= 64 {
		if v, ok := foldBV(op, a.k, b.k, w); ok {
			return c.BV(v, w)
		}
	}
	comm := op == OpAdd || op == OpMul || op == OpBAnd || op == OpBOr || op == OpBXor
	if comm && a.op == OpConst {
		a, b = b, a
	}
	if w <= 64 {
		switch op {
		case OpAdd:
			if b.op == OpConst {
				if b.k == 0 {
					return a
				}
				if a.op == OpAdd && a.args[1].op == OpConst {
					return c.Bin(OpAdd, a.args[0], c.BV(a.args[1].k+b.k, w))
				}
				if a.op == OpNeg {
					return c.Bin(OpSub, b, a.args[0])
				}
				if a.op == OpSub && a.args[0].op == OpConst {
					return c.Bin(OpSub, c.BV(a.args[0].k+b.k, w), a.args[1])
				}
			}
			if b.op == OpIte && b.args[1].IsConst() && b.args[2].IsConst() && a.op == OpConst {
				return c.Ite(b.args[0], c.Bin(op, a, b.args[1]), c.Bin(op, a, b.args[2]))
			}
		case OpSub:
			if a == b {
				return c.BV(0, w)
			}
			if b.op == OpConst {
				return c.Bin(OpAdd, a, c.BV(-b.k, w))
			}
			if a.op == OpConst && a.k == 0 {
				return c.Neg(b)
			}
			// (x + k) - x = k ; (x+k1)-(x+k2)
			ax, ak := splitAdd(a)
			bx, bk := splitAdd(b)
			if ax == bx {
				return c.BV(ak-bk, w)
			}
			// K - (x + k) = (K-k) - x
			if a.op == OpConst && bk != 0 {
				return c.Bin(OpSub, c.BV(a.k-bk, w), bx)
			}
		case OpMul:
			if b.op == OpConst {
				if b.k == 0 {
					return b
				}
				if b.k == 1 {
					return a
				}
				if b.k == mask(w) {
					return c.Neg(a)
				}
				if a.op == OpNeg {
					return c.Neg(c.Bin(OpMul, a.args[0], b))
				}
				if a.op == OpMul && a.args[1].op == OpConst {
					return c.Bin(OpMul, a.args[0], c.BV(a.args[1].k*b.k, w))
				}
			}
		case OpBAnd:
			if a == b {
				return a
			}
			if b.op == OpConst {
				if b.k == 0 {
					return b
				}
				if b.k == mask(w) {
					return a
				}
				// mask covers all possible bits
				if bits.Len64(a.umaxv) > 0 && b.k&(b.k+1) == 0 && a.umaxv <= b.k {
					return a
				}
				if a.umaxv == 0 {
					return c.BV(0, w)
				}
				if a.op == OpBAnd && a.args[1].op == OpConst {
					return c.Bin(OpBAnd, a.args[0], c.BV(a.args[1].k&b.k, w))
				}
				// low-bit mask becomes zext(extract)
				if b.k&(b.k+1) == 0 {
					n := bits.Len64(b.k)
					return c.ZExt(c.Extract(a, n-1, 0), w)
				}
			}
		case OpBOr:
			if a == b {
				return a
			}
			if b.op == OpConst {
				if b.k == 0 {
					return a
				}
				if b.k == mask(w) {
					return b
				}
			}
		case OpBXor:
			if a == b {
				return c.BV(0, w)
			}
			if b.op == OpConst {
				if b.k == 0 {
					return a
				}
				if b.k == mask(w) {
					return c.BNot(a)
				}
				if a.op == OpBXor && a.args[1].op == OpConst {
					return c.Bin(OpBXor, a.args[0], c.BV(a.args[1].k^b.k, w))
				}
			}
			if a.op == OpBNot && b.op == OpBNot {
				return c.Bin(OpBXor, a.args[0], b.args[0])
			}
			// x ^ (x ^ y) = y
			if a.op == OpBXor {
				if a.args[0] == b {
					return a.args[1]
				}
				if a.args[1] == b {
					return a.args[0]
				}
			}
			if b.op == OpBXor {
				if b.args[0] == a {
					return b.args[1]
				}
				if b.args[1] == a {
					return b.args[0]
				}
			}
		case OpUDiv:
			if b.op == OpConst && b.k == 1 {
				return a
			}
			if b.op == OpConst && b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OpLShr, a, c.BV(uint64(bits.TrailingZeros64(b.k)), w))
			}
			if b.op == OpConst && a.umaxv < b.k {
				return c.BV(0, w)
			}
			if b.op == OpConst && b.k != 0 {
				if r := c.linDiv(a, b.k, true); r != nil {
					return r
				}
			}
		case OpURem:
			if b.op == OpConst && b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OpBAnd, a, c.BV(b.k-1, w))
			}
			if b.op == OpConst && a.umaxv < b.k {
				return a
			}
			if b.op == OpConst && b.k != 0 {
				if r := c.linDiv(a, b.k, false); r != nil {
					return r
				}
			}
		case OpSDiv, OpSRem:
			// both non-negative: unsigned
			h := mask(w) >> 1
			if a.umaxv <= h && b.umaxv <= h {
				if op == OpSDiv {
					return c.Bin(OpUDiv, a, b)
				}
				return c.Bin(OpURem, a, b)
			}
			if op == OpSDiv && b.op == OpConst && b.k == 1 {
				return a
			}
			// a quotient rounds toward zero, a remainder has the sign of the dividend
			if a.op == OpNeg && a.args[0].umaxv <= h && b.umaxv <= h {
				return c.Neg(c.Bin(op, a.args[0], b))
			}
		case OpShl, OpLShr, OpAShr:
			if a.op == OpConst && a.k == 0 {
				return a
			}
			if b.op == OpConst {
				s := b.k
				if s == 0 {
					return a
				}
				if s >= uint64(w) {
					if op == OpAShr {
						s = uint64(w - 1)
					} else {
						return c.BV(0, w)
					}
				}
				si := int(s)
				switch op {
				case OpShl:
					return c.Concat(c.Extract(a, w-1-si, 0), c.BV(0, si))
				case OpLShr:
					return c.ZExt(c.Extract(a, w-1, si), w)
				case OpAShr:
					if a.umaxv <= mask(w)>>1 {
						return c.ZExt(c.Extract(a, w-1, si), w)
					}
					return c.SExt(c.Extract(a, w-1, si), w)
				}
			}
		}
		// push through ite with constant arms when the other operand is constant
		if a.op == OpIte && b.op == OpConst && a.args[1].IsConst() && a.args[2].IsConst() {
			return c.Ite(a.args[0], c.Bin(op, a.args[1], b), c.Bin(op, a.args[2], b))
		}
		// or/xor of disjoint concat / zext parts
		if op == OpAdd {
			if r := c.joinDisjoint(a, b); r != nil {
				return r
			}
		}
		if op == OpBOr || op == OpBXor || op == OpBAnd {
			if r := c.segwise(op, a, b); r != nil {
				return r
			}
		}
	}
	if comm && b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, w, 0, "", a, b)
}

// parts splits t into big-endian list of pieces.
func (c *Ctx) pieces(t *Term) []*Term {
	switch t.op {
	case OpConcat:
		return append(c.pieces(t.args[0]), c.pieces(t.args[1])...)
	case OpZExt:
		return append([]*Term{c.BV(0, t.w-t.args[0].w)}, c.pieces(t.args[0])...)
	case OpAdd, OpMul, OpVar, OpUDiv, OpURem:
		if n := bits.Len64(t.umaxv); t.w <= 64 && n > 0 && n < t.w {
			return []*Term{c.BV(0, t.w-n), c.Extract(t, n-1, 0)}
		}
	}
	return []*Term{t}
}

func (c *Ctx) isZero(t *Term) bool { return t.op == OpConst && t.k == 0 }

// joinDisjoint: if a and b have piecewise disjoint (zero vs something) pieces, joins them with concat.
func (c *Ctx) joinDisjoint(a, b *Term) *Term {
	if a.op != OpConcat && a.op != OpZExt && b.op != OpConcat && b.op != OpZExt {
		return nil
	}
	pa, pb := c.pieces(a), c.pieces(b)
	if len(pa) > 20 || len(pb) > 20 {
		return nil
	}
	var out []*Term
	i, j := 0, 0
	ra, rb := 0, 0 // consumed high bits in the current piece
	for i < len(pa) && j < len(pb) {
		x, y := pa[i], pb[j]
		n := x.w - ra
		if m := y.w - rb; m < n {
			n = m
		}
		xe := func() *Term { return c.Extract(x, x.w-1-ra, x.w-ra-n) }
		ye := func() *Term { return c.Extract(y, y.w-1-rb, y.w-rb-n) }
		if c.isZero(x) {
			out = append(out, ye())
		} else if c.isZero(y) {
			out = append(out, xe())
		} else {
			return nil
		}
		ra += n
		rb += n
		if ra == x.w {
			i++
			ra = 0
		}
		if rb == y.w {
			j++
			rb = 0
		}
	}
	r := out[0]
	for _, o := range out[1:] {
		r = c.Concat(r, o)
	}
	return r
}

// constRuns splits a constant into big-endian runs of equal bits.
func (c *Ctx) constRuns(t *Term) []*Term {
	var out []*Term
	hi := t.w - 1
	for hi >= 0 {
		bit := t.k >> uint(hi) & 1
		lo := hi
		for lo > 0 && t.k>>uint(lo-1)&1 == bit {
			lo--
		}
		out = append(out, c.BV(t.k>>uint(lo), hi-lo+1))
		hi = lo - 1
	}
	return out
}

// segwise evaluates a bitwise operation piece by piece when at least one operand has
// constant pieces; nil when nothing would simplify.
func (c *Ctx) segwise(op Op, a, b *Term) *Term {
	expand := func(t, o *Term) []*Term {
		var out []*Term
		for _, p := range c.pieces(t) {
			if p.op == OpConst {
				out = append(out, c.constRuns(p)...)
			} else {
				out = append(out, p)
			}
		}
		return out
	}
	pa, pb := expand(a, b), expand(b, a)
	structured := a.op == OpConcat || a.op == OpZExt || b.op == OpConcat || b.op == OpZExt || len(pa) > 1 && a.op != OpConst || len(pb) > 1 && b.op != OpConst
	if len(pa) > 24 || len(pb) > 24 {
		return nil
	}
	if !structured {
		if op == OpBXor || b.op != OpConst || len(pb) > 5 {
			return nil
		}
	}
	useful := false
	var out []*Term
	i, j := 0, 0
	ra, rb := 0, 0
	for i < len(pa) && j < len(pb) {
		x, y := pa[i], pb[j]
		n := x.w - ra
		if m := y.w - rb; m < n {
			n = m
		}
		xe := c.Extract(x, x.w-1-ra, x.w-ra-n)
		ye := c.Extract(y, y.w-1-rb, y.w-rb-n)
		if xe.op == OpConst || ye.op == OpConst || xe == ye {
			useful = true
		}
		out = append(out, nil)
		if xe.op == OpConst || ye.op == OpConst || xe == ye || n < a.w {
			out[len(out)-1] = c.Bin(op, xe, ye)
		} else {
			return nil
		}
		ra += n
		rb += n
		if ra == x.w {
			i++
			ra = 0
		}
		if rb == y.w {
			j++
			rb = 0
		}
	}
	if !useful {
		return nil
	}
	r := out[0]
	for _, o := range out[1:] {
		r = c.Concat(r, o)
	}
	return r
}

func splitAdd(t *Term) (*Term, uint64) {
	if t.op == OpAdd && t.args[1].op == OpConst {
		return t.args[0], t.args[1].k
	}
	return t, 0
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OpConst {
		return c.BV(^a.k, a.w)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	return c.mk(OpBNot, a.w, 0, "", a)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OpConst {
		return c.BV(-a.k, a.w)
	}
	if a.op == OpNeg {
		return a.args[0]
	}
	if a.op == OpSub {
		return c.Bin(OpSub, a.args[1], a.args[0])
	}
	return c.mk(OpNeg, a.w, 0, "", a)
}

func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.op == OpConst && b.op == OpConst && w <= 64 {
		return c.BV(a.k<<uint(b.w)|b.k, w)
	}
	if a.op == OpConst && a.k == 0 {
		return c.ZExt(b, w)
	}
	// concat(extract(x,h,m), extract(x,m-1,l)) = extract(x,h,l)
	if a.op == OpExtract && b.op == OpExtract && a.args[0] == b.args[0] {
		ah, al := int(a.k>>16), int(a.k&0xffff)
		bh, bl := int(b.k>>16), int(b.k&0xffff)
		if al == bh+1 {
			return c.Extract(a.args[0], ah, bl)
		}
	}
	if a.op == OpZExt {
		return c.ZExt(c.Concat(a.args[0], b), w)
	}
	if a.op == OpConcat {
		// right associate so that neighbouring extracts can join
		if a.args[1].op == OpExtract && b.op == OpExtract && a.args[1].args[0] == b.args[0] && int(a.args[1].k&0xffff) == int(b.k>>16)+1 {
			return c.Concat(a.args[0], c.Concat(a.args[1], b))
		}
		if a.args[1].op == OpConst && b.op == OpConst && a.args[1].w+b.w <= 64 {
			return c.Concat(a.args[0], c.Concat(a.args[1], b))
		}
	}
	return c.mk(OpConcat, w, 0, "", a, b)
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w <= 0 || hi >= a.w || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.w))
	}
	if w == a.w {
		return a
	}
	if lo > 0 && a.w <= 64 && lo < 64 && a.umaxv>>uint(lo) == 0 {
		return c.BV(0, w)
	}
	switch a.op {
	case OpConst:
		return c.BV(a.k>>uint(lo), w)
	case OpExtract:
		l0 := int(a.k & 0xffff)
		return c.Extract(a.args[0], hi+l0, lo+l0)
	case OpConcat:
		bw := a.args[1].w
		if hi < bw {
			return c.Extract(a.args[1], hi, lo)
		}
		if lo >= bw {
			return c.Extract(a.args[0], hi-bw, lo-bw)
		}
		return c.Concat(c.Extract(a.args[0], hi-bw, 0), c.Extract(a.args[1], bw-1, lo))
	case OpZExt:
		iw := a.args[0].w
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
		if lo >= iw {
			return c.BV(0, w)
		}
		return c.ZExt(c.Extract(a.args[0], iw-1, lo), w)
	case OpSExt:
		iw := a.args[0].w
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
		if lo < iw {
			return c.SExt(c.Extract(a.args[0], iw-1, lo), w)
		}
		if lo >= iw {
			return c.SExt(c.Extract(a.args[0], iw-1, iw-1), w)
		}
	case OpIte:
		if a.args[1].IsConst() || a.args[2].IsConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		return c.Bin(a.op, c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case OpBNot:
		return c.BNot(c.Extract(a.args[0], hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 && !(a.w <= 64 && a.umaxv <= mask(w)) {
			return c.Bin(a.op, c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	}
	return c.mk(OpExtract, w, uint64(hi)<<16|uint64(lo), "", a)
}

func (c *Ctx) ZExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, w-1, 0)
	}
	if a.op == OpConst && w <= 64 {
		return c.BV(a.k, w)
	}
	if a.op == OpExtract && a.k&0xffff == 0 && a.args[0].w <= 64 && a.args[0].umaxv <= mask(a.w) {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OpIte && (a.args[1].IsConst() && a.args[2].IsConst()) {
		return c.Ite(a.args[0], c.ZExt(a.args[1], w), c.ZExt(a.args[2], w))
	}
	return c.mk(OpZExt, w, 0, "", a)
}

func (c *Ctx) SExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, w-1, 0)
	}
	if a.op == OpConst && w <= 64 {
		return c.BV(sext(a.k, a.w), w)
	}
	if a.op == OpSExt {
		return c.SExt(a.args[0], w)
	}
	if a.w <= 64 && a.umaxv <= mask(a.w)>>1 {
		return c.ZExt(a, w)
	}
	if a.op == OpIte && (a.args[1].IsConst() && a.args[2].IsConst()) {
		return c.Ite(a.args[0], c.SExt(a.args[1], w), c.SExt(a.args[2], w))
	}
	return c.mk(OpSExt, w, 0, "", a)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.k < b.k)
	}
	if a == b {
		return c.False
	}
	if a.w <= 64 {
		if a.umaxv < b.uminv {
			return c.True
		}
		if b.umaxv <= a.uminv {
			return c.False
		}
		if b.op == OpConst && b.k == 0 {
			return c.False
		}
		if b.op == OpConst && b.k == 1 {
			return c.Eq(a, c.BV(0, a.w))
		}
		if a.op == OpZExt && b.op == OpConst && b.k <= mask(a.args[0].w) {
			return c.Ult(a.args[0], c.BV(b.k, a.args[0].w))
		}
		if b.op == OpZExt && a.op == OpConst {
			return c.Ult(c.BV(a.k, b.args[0].w), b.args[0])
		}
		if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
			return c.Ult(a.args[0], b.args[0])
		}
		if r := c.cmpIte(OpUlt, a, b); r != nil {
			return r
		}
	}
	return c.mk(OpUlt, 0, 0, "", a, b)
}

func (c *Ctx) cmpIte(op Op, a, b *Term) *Term {
	f := func(x, y *Term) *Term {
		switch op {
		case OpUlt:
			return c.Ult(x, y)
		case OpUle:
			return c.Ule(x, y)
		case OpSlt:
			return c.Slt(x, y)
		}
		return c.Sle(x, y)
	}
	if a.op == OpIte && b.op == OpConst && (a.args[1].IsConst() || a.args[2].IsConst()) {
		return c.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if b.op == OpIte && a.op == OpConst && (b.args[1].IsConst() || b.args[2].IsConst()) {
		return c.Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	return nil
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.k <= b.k)
	}
	if a == b {
		return c.True
	}
	if a.w <= 64 {
		if a.umaxv <= b.uminv {
			return c.True
		}
		if b.umaxv < a.uminv {
			return c.False
		}
		if b.op == OpConst && b.k == 0 {
			return c.Eq(a, b)
		}
		if a.op == OpConst && a.k == 0 {
			return c.True
		}
		if a.op == OpZExt && b.op == OpConst && b.k <= mask(a.args[0].w) {
			return c.Ule(a.args[0], c.BV(b.k, a.args[0].w))
		}
		if b.op == OpZExt && a.op == OpConst {
			return c.Ule(c.BV(a.k, b.args[0].w), b.args[0])
		}
		if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
			return c.Ule(a.args[0], b.args[0])
		}
		if r := c.cmpIte(OpUle, a, b); r != nil {
			return r
		}
	}
	return c.mk(OpUle, 0, 0, "", a, b)
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(int64(sext(a.k, a.w)) < int64(sext(b.k, b.w)))
	}
	if a == b {
		return c.False
	}
	if a.w <= 64 {
		h := mask(a.w) >> 1
		if a.umaxv <= h && b.umaxv <= h {
			return c.Ult(a, b)
		}
		if a.umaxv <= h && b.op == OpConst { // b negative
			return c.False
		}
		if b.umaxv <= h && a.op == OpConst { // a negative
			return c.True
		}
		if a.op == OpSExt && b.op == OpSExt && a.args[0].w == b.args[0].w {
			return c.Slt(a.args[0], b.args[0])
		}
		if r := c.cmpIte(OpSlt, a, b); r != nil {
			return r
		}
	}
	return c.mk(OpSlt, 0, 0, "", a, b)
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(int64(sext(a.k, a.w)) <= int64(sext(b.k, b.w)))
	}
	if a == b {
		return c.True
	}
	if a.w <= 64 {
		h := mask(a.w) >> 1
		if a.umaxv <= h && b.umaxv <= h {
			return c.Ule(a, b)
		}
		if a.umaxv <= h && b.op == OpConst {
			return c.False
		}
		if b.umaxv <= h && a.op == OpConst {
			return c.True
		}
		if a.op == OpSExt && b.op == OpSExt && a.args[0].w == b.args[0].w {
			return c.Sle(a.args[0], b.args[0])
		}
		if r := c.cmpIte(OpSle, a, b); r != nil {
			return r
		}
	}
	return c.mk(OpSle, 0, 0, "", a, b)
}

// ---- floating point on bit patterns ----

func f64(k uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}

func fbits(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func foldF(op Op, a, b uint64, w int) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OpFAdd:
			r = x + y
		case OpFSub:
			r = x - y
		case OpFMul:
			r = x * y
		case OpFDiv:
			r = x / y
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OpFAdd:
		r = x + y
	case OpFSub:
		r = x - y
	case OpFMul:
		r = x * y
	case OpFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.BV(foldF(op, a.k, b.k, a.w), a.w)
	}
	return c.small(c.mk(op, a.w, 0, "", a, b))
}

func foldFCmp(op Op, a, b uint64, w int) bool {
	x, y := f64(a, w), f64(b, w)
	switch op {
	case OpFLt:
		return x < y
	case OpFLe:
		return x <= y
	}
	return x == y
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(foldFCmp(op, a.k, b.k, a.w))
	}
	return c.small(c.mk(op, 0, 0, "", a, b))
}

func (c *Ctx) FNeg(a *Term) *Term {
	return c.Bin(OpBXor, a, c.BV(1<<uint(a.w-1), a.w))
}

func (c *Ctx) FToF(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return c.BV(fbits(f64(a.k, a.w), w), w)
	}
	return c.small(c.mk(OpFToF, w, 0, "", a))
}

func (c *Ctx) FToI(a *Term, w int, signed bool) *Term {
	if a.op == OpConst {
		f := f64(a.k, a.w)
		if signed {
			return c.BV(uint64(int64(f)), w)
		}
		return c.BV(uint64(f), w)
	}
	if signed {
		return c.small(c.mk(OpFToSI, w, 0, "", a))
	}
	return c.small(c.mk(OpFToUI, w, 0, "", a))
}

func (c *Ctx) IToF(a *Term, w int, signed bool) *Term {
	if a.op == OpConst {
		return c.BV(foldIToF(a.k, a.w, w, signed), w)
	}
	if signed {
		return c.small(c.mk(OpSIToF, w, 0, "", a))
	}
	return c.small(c.mk(OpUIToF, w, 0, "", a))
}

func foldIToF(k uint64, aw, w int, signed bool) uint64 {
	if signed {
		i := int64(sext(k, aw))
		if w == 32 {
			return uint64(math.Float32bits(float32(i)))
		}
		return math.Float64bits(float64(i))
	}
	if w == 32 {
		return uint64(math.Float32bits(float32(k)))
	}
	return math.Float64bits(float64(k))
}

func (c *Ctx) UF(name string, w int, args ...*Term) *Term {
	return c.mk(OpUF, w, 0, name, args...)
}

// ---- evaluation under a model ----

type Model struct {
	vals map[*Term]uint64 // vars and UF applications; Bool as 0/1
	memo map[*Term]uint64
}

type evaluator struct {
	m    *Model
	memo map[*Term]uint64
	bad  bool
}

func (m *Model) Eval(t *Term) (uint64, bool) {
	if m.memo == nil {
		m.memo = map[*Term]uint64{}
	}
	e := evaluator{m: m, memo: m.memo}
	v := e.eval(t)
	if e.bad {
		m.memo = nil
	}
	return v, !e.bad
}

func (m *Model) EvalBool(t *Term) (bool, bool) {
	v, ok := m.Eval(t)
	return v != 0, ok
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpTrue:
		return 1
	case OpFalse:
		return 0
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	if t.w > 64 {
		e.bad = true
		return 0
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v
}

func (e *evaluator) eval1(t *Term) uint64 {
	a := t.args
	switch t.op {
	case OpVar:
		return e.m.vals[t] // unconstrained variables default to 0
	case OpUF:
		if v, ok := e.m.vals[t]; ok {
			return v
		}
		e.bad = true
		return 0
	case OpNot:
		return 1 - e.eval(a[0])
	case OpAnd:
		if e.eval(a[0]) == 0 {
			return 0
		}
		return e.eval(a[1])
	case OpOr:
		if e.eval(a[0]) != 0 {
			return 1
		}
		return e.eval(a[1])
	case OpIte:
		if e.eval(a[0]) != 0 {
			return e.eval(a[1])
		}
		return e.eval(a[2])
	case OpEq:
		if a[0].w > 64 {
			e.bad = true
			return 0
		}
		return b2u(e.eval(a[0]) == e.eval(a[1]))
	case OpBNot:
		return ^e.eval(a[0]) & mask(t.w)
	case OpNeg:
		return -e.eval(a[0]) & mask(t.w)
	case OpConcat:
		return e.eval(a[0])<<uint(a[1].w) | e.eval(a[1])
	case OpExtract:
		if a[0].w > 64 {
			e.bad = true
			return 0
		}
		return e.eval(a[0]) >> (t.k & 0xffff) & mask(t.w)
	case OpZExt:
		return e.eval(a[0])
	case OpSExt:
		return sext(e.eval(a[0]), a[0].w) & mask(t.w)
	case OpUlt, OpUle, OpSlt, OpSle:
		if a[0].w > 64 {
			e.bad = true
			return 0
		}
		x, y := e.eval(a[0]), e.eval(a[1])
		w := a[0].w
		switch t.op {
		case OpUlt:
			return b2u(x < y)
		case OpUle:
			return b2u(x <= y)
		case OpSlt:
			return b2u(int64(sext(x, w)) < int64(sext(y, w)))
		}
		return b2u(int64(sext(x, w)) <= int64(sext(y, w)))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return foldF(t.op, e.eval(a[0]), e.eval(a[1]), t.w)
	case OpFLt, OpFLe, OpFEq:
		return b2u(foldFCmp(t.op, e.eval(a[0]), e.eval(a[1]), a[0].w))
	case OpFToF:
		return fbits(f64(e.eval(a[0]), a[0].w), t.w)
	case OpFRound:
		return fbits(roundFuncs[t.k](f64(e.eval(a[0]), t.w)), t.w)
	case OpFSqrt:
		return fbits(math.Sqrt(f64(e.eval(a[0]), t.w)), t.w)
	case OpFToSI, OpFToUI:
		f := f64(e.eval(a[0]), a[0].w)
		if f != f || f >= 9.2e18 || f <= -9.2e18 {
			e.bad = true
			return 0
		}
		return uint64(int64(f)) & mask(t.w)
	case OpSIToF:
		return foldIToF(e.eval(a[0]), a[0].w, t.w, true)
	case OpUIToF:
		return foldIToF(e.eval(a[0]), a[0].w, t.w, false)
	}
	if v, ok := foldBV(t.op, e.eval(a[0]), e.eval(a[1]), t.w); ok {
		return v
	}
	e.bad = true
	return 0
}

func (t *Term) String() string {
	switch t.op {
	case OpVar:
		return t.name
	case OpConst:
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d%s", t.op, t.name)
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	if t.op == OpExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.k>>16, t.k&0xffff)
	}
	for _, a := range t.args {
		s := a.String()
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		sb.WriteString(" " + s)
	}
	sb.WriteString(")")
	return sb.String()
}

type linTerm struct {
	x *Term
	k uint64
}

// linear writes t, as an unsigned number, as a sum of multiples plus a constant; every partial
// sum and product stays below 2^w, so the identity holds over the integers.
func linear(t *Term, k uint64, out []linTerm, konst *uint64, depth int) []linTerm {
	switch t.op {
	case OpConst:
		*konst += k * t.k
		return out
	case OpAdd:
		s, carry := bits.Add64(t.args[0].umaxv, t.args[1].umaxv, 0)
		if depth > 0 && carry == 0 && s <= mask(t.w) {
			out = linear(t.args[0], k, out, konst, depth-1)
			return linear(t.args[1], k, out, konst, depth-1)
		}
	case OpMul:
		if t.args[1].op == OpConst {
			hi, lo := bits.Mul64(t.args[0].umaxv, t.args[1].k)
			if depth > 0 && hi == 0 && lo <= mask(t.w) {
				return linear(t.args[0], k*t.args[1].k, out, konst, depth-1)
			}
		}
	}
	return append(out, linTerm{t, k})
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// linDiv simplifies t/d (div) or t%d for a constant d when t is a sum with a part divisible by d.
func (c *Ctx) linDiv(t *Term, d uint64, div bool) *Term {
	w := t.w
	// K - m*x with m a multiple of d
	if t.op == OpSub && t.args[0].op == OpConst && t.args[1].op == OpMul && t.args[1].args[1].op == OpConst {
		k, x, m := t.args[0].k, t.args[1].args[0], t.args[1].args[1].k
		if hi, lo := bits.Mul64(x.umaxv, m); hi == 0 && lo <= k && m%d == 0 {
			if div {
				return c.Bin(OpSub, c.BV(k/d, w), c.Bin(OpMul, x, c.BV(m/d, w)))
			}
			return c.BV(k%d, w)
		}
	}
	neg := uint64(0)
	base := t
	// x - K with x >= K: the subtraction does not wrap
	if t.op == OpAdd && t.args[1].op == OpConst {
		k := -t.args[1].k & mask(w)
		if t.args[0].uminv >= k && k%d == 0 {
			neg, base = k, t.args[0]
		}
	}
	var konst uint64
	ls := linear(base, 1, nil, &konst, 8)
	if neg == 0 && konst == 0 && len(ls) == 1 {
		if ls[0].k == 1 {
			return nil
		}
		g := gcd(ls[0].k, d)
		if g == 1 {
			return nil
		}
		in := c.Bin(OpMul, ls[0].x, c.BV(ls[0].k/g, w))
		if d/g == 1 {
			if div {
				return in
			}
			return c.BV(0, w)
		}
		if div {
			return c.Bin(OpUDiv, in, c.BV(d/g, w))
		}
		return c.Bin(OpMul, c.Bin(OpURem, in, c.BV(d/g, w)), c.BV(g, w))
	}
	q := c.BV(konst/d-neg/d, w)
	r := c.BV(konst%d, w)
	hit := neg != 0 || konst >= d
	for _, l := range ls {
		if l.k >= d {
			q = c.Bin(OpAdd, q, c.Bin(OpMul, l.x, c.BV(l.k/d, w)))
			hit = true
		}
		if l.k%d != 0 {
			r = c.Bin(OpAdd, r, c.Bin(OpMul, l.x, c.BV(l.k%d, w)))
		}
	}
	if !hit {
		return nil
	}
	if div {
		return c.Bin(OpAdd, q, c.Bin(OpUDiv, r, c.BV(d, w)))
	}
	return c.Bin(OpURem, r, c.BV(d, w))
}

// smallDomain finds the single variable t depends on and the bits of it that t reads.
func smallDomain(t *Term) (*Term, uint64) {
	var v *Term
	var used uint64
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	leaf := func(x *Term, m uint64) bool {
		if v != nil && v != x || x.w > 64 {
			return false
		}
		v, used = x, used|m
		return bits.OnesCount64(used) <= 8
	}
	walk = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if len(seen) > 3000 || t.w > 64 || t.op == OpUF {
			return false
		}
		if t.op == OpVar {
			return leaf(t, mask(t.w))
		}
		if t.op == OpExtract && t.args[0].op == OpVar {
			return leaf(t.args[0], mask(t.w)<<(t.k&0xffff))
		}
		for _, a := range t.args {
			if !walk(a) {
				return false
			}
		}
		return true
	}
	if !walk(t) || v == nil {
		return nil, 0
	}
	return v, used
}

// small writes a floating-point term that depends on at most eight bits of one variable as a
// decision tree over those bits: bit-blasting floating-point division is far more expensive.
func (c *Ctx) small(t *Term) *Term {
	if r, ok := c.smalls[t]; ok {
		return r
	}
	if c.smalls == nil {
		c.smalls = map[*Term]*Term{}
	}
	c.smalls[t] = t
	v, used := smallDomain(t)
	if v == nil {
		return t
	}
	var pos []int
	for i := 0; i < 64; i++ {
		if used>>uint(i)&1 == 1 {
			pos = append(pos, i)
		}
	}
	vals := make([]*Term, 1<<len(pos))
	for i := range vals {
		x := uint64(0)
		for j, p := range pos {
			x |= uint64(i>>uint(j)&1) << uint(p)
		}
		m := Model{vals: map[*Term]uint64{v: x}}
		y, ok := m.Eval(t)
		if !ok {
			return t
		}
		if t.w == 0 {
			vals[i] = c.Bool(y != 0)
		} else {
			if t.op != OpFToSI && t.op != OpFToUI && f64(y, t.w) != f64(y, t.w) {
				return t
			}
			vals[i] = c.BV(y, t.w)
		}
	}
	for n := len(pos) - 1; n >= 0; n-- {
		bit := c.Eq(c.Extract(v, pos[n], pos[n]), c.BV(1, 1))
		for i := 0; i < 1<<n; i++ {
			vals[i] = c.Ite(bit, vals[i+(1<<n)], vals[i])
		}
	}
	c.smalls[t] = vals[0]
	return vals[0]
}
