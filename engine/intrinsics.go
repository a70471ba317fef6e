package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ICall is one call to an intrinsic. An intrinsic must not mutate the state before its last decide/mustConst/resolve/schedPoint.
type ICall struct {
	e        *Engine
	st       *State
	fn       *ssa.Function
	args     []Value
	binds    []Value
	site     *ssa.Call
	replaced []*State
	pushed   bool
}

type native func(*ICall) Value

func (ic *ICall) term(i int) *Term { return ic.e.term(ic.st, ic.args[i]) }
func (ic *ICall) str(i int) Str    { return ic.e.resolve(ic.st, ic.args[i]).(Str) }
func (ic *ICall) slice(i int) Slice {
	return ic.e.resolve(ic.st, ic.args[i]).(Slice)
}
func (ic *ICall) name(i int) string {
	s := ic.str(i)
	if s.sym {
		panic("vnd: name must be constant")
	}
	return s.s
}
func (ic *ICall) konst(i int) int64 { return int64(ic.e.mustConst(ic.st, ic.term(i))) }

func (e *Engine) nativeFor(fv *FuncV) native {
	if fv.native != nil {
		return fv.native
	}
	fn := fv.fn
	if fn == nil {
		return nil
	}
	if n, ok := e.natCache[fn]; ok {
		return n
	}
	n := e.findNative(fn)
	e.natCache[fn] = n
	return n
}

func (e *Engine) findNative(fn *ssa.Function) native {
	if strings.HasPrefix(fn.Name(), "vnd") && fn.Signature.Recv() == nil && fn.Parent() == nil {
		if n, ok := vndTable[fn.Name()]; ok {
			return n
		}
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if r, ok := e.redirects[name]; ok {
		return func(ic *ICall) Value { return ic.redirect(r) }
	}
	if n, ok := natives[name]; ok {
		return n
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if (p == "reflect" || p == "internal/reflectlite") && !interpretedReflect[name] {
			return func(ic *ICall) Value { panic(unsupported{"reflection: " + name}) }
		}
		if p == "sync/atomic" || p == "internal/runtime/atomic" {
			if n := atomicNative(fn.Name()); n != nil && fn.Signature.Recv() == nil {
				return n
			}
		}
	}
	return nil
}

// redirect calls an interpreted helper instead.
func (ic *ICall) redirect(fn *ssa.Function) Value {
	if ic.site == nil {
		panic(unsupported{"redirected call in defer/go: " + ic.fn.String()})
	}
	f := ic.st.top()
	ic.e.pushCall(ic.st, &FuncV{fn: fn}, ic.args, f.fi.index[ic.site], retNormal)
	ic.pushed = true
	return nil
}

func (e *Engine) ndVar(st *State, name string, w int) *Term {
	k := st.nd[name]
	st.nd[name] = k + 1
	full := fmt.Sprintf("nd:%s#%d", name, k)
	return e.c.Var(full, w)
}

var vndTable map[string]native
var natives map[string]native

func vndScalar(w int) native {
	return func(ic *ICall) Value {
		return ic.e.ndVar(ic.st, ic.name(0), w)
	}
}

func init() {
	vndTable = map[string]native{
		"vndU8": vndScalar(8), "vndU16": vndScalar(16), "vndU32": vndScalar(32), "vndU64": vndScalar(64),
		"vndI8": vndScalar(8), "vndI16": vndScalar(16), "vndI32": vndScalar(32), "vndI64": vndScalar(64), "vndF32": vndScalar(32), "vndF64": vndScalar(64),
		"vndBool": func(ic *ICall) Value {
			return ic.e.c.Eq(ic.e.ndVar(ic.st, ic.name(0), 8), ic.e.c.BV(1, 8))
		},
		"vndInt": func(ic *ICall) Value {
			e := ic.e
			lo, hi := uint64(ic.konst(1)), uint64(ic.konst(2))
			n := ic.name(0)
			k := ic.st.nd[n]
			nm := fmt.Sprintf("nd:%s#%d", n, k)
			v := e.c.Var(nm, 64)
			key := fmt.Sprintf("%s:%d:%d", nm, lo, hi)
			cond := e.c.rng[key]
			if cond == nil {
				if v.umaxv != ^uint64(0) || v.uminv != 0 {
					panic(unsupported{"vndInt: two ranges for " + n})
				}
				cond = e.c.And(e.c.Sle(e.c.BV(lo, 64), v), e.c.Sle(v, e.c.BV(hi, 64)))
				e.c.rng[key] = cond
				if v.umaxv == ^uint64(0) && int64(lo) >= 0 && lo <= hi {
					// every path that mentions the variable carries the constraint
					v.uminv, v.umaxv = lo, hi
				}
			}
			e.assume(ic.st, cond)
			ic.st.nd[n] = k + 1
			return v
		},
		// vndChoose(name, n): a value in [0,n), explored as separate paths.
		"vndChoose": func(ic *ICall) Value {
			e := ic.e
			n := ic.konst(1)
			nm := ic.name(0)
			k := ic.st.nd[nm]
			v := e.c.Var(fmt.Sprintf("nd:%s#%d", nm, k), 64)
			if kv, ok := ic.st.consts[v]; ok {
				ic.st.nd[nm] = k + 1
				return e.c.BV(kv, 64)
			}
			var out []*State
			for i := int64(0); i < n; i++ {
				s := e.fork(ic.st)
				eq := e.c.Eq(v, e.c.BV(uint64(i), 64))
				s.addPC(e.c, eq)
				s.consts[v] = uint64(i)
				if s.witness != nil {
					m := &Model{vals: map[*Term]uint64{}}
					for a, b := range s.witness.vals {
						m.vals[a] = b
					}
					m.vals[v] = uint64(i)
					s.witness = m
				}
				out = append(out, s)
			}
			e.Forks++
			panic(forkRetry{states: out})
		},
		"vndPart": func(ic *ICall) Value {
			ic.e.c.Var("nd:part#0", 64)
			return ic.e.c.BV(uint64(ic.e.part), 64)
		},
		"vndTier":   func(ic *ICall) Value { return ic.e.c.BV(uint64(ic.e.tier), 64) },
		"vndNative": func(ic *ICall) Value { return ic.e.c.False },
		"vndConc":   func(ic *ICall) Value { return ic.e.c.BV(uint64(ic.konst(0)), 64) },
		"vndBytes": func(ic *ICall) Value {
			n := int(ic.konst(1))
			nm := ic.name(0)
			k := ic.st.nd[nm]
			ic.st.nd[nm] = k + 1
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = ic.e.c.Var(fmt.Sprintf("nd:%s#%d[%d]", nm, k, i), 8)
			}
			if n == 0 {
				return ic.e.newSlice(ic.st, types.Typ[types.Uint8], nil, 0)
			}
			return ic.e.bytesSlice(ic.st, bs)
		},
		"vndString": func(ic *ICall) Value {
			n := int(ic.konst(1))
			nm := ic.name(0)
			k := ic.st.nd[nm]
			ic.st.nd[nm] = k + 1
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = ic.e.c.Var(fmt.Sprintf("nd:%s#%d[%d]", nm, k, i), 8)
			}
			return mkStr(bs)
		},
		"vndAssume": func(ic *ICall) Value {
			ic.e.assume(ic.st, ic.term(0))
			return nil
		},
		"vndAssert": func(ic *ICall) Value {
			e := ic.e
			cond := ic.term(0)
			label := ic.name(1)
			e.Asserts[label]++
			if cond.IsTrue() {
				e.Folded++
				return nil
			}
			if v, ok := ic.st.knownVal(e.c, cond); ok && v {
				e.Folded++
				return nil
			}
			neg := e.c.Not(cond)
			e.violate(ic.st, "assert", label, e.curPos(ic.st), e.stackOf(ic.st), neg)
			// continue on the satisfying side
			r, m := e.feasible(ic.st, cond)
			if r == Unsat {
				panic(pathEnd{"assert"})
			}
			ic.st.addPC(e.c, cond)
			if m != nil {
				ic.st.witness = m
			} else {
				ic.st.witness = nil
			}
			return nil
		},
		"vndReach": func(ic *ICall) Value {
			l := ic.name(0)
			if !ic.e.Reach[l] {
				// the solver confirms that the path is feasible and gives the inputs to run natively
				r, w := ic.e.solver.Check(ic.st.pc, nil, true)
				ok := r == Sat && w != nil
				if ok {
					ic.e.Reach[l] = true
					in := map[string]uint64{}
					for _, t := range ic.e.c.varl {
						if strings.HasPrefix(t.name, "nd:") {
							in[t.name[3:]] = w.vals[t]
						}
					}
					ic.e.Witnesses = append(ic.e.Witnesses, Witness{l, in})
				}
			}
			return nil
		},
		"vndYield": func(ic *ICall) Value {
			ic.e.schedPoint(ic.st)
			ic.st.schedOK = false
			return nil
		},
		// vndJoin(): wait until every other goroutine has finished
		"vndJoin": func(ic *ICall) Value {
			all := func(s *State) bool {
				for i, t := range s.threads {
					if i != 0 && !t.done {
						return false
					}
				}
				return true
			}
			if !all(ic.st) {
				ic.e.block(ic.st, "join", all)
			}
			return nil
		},
		// vndQuiesce(): run the other goroutines until each is finished or blocked; reports how many are still alive
		"vndQuiesce": func(ic *ICall) Value {
			e := ic.e
			me := ic.st.cur
			q := func(s *State) bool {
				for i := range s.threads {
					if i != me && e.runnable(s, i) {
						return false
					}
				}
				return true
			}
			if !q(ic.st) {
				e.block(ic.st, "quiesce", q)
			}
			return e.c.BV(uint64(e.live(ic.st)-1), 64)
		},
		"vndExact": func(ic *ICall) Value {
			v := ic.konst(0)
			if ic.st.tags == nil {
				ic.st.tags = map[string]int{}
			}
			ic.st.tags["exact"] = int(v)
			return nil
		},
		"vndNote": func(ic *ICall) Value { ic.e.note("%s", ic.name(0)); return nil },
	}
	id := func(ic *ICall) Value { return ic.args[0] }
	none := func(ic *ICall) Value { return nil }
	natives = map[string]native{
		"math.Float64bits": id, "math.Float64frombits": id, "math.Float32bits": id, "math.Float32frombits": id,
		"internal/abi.NoEscape": id, "internal/abi.Escape": id, "runtime.KeepAlive": none, "runtime.SetFinalizer": none, "runtime.GC": none,
		"math.Abs": func(ic *ICall) Value { return ic.e.c.Bin(OpBAnd, ic.term(0), ic.e.c.BV(1<<63-1, 64)) },
		"math.IsNaN": func(ic *ICall) Value {
			return ic.e.c.Not(ic.e.c.FCmp(OpFEq, ic.term(0), ic.term(0)))
		},
		"math/bits.Mul64":           natMul64,
		"math/bits.LeadingZeros64":  natLZ(64),
		"math/bits.LeadingZeros32":  natLZ(32),
		"math/bits.TrailingZeros64": natTZ(64),
		"math/bits.TrailingZeros32": natTZ(32),
		"math/bits.TrailingZeros":   natTZ(64),
		"math/bits.Len64": func(ic *ICall) Value {
			c := ic.e.c
			return c.Bin(OpSub, c.BV(64, 64), natLZ(64)(ic).(*Term))
		},
		"math/bits.Len32": func(ic *ICall) Value {
			c := ic.e.c
			return c.Bin(OpSub, c.BV(32, 64), natLZ(32)(ic).(*Term))
		},
		"internal/bytealg.IndexByteString": func(ic *ICall) Value {
			return ic.e.indexByte(ic.st, ic.str(0).bytes(ic.e.c), ic.term(1))
		},
		"internal/bytealg.IndexByte": func(ic *ICall) Value {
			return ic.e.indexByte(ic.st, ic.e.sliceBytes(ic.st, ic.slice(0)), ic.term(1))
		},
		"internal/bytealg.CountString": func(ic *ICall) Value {
			return ic.e.countByte(ic.str(0).bytes(ic.e.c), ic.term(1))
		},
		"internal/bytealg.Count": func(ic *ICall) Value {
			return ic.e.countByte(ic.e.sliceBytes(ic.st, ic.slice(0)), ic.term(1))
		},
		"internal/bytealg.IndexString": func(ic *ICall) Value {
			return ic.e.indexSub(ic.str(0).bytes(ic.e.c), ic.str(1).bytes(ic.e.c))
		},
		"internal/bytealg.Index": func(ic *ICall) Value {
			return ic.e.indexSub(ic.e.sliceBytes(ic.st, ic.slice(0)), ic.e.sliceBytes(ic.st, ic.slice(1)))
		},
		"strings.Index": func(ic *ICall) Value {
			return ic.e.indexSub(ic.str(0).bytes(ic.e.c), ic.str(1).bytes(ic.e.c))
		},
		"internal/bytealg.Compare": func(ic *ICall) Value {
			a, b := mkStr(ic.e.sliceBytes(ic.st, ic.slice(0))), mkStr(ic.e.sliceBytes(ic.st, ic.slice(1)))
			return ic.e.strCmp(a, b)
		},
		"internal/bytealg.CompareString": func(ic *ICall) Value { return ic.e.strCmp(ic.str(0), ic.str(1)) },
		"strings.Compare":                func(ic *ICall) Value { return ic.e.strCmp(ic.str(0), ic.str(1)) },
		"bytes.Equal": func(ic *ICall) Value {
			a, b := mkStr(ic.e.sliceBytes(ic.st, ic.slice(0))), mkStr(ic.e.sliceBytes(ic.st, ic.slice(1)))
			return ic.e.valEq(a, b)
		},
		"bytes.Compare": func(ic *ICall) Value {
			a, b := mkStr(ic.e.sliceBytes(ic.st, ic.slice(0))), mkStr(ic.e.sliceBytes(ic.st, ic.slice(1)))
			return ic.e.strCmp(a, b)
		},
		"internal/bytealg.MakeNoZero": func(ic *ICall) Value {
			n := int(ic.konst(0))
			a := NewArrayV(n, ic.e.c.BV(0, 8))
			return Slice{obj: ic.e.alloc(ic.st, a, types.NewArray(types.Typ[types.Uint8], int64(n))), len: n, cap: n}
		},
		"internal/stringslite.Clone": id, "strings.Clone": id,
		"fmt.Sprintf": func(ic *ICall) Value { return ic.e.sprintf(ic.st, ic.str(0), ic.e.ifaceArgs(ic.st, ic.args[1])) },
		"fmt.Sprint":  func(ic *ICall) Value { return ic.e.sprint(ic.st, ic.e.ifaceArgs(ic.st, ic.args[0])) },
		"fmt.Errorf": func(ic *ICall) Value {
			s := ic.e.sprintf(ic.st, ic.str(0), ic.e.ifaceArgs(ic.st, ic.args[1]))
			return ic.e.mkError(ic.st, s)
		},
		"fmt.Println":                   func(ic *ICall) Value { return Tuple{ic.e.c.BV(0, 64), Iface{}} },
		"fmt.Printf":                    func(ic *ICall) Value { return Tuple{ic.e.c.BV(0, 64), Iface{}} },
		"fmt.Fprintln":                  func(ic *ICall) Value { return Tuple{ic.e.c.BV(0, 64), Iface{}} },
		"fmt.Fprintf":                   func(ic *ICall) Value { return Tuple{ic.e.c.BV(0, 64), Iface{}} },
		"(*sync.Mutex).Lock":            func(ic *ICall) Value { return ic.lock(0, false) },
		"(*sync.Mutex).Unlock":          func(ic *ICall) Value { return ic.unlock(false) },
		"(*sync.Mutex).TryLock":         func(ic *ICall) Value { return ic.tryLock() },
		"(*internal/sync.Mutex).Lock":   func(ic *ICall) Value { return ic.lock(0, false) },
		"(*internal/sync.Mutex).Unlock": func(ic *ICall) Value { return ic.unlock(false) },
		"(*sync.RWMutex).Lock":          func(ic *ICall) Value { return ic.lock(1, false) },
		"(*sync.RWMutex).Unlock":        func(ic *ICall) Value { return ic.unlock(false) },
		"(*sync.RWMutex).RLock":         func(ic *ICall) Value { return ic.lock(1, true) },
		"(*sync.RWMutex).RUnlock":       func(ic *ICall) Value { return ic.unlock(true) },
		"(*sync.Map).Load":              natMapLoad,
		"(*sync.Map).Store":             natMapStore,
		"(*sync.Map).LoadOrStore":       natMapLoadOrStore,
		"(*sync.Map).Delete":            natMapDelete,
		"(*sync.Pool).Put":              none,
		"(*sync.WaitGroup).Add":         func(ic *ICall) Value { return ic.wgAdd(ic.term(1)) },
		"(*sync.WaitGroup).Done": func(ic *ICall) Value {
			return ic.wgAdd(ic.e.c.BV(^uint64(0), 64))
		},
		"(*sync.WaitGroup).Wait": func(ic *ICall) Value {
			e := ic.e
			p, path := ic.leaf(0)
			e.schedPoint(ic.st)
			if e.mustConst(ic.st, e.loadPath(ic.st, e.obj(ic.st, p.obj).v, path).(*Term)) != 0 {
				e.block(ic.st, "WaitGroup.Wait", func(s *State) bool {
					t := e.loadPath(s, e.obj(s, p.obj).v, path).(*Term)
					return t.op == OpConst && t.k == 0
				})
			}
			ic.st.schedOK = false
			return nil
		},
		"time.Sleep": func(ic *ICall) Value {
			ic.e.sleep(ic.st)
			ic.st.schedOK = false
			return nil
		},
		"runtime.Gosched": func(ic *ICall) Value {
			ic.e.schedPoint(ic.st)
			ic.st.schedOK = false
			return nil
		},
		"time.initLocal":                            func(ic *ICall) Value { return nil }, // local time is UTC
		"time.runtimeNano":                          func(ic *ICall) Value { return ic.e.c.BV(1000, 64) },
		"time.Now":                                  natNow,
		"internal/godebug.New":                      func(ic *ICall) Value { return Ptr{} },
		"(*internal/godebug.Setting).Value":         func(ic *ICall) Value { return Str{} },
		"(*internal/godebug.Setting).IncNonDefault": none,
		"strconv.Itoa":                              func(ic *ICall) Value { return ic.e.fmtInt(ic, ic.term(0), 10, true) },
		"strconv.FormatInt":                         func(ic *ICall) Value { return ic.e.fmtInt(ic, ic.term(0), int(ic.konst(1)), true) },
		"strconv.FormatUint":                        func(ic *ICall) Value { return ic.e.fmtInt(ic, ic.term(0), int(ic.konst(1)), false) },
		"strconv.FormatFloat": func(ic *ICall) Value {
			t := ic.term(0)
			f, p, b := byte(ic.konst(1)), int(int64(ic.konst(2))), int(ic.konst(3))
			if t.op != OpConst {
				ic.e.note("text of a symbolic floating-point value abstracted to a placeholder")
				return Str{s: "<float>"}
			}
			return Str{s: strconv.FormatFloat(math.Float64frombits(t.k), f, p, b)}
		},
		"math.Sqrt": func(ic *ICall) Value {
			t := ic.term(0)
			if t.op == OpConst {
				return ic.e.c.BV(math.Float64bits(math.Sqrt(math.Float64frombits(t.k))), 64)
			}
			return ic.e.c.small(ic.e.c.mk(OpFSqrt, 64, 0, "", t))
		},
		"math.Pow":        natF2("pow", math.Pow),
		"math.Mod":        natF2("mod", math.Mod),
		"math.Floor":      natRound(0),
		"math.Ceil":       natRound(1),
		"math.Trunc":      natRound(2),
		"math.Round":      natRound(3),
		"math.Exp":        natF1("exp", math.Exp),
		"math.Log":        natF1("log", math.Log),
		"math.Log2":       natF1("log2", math.Log2),
		"math.Log10":      natF1("log10", math.Log10),
		"os.Exit":         func(ic *ICall) Value { panic(pathEnd{"os.Exit"}) },
		"strings.ToUpper": func(ic *ICall) Value { return ic.e.caseMap(ic, true) },
		"strings.ToLower": func(ic *ICall) Value { return ic.e.caseMap(ic, false) },
	}
	reflectNatives(natives)
	reflectValueNatives(natives)
	// functions whose interpreted bodies are used when the arguments are not all concrete
}

// roundFuncs are indexed by the rounding mode of OpFRound.
var roundFuncs = []func(float64) float64{math.Floor, math.Ceil, math.Trunc, math.Round}

func natRound(mode uint64) native {
	return func(ic *ICall) Value {
		t := ic.term(0)
		if t.op == OpConst {
			return ic.e.c.BV(math.Float64bits(roundFuncs[mode](math.Float64frombits(t.k))), 64)
		}
		return ic.e.c.small(ic.e.c.mk(OpFRound, 64, mode, "", t))
	}
}

func natF1(name string, f func(float64) float64) native {
	return func(ic *ICall) Value {
		t := ic.term(0)
		if t.op == OpConst {
			return ic.e.c.BV(math.Float64bits(f(math.Float64frombits(t.k))), 64)
		}
		return ic.e.c.UF("math."+name, 64, t)
	}
}

func natF2(name string, f func(a, b float64) float64) native {
	return func(ic *ICall) Value {
		a, b := ic.term(0), ic.term(1)
		if a.op == OpConst && b.op == OpConst {
			return ic.e.c.BV(math.Float64bits(f(math.Float64frombits(a.k), math.Float64frombits(b.k))), 64)
		}
		if name == "pow" && b.op == OpConst {
			switch math.Float64frombits(b.k) {
			case 0:
				return ic.e.c.BV(math.Float64bits(1), 64)
			case 1:
				return a
			}
		}
		return ic.e.c.UF("math."+name, 64, a, b)
	}
}

func natMul64(ic *ICall) Value {
	c := ic.e.c
	a, b := ic.term(0), ic.term(1)
	if a.op == OpConst && b.op == OpConst {
		h, l := bits.Mul64(a.k, b.k)
		return Tuple{c.BV(h, 64), c.BV(l, 64)}
	}
	m32 := c.BV(0xffffffff, 64)
	sh := c.BV(32, 64)
	x0, x1 := c.Bin(OpBAnd, a, m32), c.Bin(OpLShr, a, sh)
	y0, y1 := c.Bin(OpBAnd, b, m32), c.Bin(OpLShr, b, sh)
	w0 := c.Bin(OpMul, x0, y0)
	t := c.Bin(OpAdd, c.Bin(OpMul, x1, y0), c.Bin(OpLShr, w0, sh))
	w1 := c.Bin(OpAdd, c.Bin(OpBAnd, t, m32), c.Bin(OpMul, x0, y1))
	w2 := c.Bin(OpLShr, t, sh)
	hi := c.Bin(OpAdd, c.Bin(OpAdd, c.Bin(OpMul, x1, y1), w2), c.Bin(OpLShr, w1, sh))
	return Tuple{hi, c.Bin(OpMul, a, b)}
}

func natLZ(w int) native {
	return func(ic *ICall) Value {
		c := ic.e.c
		t := ic.term(0)
		r := c.BV(uint64(w), 64)
		for i := 0; i < w; i++ {
			r = c.Ite(c.Eq(c.Extract(t, i, i), c.BV(1, 1)), c.BV(uint64(w-1-i), 64), r)
		}
		return r
	}
}

func natTZ(w int) native {
	return func(ic *ICall) Value {
		c := ic.e.c
		t := ic.term(0)
		r := c.BV(uint64(w), 64)
		for i := w - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(c.Extract(t, i, i), c.BV(1, 1)), c.BV(uint64(i), 64), r)
		}
		return r
	}
}

func (e *Engine) indexByte(st *State, bs []*Term, b *Term) Value {
	r := e.c.BV(^uint64(0), 64)
	for i := len(bs) - 1; i >= 0; i-- {
		r = e.c.Ite(e.c.Eq(bs[i], b), e.c.BV(uint64(i), 64), r)
	}
	return r
}

func (e *Engine) countByte(bs []*Term, b *Term) Value {
	r := e.c.BV(0, 64)
	for _, x := range bs {
		r = e.c.Bin(OpAdd, r, e.c.Ite(e.c.Eq(x, b), e.c.BV(1, 64), e.c.BV(0, 64)))
	}
	return r
}

func (e *Engine) indexSub(h, n []*Term) Value {
	r := e.c.BV(^uint64(0), 64)
	for i := len(h) - len(n); i >= 0; i-- {
		m := e.c.True
		for k := range n {
			m = e.c.And(m, e.c.Eq(h[i+k], n[k]))
		}
		r = e.c.Ite(m, e.c.BV(uint64(i), 64), r)
	}
	return r
}

func (e *Engine) strCmp(a, b Str) Value {
	lt, gt := e.strLess(a, b), e.strLess(b, a)
	return e.c.Ite(lt, e.c.BV(^uint64(0), 64), e.c.Ite(gt, e.c.BV(1, 64), e.c.BV(0, 64)))
}

// caseMap: exact for ASCII; non-ASCII symbolic bytes are outside the modelled set.
func (e *Engine) caseMap(ic *ICall, up bool) Value {
	s := ic.str(0)
	if !s.sym {
		if up {
			return Str{s: strings.ToUpper(s.s)}
		}
		return Str{s: strings.ToLower(s.s)}
	}
	c := e.c
	ascii := c.True
	for _, b := range s.b {
		ascii = c.And(ascii, c.Ult(b, c.BV(0x80, 8)))
	}
	if !e.decide(ic.st, ascii) {
		e.note("case mapping of symbolic non-ASCII text not explored")
		panic(pathEnd{"non-ascii"})
	}
	out := make([]*Term, len(s.b))
	lo, hi := uint64('a'), uint64('z')
	if !up {
		lo, hi = 'A', 'Z'
	}
	for i, b := range s.b {
		in := c.And(c.Ule(c.BV(lo, 8), b), c.Ule(b, c.BV(hi, 8)))
		out[i] = c.Ite(in, c.Bin(OpBXor, b, c.BV(0x20, 8)), b)
	}
	return mkStr(out)
}

func (e *Engine) fmtInt(ic *ICall, t *Term, base int, signed bool) Value {
	if t.op == OpConst {
		if signed {
			return Str{s: strconv.FormatInt(int64(t.k), base)}
		}
		return Str{s: strconv.FormatUint(t.k, base)}
	}
	if k, ok := ic.st.consts[t]; ok {
		if signed {
			return Str{s: strconv.FormatInt(int64(k), base)}
		}
		return Str{s: strconv.FormatUint(k, base)}
	}
	if ic.st.tags["exact"] == 0 {
		e.note("text of a symbolic integer abstracted to a placeholder")
		return Str{s: "<int>"}
	}
	c := e.c
	neg := false
	if signed {
		neg = e.decide(ic.st, c.Slt(t, c.BV(0, 64)))
		if neg {
			t = c.Neg(t)
		}
	}
	n := 1
	lim := uint64(base)
	for {
		if e.decide(ic.st, c.Ult(t, c.BV(lim, 64))) {
			break
		}
		n++
		if h, l := bits.Mul64(lim, uint64(base)); h != 0 {
			break
		} else {
			lim = l
		}
	}
	out := make([]*Term, n)
	x := t
	bb := c.BV(uint64(base), 64)
	for i := n - 1; i >= 0; i-- {
		d := c.Extract(c.Bin(OpURem, x, bb), 7, 0)
		ch := c.Bin(OpAdd, d, c.BV('0', 8))
		if base > 10 {
			ch = c.Ite(c.Ult(d, c.BV(10, 8)), ch, c.Bin(OpAdd, d, c.BV('a'-10, 8)))
		}
		out[i] = ch
		x = c.Bin(OpUDiv, x, bb)
	}
	if neg {
		out = append([]*Term{c.BV('-', 8)}, out...)
	}
	return mkStr(out)
}

func (e *Engine) ifaceArgs(st *State, v Value) []Iface {
	s := e.resolve(st, v).(Slice)
	var out []Iface
	for _, x := range e.sliceElems(st, s) {
		out = append(out, e.resolve(st, x).(Iface))
	}
	return out
}

// goVal renders a concrete value for native formatting.
func (e *Engine) goVal(st *State, i Iface) (interface{}, bool) {
	if i.t == nil {
		return nil, true
	}
	named := false
	if n, ok := i.t.(*types.Named); ok {
		ms := types.NewMethodSet(n)
		if ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "String") != nil {
			named = true
		}
	}
	if _, ok := i.t.(*types.Pointer); ok {
		// errors.errorString and friends
		if p, ok := i.v.(Ptr); ok && p.obj != 0 {
			if sv, ok := e.obj(st, p.obj).v.(*StructV); ok && len(sv.f) >= 1 && i.t.String() == "*errors.errorString" {
				if s, ok := sv.f[0].(Str); ok && !s.sym {
					return s.s, true
				}
			}
		}
		return nil, false
	}
	if named {
		return nil, false
	}
	switch x := i.v.(type) {
	case Str:
		if !x.sym {
			return x.s, true
		}
	case *Term:
		if !x.IsConst() {
			return nil, false
		}
		b, ok := i.t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.IsTrue(), true
		case types.Int:
			return int(x.k), true
		case types.Int8:
			return int8(x.k), true
		case types.Int16:
			return int16(x.k), true
		case types.Int32:
			return int32(x.k), true
		case types.Int64:
			return int64(x.k), true
		case types.Uint:
			return uint(x.k), true
		case types.Uint8:
			return uint8(x.k), true
		case types.Uint16:
			return uint16(x.k), true
		case types.Uint32:
			return uint32(x.k), true
		case types.Uint64:
			return x.k, true
		case types.Float32:
			return math.Float32frombits(uint32(x.k)), true
		case types.Float64:
			return math.Float64frombits(x.k), true
		}
	}
	return nil, false
}

func (e *Engine) sprintf(st *State, f Str, args []Iface) Value {
	if f.sym {
		return Str{s: "<fmt>"}
	}
	var vals []interface{}
	ok := true
	for _, a := range args {
		v, o := e.goVal(st, a)
		if !o {
			ok = false
		}
		vals = append(vals, v)
	}
	if ok {
		return Str{s: fmt.Sprintf(f.s, vals...)}
	}
	// splice symbolic strings for plain %s / %v; everything else becomes a placeholder
	var out []*Term
	ai := 0
	lit := func(s string) { out = append(out, Str{s: s}.bytes(e.c)...) }
	for i := 0; i < len(f.s); i++ {
		if f.s[i] != '%' {
			out = append(out, e.c.BV(uint64(f.s[i]), 8))
			continue
		}
		j := i + 1
		for j < len(f.s) && strings.IndexByte("+-# 0123456789.", f.s[j]) >= 0 {
			j++
		}
		if j >= len(f.s) {
			break
		}
		if f.s[j] == '%' {
			lit("%")
			i = j
			continue
		}
		if ai < len(args) {
			if v, o := e.goVal(st, args[ai]); o {
				lit(fmt.Sprintf(f.s[i:j+1], v))
			} else if s, o := args[ai].v.(Str); o && j == i+1 && (f.s[j] == 's' || f.s[j] == 'v') {
				out = append(out, s.bytes(e.c)...)
			} else {
				e.note("text of a symbolic or structured format argument abstracted to a placeholder")
				lit("<val>")
			}
			ai++
		}
		i = j
	}
	return mkStr(out)
}

func (e *Engine) sprint(st *State, args []Iface) Value {
	var vals []interface{}
	for _, a := range args {
		v, o := e.goVal(st, a)
		if !o {
			if s, k := a.v.(Str); k && len(args) == 1 {
				return s
			}
			e.note("text of a symbolic or structured format argument abstracted to a placeholder")
			return Str{s: "<val>"}
		}
		vals = append(vals, v)
	}
	return Str{s: fmt.Sprint(vals...)}
}

func (e *Engine) mkError(st *State, s Value) Value {
	p := e.prog.ImportedPackage("errors")
	t := p.Pkg.Scope().Lookup("errorString").Type()
	id := e.alloc(st, &StructV{[]Value{s}}, t)
	return Iface{t: types.NewPointer(t), v: Ptr{obj: id}}
}

// ---- sync ----

// leaf returns the pointer and full path to the n-th integer leaf (negative: from the end) of the struct the receiver points to.
func (ic *ICall) leaf(n int) (Ptr, []PE) {
	e := ic.e
	p, ok := e.resolve(ic.st, ic.args[0]).(Ptr)
	if !ok || p.obj == 0 {
		panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
	}
	v := e.loadPath(ic.st, e.obj(ic.st, p.obj).v, p.path)
	var leaves [][]PE
	var walk func(v Value, pre []PE)
	walk = func(v Value, pre []PE) {
		switch x := v.(type) {
		case *StructV:
			for i := range x.f {
				walk(x.f[i], append(pre[:len(pre):len(pre)], PE{i: i}))
			}
		case *Term:
			leaves = append(leaves, pre)
		}
	}
	walk(v, nil)
	if n < 0 {
		n += len(leaves)
	}
	return p, append(p.path[:len(p.path):len(p.path)], leaves[n]...)
}

func (ic *ICall) rd(p Ptr, path []PE) *Term {
	return ic.e.loadPath(ic.st, ic.e.obj(ic.st, p.obj).v, path).(*Term)
}
func (ic *ICall) wr(p Ptr, path []PE, t *Term) {
	nv := ic.e.storePath(ic.st, ic.e.obj(ic.st, p.obj).v, path, t)
	ic.e.objW(ic.st, p.obj).v = nv
}

func (ic *ICall) lock(kind int, read bool) Value {
	e := ic.e
	p, wp := ic.leaf(0)
	var rp []PE
	if kind == 1 {
		_, rp = ic.leaf(-1)
	}
	e.schedPoint(ic.st)
	w := ic.rd(p, wp)
	busy := e.c.Not(e.c.Eq(w, e.c.BV(0, w.w)))
	if kind == 1 && !read {
		r := ic.rd(p, rp)
		busy = e.c.Or(busy, e.c.Not(e.c.Eq(r, e.c.BV(0, r.w))))
	}
	key := ""
	if kind == 1 {
		key = fmt.Sprint(p.obj, wp)
		if read && writerWaits(ic.st, key) {
			busy = e.c.True
		}
	}
	if e.decideM(ic.st, busy, false) {
		if kind == 1 && !read && w.op == OpConst && w.k == 0 {
			// a writer waiting for readers keeps further readers out
			ic.st.threadN(ic.st.cur).wantW = key
		}
		// park until free
		e.block(ic.st, "lock", func(s *State) bool {
			t := e.loadPath(s, e.obj(s, p.obj).v, wp).(*Term)
			if t.op != OpConst || t.k != 0 {
				return false
			}
			if kind == 1 && !read {
				r := e.loadPath(s, e.obj(s, p.obj).v, rp).(*Term)
				return r.op == OpConst && r.k == 0
			}
			return !(kind == 1 && read && writerWaits(s, key))
		})
	}
	if kind == 1 && !read && ic.st.threads[ic.st.cur].wantW != "" {
		ic.st.threadN(ic.st.cur).wantW = ""
	}
	if read {
		r := ic.rd(p, rp)
		ic.wr(p, rp, e.c.Bin(OpAdd, r, e.c.BV(1, r.w)))
	} else {
		ic.wr(p, wp, e.c.BV(1, w.w))
	}
	ic.st.schedOK = false
	return nil
}

// writerWaits: some thread waits for the readers of this lock to leave.
func writerWaits(st *State, key string) bool {
	for _, t := range st.threads {
		if !t.done && t.wantW == key {
			return true
		}
	}
	return false
}

func (ic *ICall) tryLock() Value {
	e := ic.e
	p, wp := ic.leaf(0)
	e.schedPoint(ic.st)
	w := ic.rd(p, wp)
	if e.decideM(ic.st, e.c.Eq(w, e.c.BV(0, w.w)), false) {
		ic.wr(p, wp, e.c.BV(1, w.w))
		ic.st.schedOK = false
		return e.c.True
	}
	ic.st.schedOK = false
	return e.c.False
}

func (ic *ICall) unlock(read bool) Value {
	e := ic.e
	p, path := ic.leaf(0)
	if read {
		_, path = ic.leaf(-1)
	}
	e.schedPoint(ic.st)
	w := ic.rd(p, path)
	if e.decideM(ic.st, e.c.Eq(w, e.c.BV(0, w.w)), false) {
		panic(goPanic{msg: "fatal error: sync: unlock of unlocked mutex"})
	}
	if read {
		ic.wr(p, path, e.c.Bin(OpSub, w, e.c.BV(1, w.w)))
	} else {
		ic.wr(p, path, e.c.BV(0, w.w))
	}
	ic.st.schedOK = false
	return nil
}

func (ic *ICall) wgAdd(d *Term) Value {
	e := ic.e
	p, path := ic.leaf(0)
	e.schedPoint(ic.st)
	t := ic.rd(p, path)
	n := e.c.Bin(OpAdd, t, d)
	if e.decideM(ic.st, e.c.Slt(n, e.c.BV(0, 64)), false) {
		panic(goPanic{msg: "sync: negative WaitGroup counter"})
	}
	ic.wr(p, path, n)
	ic.st.schedOK = false
	return nil
}

func (ic *ICall) smap() (Ptr, MapV) {
	e := ic.e
	p, ok := e.resolve(ic.st, ic.args[0]).(Ptr)
	if !ok || p.obj == 0 {
		panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
	}
	v := e.resolve(ic.st, e.load(ic.st, p))
	if m, ok := v.(MapV); ok {
		return p, m
	}
	return p, MapV{}
}

var anyType = types.NewInterfaceType(nil, nil)

func natMapLoad(ic *ICall) Value {
	_, m := ic.smap()
	ic.e.schedPoint(ic.st)
	v, ok := ic.e.mapGet(ic.st, m, ic.args[1], anyType)
	ic.st.schedOK = false
	return Tuple{v, ok}
}

func (ic *ICall) smapW() MapV {
	p, m := ic.smap()
	if m.obj == 0 {
		id := ic.e.alloc(ic.st, nil, nil)
		ic.e.objW(ic.st, id).m = &MapData{idx: map[string]int{}}
		m = MapV{obj: id}
		ic.e.store(ic.st, p, m)
	}
	return m
}

func natMapStore(ic *ICall) Value {
	ic.smap()
	ic.e.schedPoint(ic.st)
	m := ic.smapW()
	ic.e.mapSet(ic.st, m, ic.args[1], ic.args[2])
	ic.st.schedOK = false
	return nil
}

func natMapLoadOrStore(ic *ICall) Value {
	_, m := ic.smap()
	e := ic.e
	e.schedPoint(ic.st)
	v, ok := e.mapGet(ic.st, m, ic.args[1], anyType)
	if e.decide(ic.st, ok) {
		ic.st.schedOK = false
		return Tuple{v, e.c.True}
	}
	m = ic.smapW()
	e.mapSet(ic.st, m, ic.args[1], ic.args[2])
	ic.st.schedOK = false
	return Tuple{ic.args[2], e.c.False}
}

func natMapDelete(ic *ICall) Value {
	_, m := ic.smap()
	ic.e.schedPoint(ic.st)
	ic.e.mapDelete(ic.st, m, ic.args[1])
	ic.st.schedOK = false
	return nil
}

// time.Now: a non-decreasing clock is not needed by the harnesses; an arbitrary instant in 1970..2200 (wall clock, no monotonic part).
func natNow(ic *ICall) Value {
	e := ic.e
	p := e.prog.ImportedPackage("time")
	tt := p.Pkg.Scope().Lookup("Time").Type()
	z := e.zero(tt).(*StructV)
	var sec *Term
	if e.fixedClock {
		sec = e.c.BV(1_700_000_000, 64)
	} else {
		nm := "clock"
		k := ic.st.nd[nm]
		sec = e.c.Var(fmt.Sprintf("nd:%s#%d", nm, k), 64)
		e.assume(ic.st, e.c.Ult(sec, e.c.BV(7_258_118_400, 64)))
		ic.st.nd[nm] = k + 1
	}
	f := append([]Value(nil), z.f...)
	f[1] = e.c.Bin(OpAdd, sec, e.c.BV(62135596800, 64))
	// loc stays nil (UTC)
	return &StructV{f}
}

func atomicNative(name string) native {
	w := 0
	switch {
	case strings.HasSuffix(name, "Int32") || strings.HasSuffix(name, "Uint32"):
		w = 32
	case strings.HasSuffix(name, "Int64") || strings.HasSuffix(name, "Uint64") || strings.HasSuffix(name, "Uintptr"):
		w = 64
	case strings.HasSuffix(name, "Pointer"):
		w = -1
	default:
		return nil
	}
	_ = w
	fin := func(ic *ICall) { ic.st.schedOK = false }
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(ic *ICall) Value {
			ic.e.schedPoint(ic.st)
			v := ic.e.load(ic.st, ic.args[0])
			fin(ic)
			return v
		}
	case strings.HasPrefix(name, "Store"):
		return func(ic *ICall) Value {
			ic.e.schedPoint(ic.st)
			ic.e.store(ic.st, ic.args[0], ic.args[1])
			fin(ic)
			return nil
		}
	case strings.HasPrefix(name, "Add"):
		return func(ic *ICall) Value {
			ic.e.schedPoint(ic.st)
			v := ic.e.c.Bin(OpAdd, ic.e.term(ic.st, ic.e.load(ic.st, ic.args[0])), ic.term(1))
			ic.e.store(ic.st, ic.args[0], v)
			fin(ic)
			return v
		}
	case strings.HasPrefix(name, "Swap"):
		return func(ic *ICall) Value {
			ic.e.schedPoint(ic.st)
			v := ic.e.load(ic.st, ic.args[0])
			ic.e.store(ic.st, ic.args[0], ic.args[1])
			fin(ic)
			return v
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(ic *ICall) Value {
			ic.e.schedPoint(ic.st)
			v := ic.e.load(ic.st, ic.args[0])
			if ic.e.decide(ic.st, ic.e.valEq(v, ic.args[1])) {
				ic.e.store(ic.st, ic.args[0], ic.args[2])
				fin(ic)
				return ic.e.c.True
			}
			fin(ic)
			return ic.e.c.False
		}
	}
	return nil
}
