package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) constVal(k *ssa.Const) Value {
	if v, ok := e.consts[k]; ok {
		return v
	}
	v := e.constVal1(k)
	e.consts[k] = v
	return v
}

func (e *Engine) constVal1(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return e.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"const of type " + t.String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		return Str{s: constant.StringVal(k.Value)}
	case b.Info()&types.IsFloat != 0:
		w := width(t)
		if w == 32 {
			f, _ := constant.Float32Val(constant.ToFloat(k.Value))
			return e.c.BV(uint64(math.Float32bits(f)), 32)
		}
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		return e.c.BV(math.Float64bits(f), 64)
	case b.Info()&types.IsInteger != 0:
		kv := constant.ToInt(k.Value)
		w := width(t)
		if i, ok := constant.Int64Val(kv); ok {
			return e.c.BV(uint64(i), w)
		}
		u, _ := constant.Uint64Val(kv)
		return e.c.BV(u, w)
	}
	panic(unsupported{"const of type " + t.String()})
}

func (e *Engine) globalPtr(st *State, g *ssa.Global) Ptr {
	if id, ok := e.globals[g]; ok && e.pkgInit[g.Pkg] == 2 {
		return Ptr{obj: id}
	}
	e.ensureInit(g.Pkg)
	return Ptr{obj: e.globalObj(g)}
}

func (e *Engine) globalObj(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	id := e.nextObj
	e.nextObj++
	e.base[id] = &Obj{id: id, v: e.zero(et), typ: et}
	e.globals[g] = id
	return id
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "net": true, "internal/godebug": true, "reflect": true, "internal/poll": true,
	"internal/cpu": true, "testing": true, "log": true, "crypto/internal/fips140": true, "flag": true}

// ensureInit runs a package's variable initialisers concretely, once, into the shared base heap.
func (e *Engine) ensureInit(p *ssa.Package) {
	if p == nil || e.pkgInit[p] != 0 {
		return
	}
	e.pkgInit[p] = 1
	if skipInit[p.Pkg.Path()] || strings.HasPrefix(p.Pkg.Path(), "crypto/internal") || strings.HasPrefix(p.Pkg.Path(), "internal/runtime") {
		e.pkgInit[p] = 2
		return
	}
	p.Build()
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		e.pkgInit[p] = 2
		return
	}
	saved := e.initMode
	e.initMode = true
	func() {
		defer func() { e.initMode = saved }()
		st := e.NewState()
		e.pushThread(st, &FuncV{fn: init}, nil)
		for len(st.threads[0].frames) > 0 && !st.threads[0].done {
			out, err := e.step(st)
			if err != "" {
				e.note("package initialiser %s: %s", p.Pkg.Path(), err)
				break
			}
			if len(out) != 1 {
				if len(out) == 0 {
					break
				}
				e.note("package initialiser %s forked", p.Pkg.Path())
				break
			}
			st = out[0]
		}
	}()
	e.pkgInit[p] = 2
}

func (e *Engine) pushThread(st *State, fn *FuncV, args []Value) *Thread {
	t := &Thread{owner: st.id, id: len(st.threads)}
	st.threads = append(st.threads, t)
	saved := st.cur
	st.cur = len(st.threads) - 1
	e.pushCall(st, fn, args, -1, retNormal)
	st.cur = saved
	return t
}

func (e *Engine) pushCall(st *State, fv *FuncV, args []Value, retReg int, rk retKind) {
	fn := fv.fn
	fi := e.info(fn)
	if fn.Blocks == nil {
		panic(unsupported{"function without body: " + fn.String()})
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/sttp/goapi") && !e.initMode {
		if e.pkgInit[fn.Pkg] == 0 {
			e.ensureInit(fn.Pkg)
		}
		p := e.fset.Position(fn.Pos())
		if !strings.Contains(p.Filename, "zz_verif") {
			e.Funcs[fn.String()] = true
		}
	}
	f := &Frame{owner: st.id, fi: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], ret: rk, retReg: retReg}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arg count mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i := range fn.Params {
		f.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		f.regs[len(fn.Params)+i] = fv.binds[i]
	}
	t := st.thread()
	if len(t.frames) > 400 {
		panic(unsupported{"call depth limit"})
	}
	t.frames = append(t.frames, f)
}

func (e *Engine) get(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalPtr(st, x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{builtin: x}
	}
	i, ok := f.fi.index[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), f.fi.fn))
	}
	r := f.regs[i]
	if p, ok := r.(Poison); ok && !e.initMode {
		panic(unsupported{"use of unsupported value: " + p.why})
	}
	return r
}

func (e *Engine) set(f *Frame, v ssa.Value, val Value) { f.regs[f.fi.index[v]] = val }

func (e *Engine) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	// evaluate phis in parallel
	n := 0
	var vals []Value
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == from {
				vals = append(vals, e.get(st, f, phi.Edges[i]))
				break
			}
		}
		n++
	}
	for i := 0; i < n; i++ {
		e.set(f, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.prev = from
	f.block = to
	f.pc = n
}

// step executes one instruction of the current thread.
func (e *Engine) step(st *State) (out []*State, errs string) {
	out, errs, _ = e.step2(st)
	return
}

func (e *Engine) step2(st *State) (out []*State, errs string, mergeable bool) {
	e.Steps++
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkRetry:
				out, errs, mergeable = x.states, "", x.merge
			case goPanic:
				if e.initMode {
					out, errs = nil, "panic: "+x.msg
					return
				}
				o, er := e.raise(st, x)
				out, errs = o, er
			case pathEnd:
				e.PathEnds[x.why]++
				out, errs = nil, ""
			case unsupported:
				if e.initMode {
					f := st.top()
					if f.pc < len(f.block.Instrs) {
						if v, ok := f.block.Instrs[f.pc].(ssa.Value); ok {
							e.set(f, v, Poison{x.why})
							f.pc++
							out, errs = []*State{st}, ""
							return
						}
						switch f.block.Instrs[f.pc].(type) {
						case *ssa.Store, *ssa.MapUpdate:
							f.pc++
							out, errs = []*State{st}, ""
							return
						}
					}
					out, errs = nil, "unsupported: "+x.why
					return
				}
				e.note("unsupported: %s at %s", x.why, e.curPos(st))
				if e.trace {
					fmt.Fprintln(os.Stderr, "UNSUPPORTED", x.why, e.stackOf(st))
				}
				e.PathEnds["unsupported"]++
				out, errs = nil, ""
			default:
				fmt.Fprintln(os.Stderr, "internal error at", e.curPos(st), e.stackOf(st))
				panic(r)
			}
		}
	}()
	return e.exec(st), "", false
}

// raise starts Go panic unwinding in the current thread.
func (e *Engine) raise(st *State, gp goPanic) (out []*State, errs string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkRetry:
				// can only come from running deferred natives; treat as unsupported
				_ = x
				e.note("fork during panic unwinding")
				out = nil
			case pathEnd:
				e.PathEnds[x.why]++
				out = nil
			case unsupported:
				e.note("unsupported during unwinding: %s", x.why)
				out = nil
			default:
				panic(r)
			}
		}
	}()
	f := st.top()
	if gp.val == nil {
		gp.val = Iface{t: e.runtimeErrorType(), v: Str{s: gp.msg}}
	}
	f.panicking = &PanicInfo{val: gp.val, msg: gp.msg, pos: e.curPos(st), stack: e.stackOf(st)}
	return e.unwind1(st)
}

var rtErrType types.Type

func (e *Engine) runtimeErrorType() types.Type {
	// runtime.Error values are modelled by a string-kinded stand-in implementing error
	if rtErrType == nil {
		for _, p := range e.prog.AllPackages() {
			if p.Pkg.Path() == "runtime" {
				if o := p.Pkg.Scope().Lookup("plainError"); o != nil {
					rtErrType = o.Type()
				}
			}
		}
		if rtErrType == nil {
			rtErrType = types.Typ[types.String]
		}
	}
	return rtErrType
}

// unwind1 continues unwinding of the top frame, which is panicking.
func (e *Engine) unwind1(st *State) ([]*State, string) {
	for {
		f := st.top()
		p := f.panicking
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
			if e.callDeferred(st, d) {
				return []*State{st}, "" // frame pushed
			}
			continue
		}
		t := st.thread()
		if p.recovered {
			f.panicking = nil
			if f.fi.fn.Recover != nil {
				f.prev = f.block
				f.block = f.fi.fn.Recover
				f.pc = 0
				return []*State{st}, ""
			}
			res := f.fi.fn.Signature.Results()
			var rv Value
			if res.Len() == 1 {
				rv = e.zero(res.At(0).Type())
			} else if res.Len() > 1 {
				rv = e.zero(res)
			}
			return e.popFrame(st, rv), ""
		}
		if len(t.frames) == 1 {
			e.uncaught(st, p)
			return nil, ""
		}
		t.frames = t.frames[:len(t.frames)-1]
		g := st.top()
		g.panicking = p
		g.panicking.recovered = false
	}
}

func (e *Engine) uncaught(st *State, p *PanicInfo) {
	e.PathEnds["panic"]++
	msg := p.msg
	if msg == "" {
		msg = e.panicText(p.val)
	}
	e.violate(st, "panic", "panic: "+msg, p.pos, p.stack, nil)
}

func (e *Engine) panicText(v Value) string {
	switch x := v.(type) {
	case Iface:
		if s, ok := x.v.(Str); ok && !s.sym {
			return s.s
		}
		if x.t != nil {
			return "(" + x.t.String() + ")"
		}
	case Str:
		return x.s
	}
	return fmt.Sprintf("%T", v)
}

// callDeferred runs a deferred call; true if a frame was pushed.
func (e *Engine) callDeferred(st *State, d Deferred) bool {
	fv, ok := d.fn.(*FuncV)
	if !ok || fv == nil {
		panic(goPanic{msg: "invalid memory address (nil deferred func)"})
	}
	if fv.builtin != nil {
		e.builtin(st, fv.builtin, d.args, d.call, nil)
		return false
	}
	if nat := e.nativeFor(fv); nat != nil {
		nat(&ICall{e: e, st: st, fn: fv.fn, binds: fv.binds, args: d.args})
		return false
	}
	e.pushCall(st, fv, d.args, -1, retDefer)
	return true
}

// popFrame returns from the top frame with the given result.
func (e *Engine) popFrame(st *State, rv Value) []*State {
	t := st.thread()
	f := t.frames[len(t.frames)-1]
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		t.done = true
		if t.id != 0 && len(st.threads) > 1 {
			return e.reschedule(st)
		}
		return []*State{st}
	}
	g := st.top()
	switch f.ret {
	case retNormal:
		if f.retReg >= 0 {
			g.regs[f.retReg] = rv
		}
		g.pc++
	case retDefer:
		if g.panicking != nil {
			out, _ := e.unwind1(st)
			return out
		}
		// RunDefers re-executes
	}
	return []*State{st}
}

func (e *Engine) exec(st *State) []*State {
	f := st.top()
	if f.pc >= len(f.block.Instrs) {
		panic("fell off block in " + f.fi.fn.String())
	}
	in := f.block.Instrs[f.pc]
	if e.trace {
		fmt.Fprintf(os.Stderr, "%s [%d] %s\n", f.fi.fn.Name(), f.block.Index, in)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		id := e.alloc(st, e.zero(et), et)
		e.set(f, x, Ptr{obj: id})
		f.pc++
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return e.recv(st, f, x)
		}
		e.set(f, x, e.unop(st, f, x))
		f.pc++
	case *ssa.BinOp:
		e.set(f, x, e.binop(st, x.Op, x.X.Type(), e.get(st, f, x.X), e.get(st, f, x.Y), x.Y.Type()))
		f.pc++
	case *ssa.Call:
		return e.call(st, f, x)
	case *ssa.ChangeInterface:
		e.set(f, x, e.get(st, f, x.X))
		f.pc++
	case *ssa.ChangeType:
		e.set(f, x, e.get(st, f, x.X))
		f.pc++
	case *ssa.Convert:
		e.set(f, x, e.convert(st, e.get(st, f, x.X), x.X.Type(), x.Type()))
		f.pc++
	case *ssa.MultiConvert:
		e.set(f, x, e.convert(st, e.get(st, f, x.X), x.X.Type(), x.Type()))
		f.pc++
	case *ssa.MakeInterface:
		v := e.get(st, f, x.X)
		e.set(f, x, Iface{t: x.X.Type(), v: v})
		f.pc++
	case *ssa.MakeClosure:
		binds := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			binds[i] = e.get(st, f, b)
		}
		e.set(f, x, &FuncV{fn: x.Fn.(*ssa.Function), binds: binds})
		f.pc++
	case *ssa.MakeMap:
		id := e.alloc(st, nil, x.Type())
		e.objW(st, id).m = &MapData{idx: map[string]int{}}
		e.set(f, x, MapV{obj: id})
		f.pc++
	case *ssa.MakeChan:
		n := e.mustConst(st, e.term(st, e.get(st, f, x.Size)))
		id := e.alloc(st, nil, x.Type())
		e.objW(st, id).ch = &ChanData{cap: int(n)}
		e.set(f, x, ChanV{obj: id})
		f.pc++
	case *ssa.MakeSlice:
		lt := e.term(st, e.get(st, f, x.Len))
		ct := e.term(st, e.get(st, f, x.Cap))
		if lt.w < 64 {
			if isSigned(x.Len.Type()) {
				lt = e.c.SExt(lt, 64)
			} else {
				lt = e.c.ZExt(lt, 64)
			}
		}
		if ct.w < 64 {
			if isSigned(x.Cap.Type()) {
				ct = e.c.SExt(ct, 64)
			} else {
				ct = e.c.ZExt(ct, 64)
			}
		}
		lim := e.c.BV(1<<40, 64)
		if !e.decide(st, e.c.Ule(lt, lim)) {
			panic(goPanic{msg: "runtime error: makeslice: len out of range"})
		}
		if !e.decide(st, e.c.And(e.c.Ule(ct, lim), e.c.Ule(lt, ct))) {
			panic(goPanic{msg: "runtime error: makeslice: cap out of range"})
		}
		big := e.c.BV(1<<20, 64)
		if !e.decide(st, e.c.Ule(ct, big)) {
			e.note("allocation of more than 2^20 elements not explored at %s", e.curPos(st))
			panic(pathEnd{"huge-alloc"})
		}
		n := int(e.mustConst(st, lt))
		cp := int(e.mustConst(st, ct))
		elem := x.Type().Underlying().(*types.Slice).Elem()
		a := NewArrayV(cp, e.zero(elem))
		id := e.alloc(st, a, types.NewArray(elem, int64(cp)))
		e.set(f, x, Slice{obj: id, len: n, cap: cp})
		f.pc++
	case *ssa.Slice:
		e.set(f, x, e.sliceOp(st, f, x))
		f.pc++
	case *ssa.SliceToArrayPointer:
		s := e.resolve(st, e.get(st, f, x.X)).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(s.len) < n {
			panic(goPanic{msg: "runtime error: cannot convert slice to array pointer: length out of range"})
		}
		a := e.sliceArr(st, s)
		if s.off != 0 || a.n != int(n) {
			for _, r := range *x.Referrers() {
				if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
					panic(unsupported{"slice to array pointer with offset"})
				}
			}
			// only dereferenced: a copy is as good as the original
			vs := make([]Value, n)
			for i := range vs {
				vs[i] = a.Get(s.off + i)
			}
			t := x.Type().Underlying().(*types.Pointer).Elem()
			id := e.alloc(st, ArrayOf(e.zero(t.Underlying().(*types.Array).Elem()), vs), t)
			e.set(f, x, Ptr{obj: id})
			f.pc++
			break
		}
		e.set(f, x, Ptr{obj: s.obj, path: s.path})
		f.pc++
	case *ssa.Field:
		v := e.get(st, f, x.X)
		e.set(f, x, e.loadPath(st, v, []PE{{i: x.Field}}))
		f.pc++
	case *ssa.FieldAddr:
		e.set(f, x, e.fieldAddr(st, e.get(st, f, x.X), x.Field))
		f.pc++
	case *ssa.Index:
		e.set(f, x, e.index(st, f, x))
		f.pc++
	case *ssa.IndexAddr:
		e.set(f, x, e.indexAddr(st, f, x))
		f.pc++
	case *ssa.Lookup:
		e.set(f, x, e.lookup(st, f, x))
		f.pc++
	case *ssa.MapUpdate:
		m := e.resolve(st, e.get(st, f, x.Map)).(MapV)
		e.mapSet(st, m, e.get(st, f, x.Key), e.get(st, f, x.Value))
		f.pc++
	case *ssa.Range:
		v := e.resolve(st, e.get(st, f, x.X))
		id := e.alloc(st, nil, nil)
		switch y := v.(type) {
		case MapV:
			e.objW(st, id).it = &IterData{m: y.obj}
			if y.obj == 0 {
				e.objW(st, id).it = &IterData{m: -1}
			}
		case Str:
			e.objW(st, id).it = &IterData{str: y}
		default:
			panic(unsupported{fmt.Sprintf("range over %T", v)})
		}
		e.set(f, x, Ptr{obj: id})
		f.pc++
	case *ssa.Next:
		e.set(f, x, e.next(st, f, x))
		f.pc++
	case *ssa.Extract:
		t := e.get(st, f, x.Tuple)
		switch tv := t.(type) {
		case Tuple:
			e.set(f, x, tv[x.Index])
		case *Union:
			var outv Value
			for i, al := range tv.alts {
				ev := al.v.(Tuple)[x.Index]
				if i == 0 {
					outv = ev
				} else {
					outv = merge(e.c, al.g, ev, outv)
				}
			}
			e.set(f, x, outv)
		case Poison:
			e.set(f, x, tv)
		default:
			panic(unsupported{fmt.Sprintf("extract from %T", t)})
		}
		f.pc++
	case *ssa.TypeAssert:
		e.set(f, x, e.typeAssert(st, f, x))
		f.pc++
	case *ssa.Store:
		e.store(st, e.get(st, f, x.Addr), e.get(st, f, x.Val))
		f = st.top()
		f.pc++
	case *ssa.Jump:
		e.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := e.term(st, e.get(st, f, x.Cond))
		if !c.IsConst() && f.forks[f.block] > e.unwind {
			e.note("loop unwinding bound %d reached at %s", e.unwind, e.curPos(st))
			panic(pathEnd{"unwind"})
		}
		if e.decide(st, c) {
			e.jump(st, f, f.block.Succs[0])
		} else {
			e.jump(st, f, f.block.Succs[1])
		}
	case *ssa.Return:
		var rv Value
		if len(x.Results) == 1 {
			rv = e.get(st, f, x.Results[0])
		} else if len(x.Results) > 1 {
			tu := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				tu[i] = e.get(st, f, r)
			}
			rv = tu
		}
		return e.popFrame(st, rv)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			break
		}
		d := f.defers[len(f.defers)-1]
		fv, _ := e.resolve(st, d.fn).(*FuncV)
		d.fn = fv
		if fv != nil && fv.builtin == nil && e.nativeFor(fv) != nil {
			// may fork and retry: run native before removing the entry
			if r := e.runNative(st, fv, d.args, nil); r != nil {
				return r
			}
			f = st.top()
			f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
			break
		}
		f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
		e.callDeferred(st, d)
	case *ssa.Defer:
		fn, args := e.callTarget(st, f, &x.Call)
		f.defers = append(f.defers, Deferred{fn: fn, args: args, call: &x.Call})
		f.pc++
	case *ssa.Go:
		fn, args := e.callTarget(st, f, &x.Call)
		return e.spawn(st, f, fn, args)
	case *ssa.Panic:
		v := e.get(st, f, x.X)
		panic(goPanic{val: v, msg: e.panicText(v)})
	case *ssa.Send:
		return e.send(st, f, x)
	case *ssa.Select:
		return e.selectStmt(st, f, x)
	case *ssa.Phi:
		panic("phi executed")
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
	return []*State{st}
}

func (e *Engine) term(st *State, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Union:
		r := e.resolve(st, v)
		return e.term(st, r)
	case Poison:
		panic(unsupported{"poison: " + x.why})
	}
	panic(unsupported{fmt.Sprintf("scalar expected, have %T", v)})
}

func (e *Engine) fieldAddr(st *State, v Value, field int) Value {
	switch p := v.(type) {
	case Ptr:
		if p.obj == 0 {
			panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		return Ptr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], PE{i: field})}
	case *Union:
		for _, a := range p.alts {
			if q, ok := a.v.(Ptr); !ok || q.obj == 0 {
				return e.fieldAddr(st, e.resolve(st, v), field)
			}
		}
		alts := make([]Alt, len(p.alts))
		for i, a := range p.alts {
			alts[i] = Alt{a.g, e.fieldAddr(st, a.v, field)}
		}
		return &Union{alts}
	case Poison:
		panic(unsupported{p.why})
	}
	panic(unsupported{fmt.Sprintf("field address of %T", v)})
}

// idx64 widens an index to 64 bits.
func (e *Engine) idx64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return e.c.SExt(t, 64)
	}
	return e.c.ZExt(t, 64)
}

func (e *Engine) boundsCheck(st *State, idx *Term, n int) {
	if !e.decide(st, e.c.Ult(idx, e.c.BV(uint64(n), 64))) {
		panic(goPanic{msg: "runtime error: index out of range"})
	}
}

func (e *Engine) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) Value {
	base := e.resolve(st, e.get(st, f, x.X))
	idx := e.idx64(e.term(st, e.get(st, f, x.Index)), x.Index.Type())
	mkPE := func(off int) PE {
		if idx.op == OpConst {
			return PE{i: int(idx.k) + off}
		}
		if k, ok := st.consts[idx]; ok {
			return PE{i: int(k) + off}
		}
		return PE{s: e.c.Bin(OpAdd, idx, e.c.BV(uint64(off), 64))}
	}
	switch b := base.(type) {
	case Slice:
		e.boundsCheck(st, idx, b.len)
		return Ptr{obj: b.obj, path: append(b.path[:len(b.path):len(b.path)], mkPE(b.off))}
	case Ptr:
		if b.obj == 0 {
			panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		e.boundsCheck(st, idx, n)
		return Ptr{obj: b.obj, path: append(b.path[:len(b.path):len(b.path)], mkPE(0))}
	}
	panic(unsupported{fmt.Sprintf("index address of %T", base)})
}

func (e *Engine) index(st *State, f *Frame, x *ssa.Index) Value {
	base := e.resolve(st, e.get(st, f, x.X))
	idx := e.idx64(e.term(st, e.get(st, f, x.Index)), x.Index.Type())
	switch b := base.(type) {
	case *ArrayV:
		e.boundsCheck(st, idx, b.n)
		return e.selectElem(st, b, idx)
	case Str:
		return e.strIndex(st, b, idx)
	}
	panic(unsupported{fmt.Sprintf("index of %T", base)})
}

func (e *Engine) strIndex(st *State, s Str, idx *Term) Value {
	e.boundsCheck(st, idx, s.Len())
	if idx.op == OpConst {
		return s.at(e.c, int(idx.k))
	}
	bs := s.bytes(e.c)
	vs := make([]Value, len(bs))
	for i, b := range bs {
		vs[i] = b
	}
	return e.selectElem(st, ArrayOf(e.c.BV(0, 8), vs), idx)
}

func (e *Engine) lookup(st *State, f *Frame, x *ssa.Lookup) Value {
	base := e.resolve(st, e.get(st, f, x.X))
	switch b := base.(type) {
	case Str:
		return e.strIndex(st, b, e.idx64(e.term(st, e.get(st, f, x.Index)), x.Index.Type()))
	case MapV:
		mt := x.X.Type().Underlying().(*types.Map)
		v, ok := e.mapGet(st, b, e.get(st, f, x.Index), mt.Elem())
		if x.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	panic(unsupported{fmt.Sprintf("lookup in %T", base)})
}

func (e *Engine) checkHashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		panic(goPanic{msg: "runtime error: hash of unhashable type " + i.t.String()})
	}
}

func (e *Engine) mapGet(st *State, m MapV, key Value, elem types.Type) (Value, *Term) {
	if m.obj == 0 {
		return e.zero(elem), e.c.False
	}
	e.checkHashable(key)
	md := e.obj(st, m.obj).m
	ks, conc := keyString(key)
	if conc && md.nsym == 0 {
		if i, ok := md.idx[ks]; ok {
			return md.entries[i].val, e.c.True
		}
		return e.zero(elem), e.c.False
	}
	var val Value = e.zero(elem)
	found := e.c.False
	for _, en := range md.entries {
		if en.present.IsFalse() {
			continue
		}
		eq := e.c.And(en.present, e.valEq(key, en.key))
		if eq.IsFalse() {
			continue
		}
		if v, ok := st.knownVal(e.c, eq); ok && !v {
			continue
		}
		val = merge(e.c, eq, en.val, val)
		found = e.c.Or(found, eq)
	}
	return val, found
}

func (e *Engine) mapSet(st *State, m MapV, key, val Value) {
	if m.obj == 0 {
		panic(goPanic{msg: "assignment to entry in nil map"})
	}
	e.checkHashable(key)
	ks, conc := keyString(key)
	md := e.obj(st, m.obj).m
	if conc && md.nsym == 0 {
		md = e.objW(st, m.obj).m
		if i, ok := md.idx[ks]; ok {
			md.entries[i].val = val
			return
		}
		md.idx[ks] = len(md.entries)
		md.entries = append(md.entries, MapEntry{key, val, e.c.True})
		return
	}
	none := e.c.True
	md = e.objW(st, m.obj).m
	for i := range md.entries {
		en := &md.entries[i]
		if en.present.IsFalse() {
			continue
		}
		eq := e.c.And(en.present, e.valEq(key, en.key))
		if v, ok := st.knownVal(e.c, eq); ok {
			eq = e.c.Bool(v)
		}
		if eq.IsFalse() {
			continue
		}
		en.val = merge(e.c, eq, val, en.val)
		none = e.c.And(none, e.c.Not(eq))
	}
	if v, ok := st.knownVal(e.c, none); ok && !v {
		return
	}
	if none.IsFalse() {
		return
	}
	md.nsym++
	md.entries = append(md.entries, MapEntry{key, val, none})
}

func (e *Engine) mapDelete(st *State, m MapV, key Value) {
	if m.obj == 0 {
		return
	}
	e.checkHashable(key)
	ks, conc := keyString(key)
	md := e.obj(st, m.obj).m
	if conc && md.nsym == 0 {
		if i, ok := md.idx[ks]; ok {
			md = e.objW(st, m.obj).m
			md.entries[i].present = e.c.False
			delete(md.idx, ks)
		}
		return
	}
	md = e.objW(st, m.obj).m
	for i := range md.entries {
		en := &md.entries[i]
		if en.present.IsFalse() {
			continue
		}
		eq := e.valEq(key, en.key)
		if eq.IsFalse() {
			continue
		}
		if !eq.IsTrue() || !en.present.IsTrue() {
			md.nsym++
		}
		en.present = e.c.And(en.present, e.c.Not(eq))
		if en.present.IsFalse() {
			if k, ok := keyString(en.key); ok {
				delete(md.idx, k)
			}
		}
	}
}

func (e *Engine) mapLen(st *State, m MapV) *Term {
	if m.obj == 0 {
		return e.c.BV(0, 64)
	}
	md := e.obj(st, m.obj).m
	n := e.c.BV(0, 64)
	for _, en := range md.entries {
		n = e.c.Bin(OpAdd, n, e.c.Ite(en.present, e.c.BV(1, 64), e.c.BV(0, 64)))
	}
	return n
}

func (e *Engine) next(st *State, f *Frame, x *ssa.Next) Value {
	p := e.get(st, f, x.Iter).(Ptr)
	it := e.obj(st, p.obj).it
	if x.IsString {
		if it.pos >= it.str.Len() {
			return Tuple{e.c.False, e.c.BV(0, 64), e.c.BV(0, 32)}
		}
		r, n := e.decodeRune(st, it.str, it.pos)
		pos := it.pos
		e.objW(st, p.obj).it.pos += n
		return Tuple{e.c.True, e.c.BV(uint64(pos), 64), r}
	}
	tt := x.Type().(*types.Tuple)
	zk := func() Value {
		var k, v Value
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			k = e.zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			v = e.zero(tt.At(2).Type())
		}
		return Tuple{e.c.False, k, v}
	}
	if it.m < 0 {
		return zk()
	}
	md := e.obj(st, it.m).m
	for i := it.pos; i < len(md.entries); i++ {
		en := md.entries[i]
		if en.present.IsFalse() {
			continue
		}
		if !e.decideM(st, en.present, false) {
			continue
		}
		e.objW(st, p.obj).it.pos = i + 1
		return Tuple{e.c.True, en.key, en.val}
	}
	e.objW(st, p.obj).it.pos = len(md.entries)
	return zk()
}

// decodeRune decodes one UTF-8 rune at position i (forking on the encoded length).
func (e *Engine) decodeRune(st *State, s Str, i int) (*Term, int) {
	c := e.c
	b0 := s.at(c, i)
	if e.decide(st, c.Ult(b0, c.BV(0x80, 8))) {
		return c.ZExt(b0, 32), 1
	}
	bad := c.BV(0xFFFD, 32)
	n := s.Len() - i
	cont := func(b *Term) *Term { return c.Eq(c.Bin(OpBAnd, b, c.BV(0xC0, 8)), c.BV(0x80, 8)) }
	rng := func(b *Term, lo, hi uint64) *Term { return c.And(c.Ule(c.BV(lo, 8), b), c.Ule(b, c.BV(hi, 8))) }
	low := func(b *Term, k uint64) *Term { return c.ZExt(c.Bin(OpBAnd, b, c.BV(k, 8)), 32) }
	shl := func(t *Term, k uint64) *Term { return c.Bin(OpShl, t, c.BV(k, 32)) }
	or := func(a, b *Term) *Term { return c.Bin(OpBOr, a, b) }
	if n >= 2 {
		b1 := s.at(c, i+1)
		if e.decide(st, c.And(rng(b0, 0xC2, 0xDF), cont(b1))) {
			return or(shl(low(b0, 0x1F), 6), low(b1, 0x3F)), 2
		}
		if n >= 3 {
			b2 := s.at(c, i+2)
			ok1 := c.Ite(c.Eq(b0, c.BV(0xE0, 8)), rng(b1, 0xA0, 0xBF), c.Ite(c.Eq(b0, c.BV(0xED, 8)), rng(b1, 0x80, 0x9F), cont(b1)))
			if e.decide(st, c.And(rng(b0, 0xE0, 0xEF), c.And(ok1, cont(b2)))) {
				return or(shl(low(b0, 0x0F), 12), or(shl(low(b1, 0x3F), 6), low(b2, 0x3F))), 3
			}
			if n >= 4 {
				b3 := s.at(c, i+3)
				ok1 := c.Ite(c.Eq(b0, c.BV(0xF0, 8)), rng(b1, 0x90, 0xBF), c.Ite(c.Eq(b0, c.BV(0xF4, 8)), rng(b1, 0x80, 0x8F), cont(b1)))
				if e.decide(st, c.And(rng(b0, 0xF0, 0xF4), c.And(ok1, c.And(cont(b2), cont(b3))))) {
					return or(shl(low(b0, 0x07), 18), or(shl(low(b1, 0x3F), 12), or(shl(low(b2, 0x3F), 6), low(b3, 0x3F)))), 4
				}
			}
		}
	}
	return bad, 1
}

// encodeRune returns the UTF-8 bytes of r (forking on the length).
func (e *Engine) encodeRune(st *State, r *Term) []*Term {
	c := e.c
	ex := func(hi, lo int, pre uint64, w int) *Term {
		return c.Bin(OpBOr, c.ZExt(c.Extract(r, hi, lo), 8), c.BV(pre, 8))
	}
	if e.decide(st, c.Ult(r, c.BV(0x80, 32))) {
		return []*Term{c.Extract(r, 7, 0)}
	}
	if e.decide(st, c.Ult(r, c.BV(0x800, 32))) {
		return []*Term{ex(10, 6, 0xC0, 5), ex(5, 0, 0x80, 6)}
	}
	sur := c.And(c.Ule(c.BV(0xD800, 32), r), c.Ule(r, c.BV(0xDFFF, 32)))
	if e.decide(st, c.Or(sur, c.Ult(c.BV(0x10FFFF, 32), r))) {
		return []*Term{c.BV(0xEF, 8), c.BV(0xBF, 8), c.BV(0xBD, 8)}
	}
	if e.decide(st, c.Ult(r, c.BV(0x10000, 32))) {
		return []*Term{ex(15, 12, 0xE0, 4), ex(11, 6, 0x80, 6), ex(5, 0, 0x80, 6)}
	}
	return []*Term{ex(20, 18, 0xF0, 3), ex(17, 12, 0x80, 6), ex(11, 6, 0x80, 6), ex(5, 0, 0x80, 6)}
}

func (e *Engine) sliceOp(st *State, f *Frame, x *ssa.Slice) Value {
	base := e.resolve(st, e.get(st, f, x.X))
	geti := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		t := e.idx64(e.term(st, e.get(st, f, v)), v.Type())
		if t.op == OpConst {
			return int(t.k)
		}
		return int(e.mustConst(st, t))
	}
	pre := func(v ssa.Value, lim int) {
		// check the upper limit symbolically before concretising
		if v == nil {
			return
		}
		t := e.idx64(e.term(st, e.get(st, f, v)), v.Type())
		if !e.decide(st, e.c.Ule(t, e.c.BV(uint64(lim), 64))) {
			panic(goPanic{msg: "runtime error: slice bounds out of range"})
		}
	}
	oob := func() { panic(goPanic{msg: "runtime error: slice bounds out of range"}) }
	switch b := base.(type) {
	case Str:
		pre(x.High, b.Len())
		pre(x.Low, b.Len())
		hi := geti(x.High, b.Len())
		lo := geti(x.Low, 0)
		if lo < 0 || hi < lo || hi > b.Len() {
			oob()
		}
		return b.slice(lo, hi)
	case Slice:
		pre(x.Max, b.cap)
		pre(x.High, b.cap)
		pre(x.Low, b.cap)
		mx := geti(x.Max, b.cap)
		hi := geti(x.High, b.len)
		lo := geti(x.Low, 0)
		if lo < 0 || hi < lo || mx < hi || mx > b.cap {
			oob()
		}
		return Slice{obj: b.obj, path: b.path, off: b.off + lo, len: hi - lo, cap: mx - lo}
	case Ptr:
		if b.obj == 0 {
			panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		pre(x.Max, n)
		pre(x.High, n)
		pre(x.Low, n)
		mx := geti(x.Max, n)
		hi := geti(x.High, n)
		lo := geti(x.Low, 0)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			oob()
		}
		return Slice{obj: b.obj, path: b.path, off: lo, len: hi - lo, cap: mx - lo}
	}
	panic(unsupported{fmt.Sprintf("slice of %T", base)})
}

func (e *Engine) unop(st *State, f *Frame, x *ssa.UnOp) Value {
	v := e.get(st, f, x.X)
	switch x.Op {
	case token.MUL:
		return e.load(st, v)
	case token.NOT:
		return e.c.Not(e.term(st, v))
	case token.SUB:
		t := e.term(st, v)
		if isFloat(x.X.Type()) {
			return e.c.FNeg(t)
		}
		return e.c.Neg(t)
	case token.XOR:
		return e.c.BNot(e.term(st, v))
	}
	panic(unsupported{"unop " + x.Op.String()})
}

func (e *Engine) binop(st *State, op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	c := e.c
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if isFloat(t) {
			r = c.FCmp(OpFEq, e.term(st, a), e.term(st, b))
		} else {
			if _, ok := a.(Poison); ok {
				panic(unsupported{"poison compare"})
			}
			// interface vs concrete comparisons: ssa converts beforehand
			r = e.valEq(a, b)
		}
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	if isString(t) {
		a, b = e.resolve(st, a), e.resolve(st, b)
		x, y := a.(Str), b.(Str)
		switch op {
		case token.ADD:
			return concatStr(c, x, y)
		case token.LSS:
			return e.strLess(x, y)
		case token.GTR:
			return e.strLess(y, x)
		case token.LEQ:
			return c.Not(e.strLess(y, x))
		case token.GEQ:
			return c.Not(e.strLess(x, y))
		}
		panic(unsupported{"string op " + op.String()})
	}
	x, y := e.term(st, a), e.term(st, b)
	if isFloat(t) {
		switch op {
		case token.ADD:
			return c.FBin(OpFAdd, x, y)
		case token.SUB:
			return c.FBin(OpFSub, x, y)
		case token.MUL:
			return c.FBin(OpFMul, x, y)
		case token.QUO:
			return c.FBin(OpFDiv, x, y)
		case token.LSS:
			return c.FCmp(OpFLt, x, y)
		case token.LEQ:
			return c.FCmp(OpFLe, x, y)
		case token.GTR:
			return c.FCmp(OpFLt, y, x)
		case token.GEQ:
			return c.FCmp(OpFLe, y, x)
		}
		panic(unsupported{"float op " + op.String()})
	}
	sg := isSigned(t)
	switch op {
	case token.ADD:
		return c.Bin(OpAdd, x, y)
	case token.SUB:
		return c.Bin(OpSub, x, y)
	case token.MUL:
		return c.Bin(OpMul, x, y)
	case token.QUO, token.REM:
		if e.decide(st, c.Eq(y, c.BV(0, y.w))) {
			panic(goPanic{msg: "runtime error: integer divide by zero"})
		}
		switch {
		case op == token.QUO && sg:
			return c.Bin(OpSDiv, x, y)
		case op == token.QUO:
			return c.Bin(OpUDiv, x, y)
		case sg:
			return c.Bin(OpSRem, x, y)
		}
		return c.Bin(OpURem, x, y)
	case token.AND:
		return c.Bin(OpBAnd, x, y)
	case token.OR:
		return c.Bin(OpBOr, x, y)
	case token.XOR:
		return c.Bin(OpBXor, x, y)
	case token.AND_NOT:
		return c.Bin(OpBAnd, x, c.BNot(y))
	case token.SHL, token.SHR:
		if isSigned(bt) {
			if e.decide(st, c.Slt(y, c.BV(0, y.w))) {
				panic(goPanic{msg: "runtime error: negative shift amount"})
			}
		}
		sop := OpShl
		if op == token.SHR {
			sop = OpLShr
			if sg {
				sop = OpAShr
			}
		}
		if y.w > x.w {
			over := c.Ule(c.BV(uint64(x.w), y.w), y)
			yy := c.Extract(y, x.w-1, 0)
			var lim *Term
			if sop == OpAShr {
				lim = c.Bin(OpAShr, x, c.BV(uint64(x.w-1), x.w))
			} else {
				lim = c.BV(0, x.w)
			}
			return c.Ite(over, lim, c.Bin(sop, x, yy))
		}
		return c.Bin(sop, x, c.ZExt(y, x.w))
	case token.LSS:
		if sg {
			return c.Slt(x, y)
		}
		return c.Ult(x, y)
	case token.LEQ:
		if sg {
			return c.Sle(x, y)
		}
		return c.Ule(x, y)
	case token.GTR:
		if sg {
			return c.Slt(y, x)
		}
		return c.Ult(y, x)
	case token.GEQ:
		if sg {
			return c.Sle(y, x)
		}
		return c.Ule(y, x)
	}
	panic(unsupported{"binop " + op.String()})
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	c := e.c
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			fi, ti := fb.Info(), tb.Info()
			switch {
			case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
				return v
			case fi&types.IsString != 0 && ti&types.IsString != 0:
				return v
			case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
				if _, ok := v.(Ptr); ok {
					return v
				}
				t := e.term(st, v)
				w := width(to)
				if w <= t.w {
					return c.Extract(t, w-1, 0)
				}
				if isSigned(from) {
					return c.SExt(t, w)
				}
				return c.ZExt(t, w)
			case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
				return c.IToF(e.term(st, v), width(to), isSigned(from))
			case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
				return c.FToF(e.term(st, v), width(to))
			case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
				return e.floatToInt(e.term(st, v), width(to), isSigned(to))
			case fi&types.IsInteger != 0 && ti&types.IsString != 0:
				t := e.term(st, v)
				if t.w < 32 {
					if isSigned(from) {
						t = c.SExt(t, 32)
					} else {
						t = c.ZExt(t, 32)
					}
				} else if t.w > 32 {
					if e.decide(st, c.Ult(c.BV(0x10FFFF, 64), t)) {
						return Str{s: "�"}
					}
					t = c.Extract(t, 31, 0)
				}
				return mkStr(e.encodeRune(st, t))
			}
		}
		if ts, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			s := e.resolve(st, v).(Str)
			eb := ts.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				if s.Len() == 0 {
					return e.newSlice(st, ts.Elem(), nil, 0)
				}
				return e.bytesSlice(st, s.bytes(c))
			}
			// []rune
			var rs []Value
			for i := 0; i < s.Len(); {
				r, n := e.decodeRune(st, s, i)
				rs = append(rs, r)
				i += n
			}
			return e.newSlice(st, ts.Elem(), rs, len(rs))
		}
		if _, ok := tu.(*types.Pointer); ok && fb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if fs, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			s := e.resolve(st, v).(Slice)
			if s.len == 0 {
				return Str{}
			}
			eb := fs.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return mkStr(e.sliceBytes(st, s))
			}
			var out []*Term
			for _, r := range e.sliceElems(st, s) {
				out = append(out, e.encodeRune(st, r.(*Term))...)
			}
			return mkStr(out)
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v // to unsafe.Pointer
	}
	panic(unsupported{"convert " + from.String() + " to " + to.String()})
}

// floatToInt follows the amd64 code generation: out-of-range yields the indefinite integer.
func (e *Engine) floatToInt(t *Term, w int, signed bool) *Term {
	c := e.c
	if t.op == OpConst {
		f := f64(t.k, t.w)
		if signed {
			switch w {
			case 64:
				return c.BV(uint64(int64(f)), 64)
			case 32:
				return c.BV(uint64(int32(f)), 32)
			case 16:
				return c.BV(uint64(int16(f)), 16)
			default:
				return c.BV(uint64(int8(f)), 8)
			}
		}
		switch w {
		case 64:
			return c.BV(uint64(f), 64)
		case 32:
			return c.BV(uint64(uint32(f)), 32)
		case 16:
			return c.BV(uint64(uint16(f)), 16)
		default:
			return c.BV(uint64(uint8(f)), 8)
		}
	}
	cv := func(cw int) *Term {
		lim := c.BV(fbits(math.Ldexp(1, cw-1), t.w), t.w)
		low := c.BV(fbits(-math.Ldexp(1, cw-1), t.w), t.w)
		in := c.And(c.FCmp(OpFLt, t, lim), c.FCmp(OpFLe, low, t))
		return c.Ite(in, c.FToI(t, cw, true), c.BV(1<<uint(cw-1), cw))
	}
	if signed && w == 64 {
		return cv(64)
	}
	if !signed && w == 64 {
		lim := c.BV(fbits(math.Ldexp(1, 63), t.w), t.w)
		small := c.FCmp(OpFLt, t, lim)
		rest := c.FBin(OpFSub, t, lim)
		in2 := c.And(c.FCmp(OpFLt, rest, lim), c.FCmp(OpFLe, c.BV(0, t.w), rest))
		bigv := c.Ite(in2, c.Bin(OpBXor, c.FToI(rest, 64, true), c.BV(1<<63, 64)), c.BV(1<<63, 64))
		return c.Ite(small, cv(64), bigv)
	}
	if !signed && w == 32 {
		return c.Extract(cv(64), 31, 0)
	}
	return c.Extract(cv(32), w-1, 0)
}

func (e *Engine) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) Value {
	v := e.get(st, f, x.X)
	if u, ok := v.(*Union); ok && x.CommaOk {
		// evaluate per alternative
		var out Value
		for i, al := range u.alts {
			r := e.typeAssert1(st, al.v.(Iface), x)
			if i == 0 {
				out = r
			} else {
				out = merge(e.c, al.g, r, out)
			}
		}
		return out
	}
	return e.typeAssert1(st, e.resolve(st, v).(Iface), x)
}

func (e *Engine) typeAssert1(st *State, iv Iface, x *ssa.TypeAssert) Value {
	ok := false
	var res Value
	if iv.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(iv.t, it) || e.implementsPtr(iv.t, it)
			res = iv
		} else {
			ok = types.Identical(iv.t, x.AssertedType)
			res = iv.v
		}
	}
	if x.CommaOk {
		if !ok {
			return Tuple{e.zero(x.AssertedType), e.c.False}
		}
		return Tuple{res, e.c.True}
	}
	if !ok {
		have := "nil"
		if iv.t != nil {
			have = iv.t.String()
		}
		panic(goPanic{msg: "interface conversion: interface is " + have + ", not " + x.AssertedType.String()})
	}
	return res
}

func (e *Engine) implementsPtr(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

// callTarget evaluates the callee and arguments of a call.
func (e *Engine) callTarget(st *State, f *Frame, cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if cc.IsInvoke() {
		recv := e.resolve(st, e.get(st, f, cc.Value))
		iv, ok := recv.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", recv)})
		}
		if iv.t == nil {
			panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		fn := e.findMethod(iv.t, cc.Method)
		args = append(args, iv.v)
		for _, a := range cc.Args {
			args = append(args, e.get(st, f, a))
		}
		return &FuncV{fn: fn}, args
	}
	fv := e.resolve(st, e.get(st, f, cc.Value))
	for _, a := range cc.Args {
		args = append(args, e.get(st, f, a))
	}
	return fv, args
}

func (e *Engine) findMethod(t types.Type, m *types.Func) *ssa.Function {
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported{"method " + m.Name() + " of " + t.String()})
	}
	return fn
}

func (e *Engine) call(st *State, f *Frame, x *ssa.Call) []*State {
	fnv, args := e.callTarget(st, f, &x.Call)
	fv, ok := fnv.(*FuncV)
	if !ok {
		if p, isP := fnv.(Poison); isP {
			panic(unsupported{p.why})
		}
		panic(unsupported{fmt.Sprintf("call of %T", fnv)})
	}
	if fv == nil {
		panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference (nil func)"})
	}
	if fv.builtin != nil {
		r := e.builtin(st, fv.builtin, args, &x.Call, x)
		f = st.top()
		e.set(f, x, r)
		f.pc++
		return []*State{st}
	}
	if e.initMode && fv.fn != nil && fv.fn.Name() == "init" && fv.fn.Pkg != nil && fv.fn.Pkg != f.fi.fn.Pkg {
		f.pc++ // imported package initialisers run lazily
		return []*State{st}
	}
	if e.nativeFor(fv) != nil {
		depth := st.depth()
		cur := st.cur
		if r := e.runNative(st, fv, args, x); r != nil {
			return r
		}
		_ = depth
		_ = cur
		return []*State{st}
	}
	e.pushCall(st, fv, args, f.fi.index[x], retNormal)
	return []*State{st}
}

// runNative executes an intrinsic; nil means "done, continue in st" (result stored, pc advanced when x != nil).
func (e *Engine) runNative(st *State, fv *FuncV, args []Value, x *ssa.Call) []*State {
	nat := e.nativeFor(fv)
	ic := &ICall{e: e, st: st, fn: fv.fn, binds: fv.binds, args: args, site: x}
	r := nat(ic)
	if ic.replaced != nil {
		return ic.replaced
	}
	if x != nil {
		f := st.top()
		if ic.pushed {
			return []*State{st}
		}
		e.set(f, x, r)
		f.pc++
	}
	return nil
}

func (e *Engine) builtin(st *State, b *ssa.Builtin, args []Value, cc *ssa.CallCommon, x *ssa.Call) Value {
	c := e.c
	switch b.Name() {
	case "len":
		return e.lenOf(st, args[0], cc.Args[0].Type())
	case "cap":
		switch s := e.resolve(st, args[0]).(type) {
		case Slice:
			return c.BV(uint64(s.cap), 64)
		case *ArrayV:
			return c.BV(uint64(s.n), 64)
		case ChanV:
			if s.obj == 0 {
				return c.BV(0, 64)
			}
			return c.BV(uint64(e.obj(st, s.obj).ch.cap), 64)
		case Ptr:
			return c.BV(uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		}
	case "append":
		s := e.resolve(st, args[0]).(Slice)
		var add []Value
		switch y := e.resolve(st, args[1]).(type) {
		case Slice:
			add = e.sliceElems(st, y)
		case Str:
			for _, t := range y.bytes(c) {
				add = append(add, t)
			}
		default:
			panic(unsupported{"append arg"})
		}
		if len(add) == 0 {
			return s
		}
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if s.obj != 0 && s.len+len(add) <= s.cap {
			e.writeSlice(st, s, s.len, add)
			return Slice{obj: s.obj, path: s.path, off: s.off, len: s.len + len(add), cap: s.cap}
		}
		old := e.sliceElems(st, s)
		n := len(old) + len(add)
		capn := s.cap * 2
		if s.cap >= 256 {
			capn = s.cap + (s.cap+768)/4
		}
		if capn < n {
			capn = n
		}
		if sz := types.SizesFor("gc", "amd64").Sizeof(elem); sz == 1 && capn < 8 {
			capn = 8
		}
		return e.newSlice(st, elem, append(append([]Value(nil), old...), add...), capn)
	case "copy":
		d := e.resolve(st, args[0]).(Slice)
		var src []Value
		switch y := e.resolve(st, args[1]).(type) {
		case Slice:
			src = e.sliceElems(st, y)
		case Str:
			for _, t := range y.bytes(c) {
				src = append(src, t)
			}
		}
		n := len(src)
		if d.len < n {
			n = d.len
		}
		e.writeSlice(st, d, 0, src[:n])
		return c.BV(uint64(n), 64)
	case "delete":
		e.mapDelete(st, e.resolve(st, args[0]).(MapV), args[1])
		return nil
	case "clear":
		switch y := e.resolve(st, args[0]).(type) {
		case MapV:
			if y.obj != 0 {
				e.objW(st, y.obj).m = &MapData{idx: map[string]int{}}
			}
		case Slice:
			z := e.zero(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			vs := make([]Value, y.len)
			for i := range vs {
				vs[i] = z
			}
			e.writeSlice(st, y, 0, vs)
		}
		return nil
	case "close":
		ch := e.resolve(st, args[0]).(ChanV)
		if ch.obj == 0 {
			panic(goPanic{msg: "close of nil channel"})
		}
		o := e.objW(st, ch.obj)
		if o.ch.closed {
			panic(goPanic{msg: "close of closed channel"})
		}
		o.ch.closed = true
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(goPanic{val: args[0], msg: e.panicText(args[0])})
	case "recover":
		t := st.thread()
		f := t.frames[len(t.frames)-1]
		if f.ret == retDefer && len(t.frames) >= 2 {
			g := st.frameW(t, len(t.frames)-2)
			if g.panicking != nil && !g.panicking.recovered {
				g.panicking.recovered = true
				return g.panicking.val
			}
		}
		return Iface{}
	case "min", "max":
		t := cc.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			if isString(t) {
				x, y := e.resolve(st, r).(Str), e.resolve(st, a).(Str)
				if b.Name() == "max" {
					r = merge(c, e.strLess(x, y), y, x)
				} else {
					r = merge(c, e.strLess(y, x), y, x)
				}
				continue
			}
			x, y := e.term(st, r), e.term(st, a)
			var lt *Term
			if isFloat(t) {
				panic(unsupported{"float min/max"})
			}
			if isSigned(t) {
				lt = c.Slt(x, y)
			} else {
				lt = c.Ult(x, y)
			}
			if b.Name() == "min" {
				r = c.Ite(lt, x, y)
			} else {
				r = c.Ite(lt, y, x)
			}
		}
		return r
	case "SliceData":
		s := e.resolve(st, args[0]).(Slice)
		if s.obj == 0 {
			return Ptr{}
		}
		return Ptr{obj: s.obj, path: append(s.path[:len(s.path):len(s.path)], PE{i: s.off})}
	case "StringData":
		s := e.resolve(st, args[0]).(Str)
		sl := e.bytesSlice(st, s.bytes(c))
		return Ptr{obj: sl.obj, path: []PE{{i: 0}}}
	case "String":
		p := e.resolve(st, args[0]).(Ptr)
		n := int(e.mustConst(st, e.idx64(e.term(st, args[1]), cc.Args[1].Type())))
		if n == 0 {
			return Str{}
		}
		s := Slice{obj: p.obj, path: p.path[:len(p.path)-1], off: p.path[len(p.path)-1].i, len: n, cap: n}
		return mkStr(e.sliceBytes(st, s))
	case "Slice":
		p := e.resolve(st, args[0]).(Ptr)
		n := int(e.mustConst(st, e.idx64(e.term(st, args[1]), cc.Args[1].Type())))
		if p.obj == 0 {
			return Slice{}
		}
		return Slice{obj: p.obj, path: p.path[:len(p.path)-1], off: p.path[len(p.path)-1].i, len: n, cap: n}
	case "ssa:wrapnilchk":
		if e.decide(st, e.isNil(args[0])) {
			panic(goPanic{msg: "value method called using nil pointer"})
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	}
	panic(unsupported{"builtin " + b.Name()})
}

func (e *Engine) lenOf(st *State, v Value, t types.Type) Value {
	c := e.c
	switch x := v.(type) {
	case *Union:
		var out Value
		for i, al := range x.alts {
			lv := e.lenOf(st, al.v, t)
			if i == 0 {
				out = lv
			} else {
				out = merge(c, al.g, lv, out)
			}
		}
		return out
	case Str:
		return c.BV(uint64(x.Len()), 64)
	case Slice:
		return c.BV(uint64(x.len), 64)
	case *ArrayV:
		return c.BV(uint64(x.n), 64)
	case MapV:
		return e.mapLen(st, x)
	case ChanV:
		if x.obj == 0 {
			return c.BV(0, 64)
		}
		return c.BV(uint64(len(e.obj(st, x.obj).ch.buf)), 64)
	case Ptr:
		return c.BV(uint64(t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
	case Poison:
		panic(unsupported{x.why})
	}
	panic(unsupported{fmt.Sprintf("len of %T", v)})
}

// violate records a violation after confirming satisfiability with a model. cond is the negated property (nil: path itself).
func (e *Engine) violate(st *State, kind, label, pos, stack string, cond *Term) {
	key := kind + "|" + label + "|" + pos
	// a schedule may be hard to replay: keep some alternatives
	if n := e.vioSeen[key]; n >= 3 || n > 0 && len(st.switches) == 0 {
		return
	}
	pc := st.pc
	var m *Model
	r := Sat
	if cond == nil && st.witness != nil {
		m = st.witness
		// witness satisfies pc by construction; double-check cheaply
		for _, t := range pc {
			if v, ok := m.EvalBool(t); !ok || !v {
				m = nil
				break
			}
		}
	}
	if m == nil {
		r, m = e.solver.Check(pc, cond, true)
	}
	if r == Unsat {
		return
	}
	if r == Unknown || m == nil {
		e.note("solver inconclusive on %s %q", kind, label)
		return
	}
	e.vioSeen[key]++
	v := Violation{Label: label, Kind: kind, Pos: pos, Stack: stack, Inputs: map[string]uint64{}, Widths: map[string]int{}, Harness: e.harness}
	for _, t := range e.c.varl {
		if strings.HasPrefix(t.name, "nd:") {
			v.Inputs[t.name[3:]] = m.vals[t]
			v.Widths[t.name[3:]] = t.w
		}
	}
	v.Sched = append([]int(nil), st.sched...)
	v.Switches = e.countVisits(st.switches)
	e.Violations = append(e.Violations, v)
	for i := range e.known {
		if e.known[i].matches(&v) {
			return
		}
	}
	e.freshVio++
}

func (e *Engine) out() bool {
	if e.freshVio >= e.maxVio {
		return true
	}
	if e.Steps&1023 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
		e.timedOut = true
	}
	if e.timedOut {
		return true
	}
	if e.Steps > e.maxSteps {
		e.note("step limit reached")
		e.timedOut = true
		return true
	}
	return false
}
