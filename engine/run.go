package main

import (
	"golang.org/x/tools/go/ssa"
)

// stop describes a join location: a block in the frame at the given depth, or (block nil) the return from that frame.
type stop struct {
	depth int
	block *ssa.BasicBlock
}

func (st *State) at(s stop) bool {
	d := st.depth()
	if d < s.depth {
		return true
	}
	if s.block == nil || d != s.depth {
		return false
	}
	t := st.threads[st.cur]
	f := t.frames[d-1]
	if f.block != s.block {
		return false
	}
	return f.pc == firstNonPhi(f.block)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

func (e *Engine) mergeOK(st *State) bool {
	if !e.merging || len(st.threads) != 1 {
		return false
	}
	for _, f := range st.threads[0].frames {
		if f.panicking != nil {
			return false
		}
	}
	return true
}

// run executes st until the stop location; the states that reach it are returned.
func (e *Engine) run(st *State, s stop) []*State {
	var done []*State
	work := []*State{st}
	for len(work) > 0 {
		cur := work[len(work)-1]
		work = work[:len(work)-1]
		first := true
		for {
			if e.out() {
				return done
			}
			if cur.threads[0].done {
				e.Paths++
				e.PathEnds["return"]++
				break
			}
			if (!first || s.block == nil || true) && cur.at(s) {
				done = append(done, cur)
				break
			}
			first = false
			depth := cur.depth()
			f := cur.threads[cur.cur].frames[depth-1]
			blk := f.block
			fi := f.fi
			out, errs, mg := e.step2(cur)
			if errs != "" {
				e.note("error: %s", errs)
			}
			if len(out) == 1 {
				cur = out[0]
				continue
			}
			if len(out) == 0 {
				break
			}
			if mg && e.mergeOK(out[0]) {
				js := stop{depth: depth, block: fi.ipdomOf(blk)}
				if depth == 1 && js.block == nil {
					work = append(work, out...)
					break
				}
				var arrived []*State
				for _, o := range out {
					// a branch sits at the fork point itself; it must leave it before the join test applies
					arrived = append(arrived, e.run(o, js)...)
					if e.out() {
						return done
					}
				}
				arrived = e.mergeAll(arrived)
				work = append(work, arrived...)
				break
			}
			// reverse so that the first alternative is explored first
			for i := len(out) - 1; i >= 0; i-- {
				work = append(work, out[i])
			}
			break
		}
	}
	return done
}

func (e *Engine) mergeAll(ss []*State) []*State {
	if len(ss) < 2 {
		return ss
	}
	var groups [][]*State
	for _, s := range ss {
		placed := false
		for i := range groups {
			if e.compatible(groups[i][0], s) {
				groups[i] = append(groups[i], s)
				placed = true
				break
			}
		}
		if !placed {
			groups = append(groups, []*State{s})
		}
	}
	var out []*State
	for _, g := range groups {
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		e.Merges += int64(len(g) - 1)
		out = append(out, e.mergeGroup(g))
	}
	return out
}

func (e *Engine) compatible(a, b *State) bool {
	if !e.mergeOK(a) || !e.mergeOK(b) {
		return false
	}
	ta, tb := a.threads[0], b.threads[0]
	if ta.done != tb.done || len(ta.frames) != len(tb.frames) {
		return false
	}
	if len(a.nd) != len(b.nd) {
		return false
	}
	for k, v := range a.nd {
		if b.nd[k] != v {
			return false
		}
	}
	if len(a.tags) != len(b.tags) {
		return false
	}
	for k, v := range a.tags {
		if b.tags[k] != v {
			return false
		}
	}
	for i := range ta.frames {
		x, y := ta.frames[i], tb.frames[i]
		if x == y {
			continue
		}
		if x.fi != y.fi || x.block != y.block || x.pc != y.pc || len(x.defers) != len(y.defers) || x.ret != y.ret || x.retReg != y.retReg {
			return false
		}
		for k := range x.defers {
			if !same(x.defers[k].fn, y.defers[k].fn) || len(x.defers[k].args) != len(y.defers[k].args) {
				return false
			}
			for q := range x.defers[k].args {
				if !same(x.defers[k].args[q], y.defers[k].args[q]) {
					return false
				}
			}
		}
	}
	// channels and iterators must agree
	chk := func(p, q *State) bool {
		for id, o := range p.over {
			if o.ch == nil && o.it == nil {
				continue
			}
			o2, ok := q.over[id]
			if !ok {
				o2, ok = e.base[id]
				if !ok {
					continue
				}
			}
			if o == o2 {
				continue
			}
			if o.it != nil && (o2.it == nil || o.it.pos != o2.it.pos || o.it.m != o2.it.m) {
				return false
			}
			if o.ch != nil {
				if o2.ch == nil || o.ch.closed != o2.ch.closed || len(o.ch.buf) != len(o2.ch.buf) || len(o.ch.sendq) != 0 || len(o2.ch.sendq) != 0 {
					return false
				}
			}
		}
		return true
	}
	return chk(a, b) && chk(b, a)
}

func (e *Engine) mergeGroup(g []*State) *State {
	c := e.c
	// common prefix of path conditions
	n := len(g[0].pc)
	for _, s := range g[1:] {
		k := 0
		for k < n && k < len(s.pc) && s.pc[k] == g[0].pc[k] {
			k++
		}
		n = k
	}
	guards := make([]*Term, len(g))
	any := c.False
	for i, s := range g {
		gd := c.True
		for k := len(s.pc) - 1; k >= n; k-- {
			gd = c.And(s.pc[k], gd)
		}
		guards[i] = gd
		any = c.Or(any, gd)
	}
	res := e.fork(g[0])
	res.pc = append(g[0].pc[:n:n], []*Term{}...)
	if !any.IsTrue() {
		res.pc = append(res.pc, any)
	}
	for _, s := range g {
		if s.witness != nil {
			res.witness = s.witness
			break
		}
	}
	for k, v := range res.known {
		for _, s := range g[1:] {
			if w, ok := s.known[k]; !ok || w != v {
				delete(res.known, k)
				break
			}
		}
	}
	for k, v := range res.consts {
		for _, s := range g[1:] {
			if w, ok := s.consts[k]; !ok || w != v {
				delete(res.consts, k)
				break
			}
		}
	}
	fold := func(get func(s *State) (Value, bool)) Value {
		var acc Value
		have := false
		for i := len(g) - 1; i >= 0; i-- {
			v, ok := get(g[i])
			if !ok {
				continue
			}
			if !have {
				acc, have = v, true
				continue
			}
			acc = merge(c, guards[i], v, acc)
		}
		return acc
	}
	// frames
	th := res.thread()
	for fi := range th.frames {
		diff := false
		for _, s := range g[1:] {
			if s.threads[0].frames[fi] != g[0].threads[0].frames[fi] {
				diff = true
			}
		}
		if !diff {
			continue
		}
		f := res.frameW(th, fi)
		var byReg []ssa.Value
		for ri := range f.regs {
			r0 := g[0].threads[0].frames[fi].regs[ri]
			d := false
			hasNil := r0 == nil
			for _, s := range g[1:] {
				r := s.threads[0].frames[fi].regs[ri]
				if r == nil {
					hasNil = true
				}
				if !same(r0, r) {
					d = true
				}
			}
			if !d {
				continue
			}
			if hasNil {
				f.regs[ri] = nil
				continue
			}
			if byReg == nil {
				byReg = f.fi.regList()
			}
			if in, ok := byReg[ri].(ssa.Instruction); ok {
				if b := in.Block(); b != nil && !b.Dominates(f.block) {
					f.regs[ri] = nil
					continue
				}
			}
			f.regs[ri] = fold(func(s *State) (Value, bool) { return s.threads[0].frames[fi].regs[ri], true })
		}
		for _, s := range g[1:] {
			for b, k := range s.threads[0].frames[fi].forks {
				if f.forks == nil {
					f.forks = map[*ssa.BasicBlock]int{}
				}
				if f.forks[b] < k {
					f.forks[b] = k
				}
			}
			if s.threads[0].frames[fi].symDepth > f.symDepth {
				f.symDepth = s.threads[0].frames[fi].symDepth
			}
		}
	}
	// heap
	ids := map[int]bool{}
	for _, s := range g {
		for id := range s.over {
			ids[id] = true
		}
	}
	for id := range ids {
		get := func(s *State) *Obj {
			if o, ok := s.over[id]; ok {
				return o
			}
			return e.base[id]
		}
		o0 := get(g[0])
		diff := false
		var firstObj *Obj
		for _, s := range g {
			o := get(s)
			if o != o0 {
				diff = true
			}
			if firstObj == nil && o != nil {
				firstObj = o
			}
		}
		if !diff {
			continue
		}
		var n Obj = *firstObj
		n.owner = res.id
		if firstObj.m != nil {
			var acc *MapData
			for i := len(g) - 1; i >= 0; i-- {
				o := get(g[i])
				if o == nil {
					continue
				}
				if acc == nil {
					acc = o.m
					continue
				}
				acc = e.mergeMaps(guards[i], o.m, acc)
			}
			n.m = acc.clone()
		} else if firstObj.ch != nil {
			cc := *firstObj.ch
			cc.buf = append([]Value(nil), cc.buf...)
			for bi := range cc.buf {
				cc.buf[bi] = fold(func(s *State) (Value, bool) {
					o := get(s)
					if o == nil {
						return nil, false
					}
					return o.ch.buf[bi], true
				})
			}
			n.ch = &cc
		} else if firstObj.it != nil {
			it := *firstObj.it
			n.it = &it
		} else {
			n.v = fold(func(s *State) (Value, bool) {
				o := get(s)
				if o == nil {
					return nil, false
				}
				return o.v, true
			})
		}
		res.over[id] = &n
	}
	return res
}

func (e *Engine) mergeMaps(g *Term, a, b *MapData) *MapData {
	if a == b {
		return a
	}
	c := e.c
	out := &MapData{idx: map[string]int{}, nsym: a.nsym}
	if b.nsym > out.nsym {
		out.nsym = b.nsym
	}
	n := 0
	for n < len(a.entries) && n < len(b.entries) && same(a.entries[n].key, b.entries[n].key) {
		x, y := a.entries[n], b.entries[n]
		p := c.Ite(g, x.present, y.present)
		out.entries = append(out.entries, MapEntry{x.key, merge(c, g, x.val, y.val), p})
		if !p.IsConst() {
			out.nsym++
		}
		n++
	}
	for _, x := range a.entries[n:] {
		out.entries = append(out.entries, MapEntry{x.key, x.val, c.And(g, x.present)})
		out.nsym++
	}
	for _, x := range b.entries[n:] {
		out.entries = append(out.entries, MapEntry{x.key, x.val, c.And(c.Not(g), x.present)})
		out.nsym++
	}
	for i, en := range out.entries {
		if en.present.IsTrue() {
			if k, ok := keyString(en.key); ok {
				out.idx[k] = i
			}
		}
	}
	return out
}

func (fi *FuncInfo) regList() []ssa.Value {
	if fi.rlist == nil {
		fi.rlist = make([]ssa.Value, fi.n)
		for v, i := range fi.index {
			fi.rlist[i] = v
		}
	}
	return fi.rlist
}
