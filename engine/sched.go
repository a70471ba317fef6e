package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- threads ----

func (e *Engine) live(st *State) int {
	n := 0
	for _, t := range st.threads {
		if !t.done {
			n++
		}
	}
	return n
}

func (e *Engine) runnable(st *State, i int) bool {
	t := st.threads[i]
	return !t.done && (t.blocked == nil || t.blocked(st))
}

// schedPoint is called before each visible operation of the current thread.
func (e *Engine) schedPoint(st *State) {
	if len(st.threads) == 1 || st.schedOK || e.live(st) <= 1 {
		e.visited(st)
		return
	}
	var out []*State
	cur := e.fork(st)
	cur.schedOK = true
	cur.sched = append(cur.sched, cur.cur)
	out = append(out, cur)
	if st.preempt < e.preBound {
		for i := range st.threads {
			if i == st.cur || !e.runnable(st, i) {
				continue
			}
			n := e.fork(st)
			n.switches = append(n.switches, Switch{From: st.cur, To: i, Pos: e.repoPos(st), Entry: e.entryPos(st, i), at: st.visits})
			n.cur = i
			n.preempt++
			n.schedOK = true
			n.sched = append(n.sched, i)
			n.threadN(i).blocked = nil
			out = append(out, n)
		}
	}
	if len(out) == 1 {
		st.schedOK = true
		st.sched = append(st.sched, st.cur)
		e.visited(st)
		return
	}
	e.Forks++
	panic(forkRetry{states: out})
}

// block parks the current thread until pred holds and switches to another one.
func (e *Engine) block(st *State, why string, pred func(*State) bool) {
	n := e.fork(st)
	t := n.threadN(n.cur)
	t.blocked = pred
	t.why = why + " at " + e.curPos(st)
	panic(forkRetry{states: e.reschedule(n)})
}

// sleep lets another thread run, if one can.
func (e *Engine) sleep(st *State) {
	t := st.threadN(st.cur)
	if t.slept {
		t.slept = false
		return
	}
	var out []*State
	for i := range st.threads {
		if i == st.cur || !e.runnable(st, i) {
			continue
		}
		n := e.fork(st)
		n.threadN(st.cur).slept = true
		n.switches = append(n.switches, Switch{From: st.cur, To: i, Entry: e.entryPos(st, i)})
		n.cur = i
		n.schedOK = true
		n.sched = append(n.sched, i)
		n.threadN(i).blocked = nil
		out = append(out, n)
	}
	if len(out) > 0 {
		panic(forkRetry{states: out})
	}
}

// reschedule picks the next thread when the current one cannot continue.
func (e *Engine) reschedule(st *State) []*State {
	if st.threads[0].done {
		return []*State{st}
	}
	var out []*State
	for i := range st.threads {
		if !e.runnable(st, i) {
			continue
		}
		n := e.fork(st)
		if i != st.cur {
			n.switches = append(n.switches, Switch{From: st.cur, To: i, Entry: e.entryPos(st, i)})
		}
		n.cur = i
		n.schedOK = true
		n.sched = append(n.sched, i)
		n.threadN(i).blocked = nil
		out = append(out, n)
	}
	if len(out) == 0 {
		why := ""
		for _, t := range st.threads {
			if !t.done {
				why += fmt.Sprintf("[thread %d: %s] ", t.id, t.why)
			}
		}
		st.cur = 0
		e.PathEnds["deadlock"]++
		e.violate(st, "deadlock", "deadlock: "+why, "", "", nil)
		return nil
	}
	return out
}

func (e *Engine) spawn(st *State, f *Frame, fnv Value, args []Value) []*State {
	fv, ok := fnv.(*FuncV)
	if !ok || fv == nil {
		panic(goPanic{msg: "go of nil func value"})
	}
	if len(st.threads) > 20 {
		panic(unsupported{"too many goroutines"})
	}
	f.pc++
	if e.nativeFor(fv) != nil {
		e.nativeFor(fv)(&ICall{e: e, st: st, fn: fv.fn, binds: fv.binds, args: args})
		return []*State{st}
	}
	e.pushThread(st, fv, args)
	return []*State{st}
}

// ---- channels ----

func (e *Engine) recv(st *State, f *Frame, x *ssa.UnOp) []*State {
	ch, ok := e.resolve(st, e.get(st, f, x.X)).(ChanV)
	if !ok {
		panic(unsupported{"recv on non-channel"})
	}
	e.schedPoint(st)
	if ch.obj == 0 {
		e.block(st, "receive on nil channel", func(*State) bool { return false })
	}
	if !e.canRecv(st, ch) {
		st.threadN(st.cur).recvOn = ch.obj
		e.block(st, "chan receive", func(s *State) bool { return e.canRecv(s, ch) })
	}
	if st.threads[st.cur].recvOn != 0 {
		st.threadN(st.cur).recvOn = 0
	}
	v, okv := e.takeRecv(st, ch, x.X.Type().Underlying().(*types.Chan).Elem())
	st.schedOK = false
	f = st.top()
	if x.CommaOk {
		e.set(f, x, Tuple{v, okv})
	} else {
		e.set(f, x, v)
	}
	f.pc++
	return []*State{st}
}

// parked counts the plain receivers waiting on an unbuffered channel for which no value is on its way.
func (e *Engine) parked(st *State, ch ChanV) int {
	n := 0
	for _, t := range st.threads {
		if !t.done && t.recvOn == ch.obj {
			n++
		}
	}
	for _, q := range e.obj(st, ch.obj).ch.sendq {
		if !q.done {
			n--
		}
	}
	return n
}

// withdraw removes the offers a select of thread tid has made on the channels.
func (e *Engine) withdraw(st *State, tid int, chans []int) {
	for _, o := range chans {
		cd := e.objW(st, o).ch
		var q []sendWait
		for _, s := range cd.sendq {
			if s.tid != tid || s.group == nil {
				q = append(q, s)
			}
		}
		cd.sendq = q
	}
}

func (e *Engine) canRecv(st *State, ch ChanV) bool {
	if ch.obj == 0 {
		return false
	}
	cd := e.obj(st, ch.obj).ch
	return len(cd.buf) > 0 || cd.closed || pendingSend(cd) >= 0
}

func pendingSend(cd *ChanData) int {
	for i, s := range cd.sendq {
		if !s.done {
			return i
		}
	}
	return -1
}

func (e *Engine) takeRecv(st *State, ch ChanV, elem types.Type) (Value, *Term) {
	cd := e.objW(st, ch.obj).ch
	if len(cd.buf) > 0 {
		v := cd.buf[0]
		cd.buf = append([]Value(nil), cd.buf[1:]...)
		return v, e.c.True
	}
	if i := pendingSend(cd); i >= 0 {
		q := cd.sendq[i]
		if q.tid < 0 {
			cd.sendq = append(cd.sendq[:i:i], cd.sendq[i+1:]...)
			return q.v, e.c.True
		}
		if q.group != nil {
			e.withdraw(st, q.tid, q.group)
			q.done = true
			cd = e.objW(st, ch.obj).ch
			cd.sendq = append(cd.sendq, q)
			return q.v, e.c.True
		}
		cd.sendq[i].done = true
		return q.v, e.c.True
	}
	return e.zero(elem), e.c.False
}

func (e *Engine) send(st *State, f *Frame, x *ssa.Send) []*State {
	ch := e.resolve(st, e.get(st, f, x.Chan)).(ChanV)
	v := e.get(st, f, x.X)
	if ch.obj == 0 {
		e.schedPoint(st)
		e.block(st, "send on nil channel", func(*State) bool { return false })
	}
	tid := st.cur
	// completing a rendez-vous
	cd := e.obj(st, ch.obj).ch
	for i, s := range cd.sendq {
		if s.tid == tid && s.group == nil {
			if s.done {
				w := e.objW(st, ch.obj).ch
				w.sendq = append(w.sendq[:i:i], w.sendq[i+1:]...)
				st.schedOK = false
				st.top().pc++
				return []*State{st}
			}
			if cd.closed {
				panic(goPanic{msg: "send on closed channel"})
			}
			e.block(st, "chan send", e.sendDone(ch, tid))
		}
	}
	e.schedPoint(st)
	if cd.closed {
		panic(goPanic{msg: "send on closed channel"})
	}
	if cd.cap > 0 {
		if len(cd.buf) >= cd.cap {
			e.block(st, "chan send", func(s *State) bool {
				c := e.obj(s, ch.obj).ch
				return len(c.buf) < c.cap || c.closed
			})
		}
		w := e.objW(st, ch.obj).ch
		w.buf = append(w.buf, v)
		st.schedOK = false
		st.top().pc++
		return []*State{st}
	}
	w := e.objW(st, ch.obj).ch
	w.sendq = append(w.sendq, sendWait{tid: tid, v: v})
	st.schedOK = false
	e.block(st, "chan send", e.sendDone(ch, tid))
	return nil
}

func (e *Engine) sendDone(ch ChanV, tid int) func(*State) bool {
	return func(s *State) bool {
		c := e.obj(s, ch.obj).ch
		if c.closed {
			return true
		}
		for _, q := range c.sendq {
			if q.tid == tid && q.group == nil {
				return q.done
			}
		}
		return true
	}
}

func (e *Engine) selectStmt(st *State, f *Frame, x *ssa.Select) []*State {
	type arm struct {
		i  int
		ch ChanV
	}
	var chs []ChanV
	for _, s := range x.States {
		chs = append(chs, e.resolve(st, e.get(st, f, s.Chan)).(ChanV))
	}
	tid := st.cur
	var offers []int // unbuffered channels this select sends on
	for i, a := range x.States {
		if a.Dir == types.SendOnly && chs[i].obj != 0 && e.obj(st, chs[i].obj).ch.cap == 0 {
			offers = append(offers, chs[i].obj)
		}
	}
	taken := -1
	offered := false
	for _, o := range offers {
		for _, q := range e.obj(st, o).ch.sendq {
			if q.tid == tid && q.group != nil {
				offered = true
				if q.done {
					taken = q.arm
				}
			}
		}
	}
	if !offered {
		e.schedPoint(st)
	}
	ready := func(s *State, i int) bool {
		if chs[i].obj == 0 {
			return false
		}
		if x.States[i].Dir == types.RecvOnly {
			return e.canRecv(s, chs[i])
		}
		cd := e.obj(s, chs[i].obj).ch
		if cd.closed {
			return true
		}
		if cd.cap == 0 {
			return e.parked(s, chs[i]) > 0
		}
		return len(cd.buf) < cd.cap
	}
	if offered {
		e.withdraw(st, tid, offers)
	}
	if len(st.threads[tid].recvAny) > 0 {
		st.threadN(tid).recvAny = nil
	}
	var rd []int
	for i := range x.States {
		if taken < 0 && ready(st, i) {
			rd = append(rd, i)
		}
	}
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(s *State, idx int) {
		fr := s.top()
		tu := make(Tuple, 2+nrecv)
		tu[0] = e.c.BV(uint64(int64(idx)), 64)
		tu[1] = e.c.False
		k := 2
		for i, a := range x.States {
			if a.Dir != types.RecvOnly {
				continue
			}
			elem := a.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == idx {
				v, ok := e.takeRecv(s, chs[i], elem)
				tu[k] = v
				tu[1] = ok
			} else {
				tu[k] = e.zero(elem)
			}
			k++
		}
		if idx >= 0 && x.States[idx].Dir == types.SendOnly {
			w := e.objW(s, chs[idx].obj).ch
			if w.closed && idx != taken {
				panic(goPanic{msg: "send on closed channel"})
			}
			if v := e.get(s, fr, x.States[idx].Send); w.cap == 0 && idx != taken {
				w.sendq = append(w.sendq, sendWait{tid: -1, v: v})
			} else if w.cap > 0 {
				w.buf = append(w.buf, v)
			}
		}
		s.schedOK = false
		e.set(fr, x, tu)
		fr.pc++
	}
	if taken >= 0 {
		mk(st, taken)
		return []*State{st}
	}
	if len(rd) == 0 {
		if !x.Blocking {
			for _, t := range st.threads {
				for _, o := range t.recvAny {
					for _, c := range offers {
						if o == c && !t.done {
							panic(unsupported{"non-blocking send to a select"})
						}
					}
				}
			}
			mk(st, -1)
			return []*State{st}
		}
		for i, a := range x.States {
			if chs[i].obj == 0 {
				continue
			}
			if a.Dir == types.RecvOnly {
				t := st.threadN(tid)
				t.recvAny = append(t.recvAny[:len(t.recvAny):len(t.recvAny)], chs[i].obj)
			} else if w := e.objW(st, chs[i].obj).ch; w.cap == 0 {
				w.sendq = append(w.sendq, sendWait{tid: tid, v: e.get(st, st.top(), a.Send), arm: i, group: offers})
			}
		}
		e.block(st, "select", func(s *State) bool {
			for _, o := range offers {
				for _, q := range e.obj(s, o).ch.sendq {
					if q.tid == tid && q.group != nil && q.done {
						return true
					}
				}
			}
			for i := range x.States {
				if ready(s, i) {
					return true
				}
			}
			return false
		})
	}
	if len(rd) == 1 {
		mk(st, rd[0])
		return []*State{st}
	}
	var out []*State
	for _, i := range rd {
		n := e.fork(st)
		mk(n, i)
		out = append(out, n)
	}
	return out
}
