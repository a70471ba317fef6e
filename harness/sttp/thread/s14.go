package thread

// Starting a thread and joining it, from two goroutines: once Join returns, the function has run to its end, once.
//verif:unwind=16 preempt=3 tpreempt=5 nomerge
func VH_S14_join() {
	begun, ended, overlap := 0, 0, false
	t := NewThread(func() {
		begun++
		vndYield()
		overlap = overlap || begun != ended+1
		vndYield()
		ended++
	})
	t.Start()
	other := make(chan int, 1)
	go func() {
		t.Join()
		vndAssert(ended == 1, "Join waits for the end of the function")
		other <- ended
	}()
	t.Join()
	vndAssert(begun == 1 && ended == 1, "Join waits for the end of the function")
	vndAssert(!t.IsRunning(), "a joined thread does not run")
	vndAssert(<-other == 1, "every Join returns")
	vndAssert(!overlap, "function is executed once")
	vndReach("join")
	vndJoin()
}

// Concurrent attempts to start a thread: the function is executed once for each attempt that reports success, never
// twice at the same time, and at least one attempt succeeds.
//verif:unwind=16 preempt=3 tpreempt=5 nomerge
func VH_S14_trystart() {
	begun, ended, overlap := 0, 0, false
	t := NewThread(func() {
		overlap = overlap || begun != ended
		begun++
		vndYield()
		overlap = overlap || begun != ended+1
		ended++
	})
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() { done <- t.TryStart() }()
	}
	n := 0
	for i := 0; i < 2; i++ {
		if <-done {
			n++
		}
	}
	vndJoin()
	vndAssert(n >= 1, "an idle thread can be started")
	vndAssert(begun == n && ended == n, "the function is executed once for each successful start")
	vndAssert(!overlap, "executions do not overlap")
	vndAssert(!t.IsRunning(), "the thread has ended")
	vndReach("trystart")
}

// Concurrent calls of Start: exactly those that return, rather than panic, execute the function.
//verif:unwind=16 preempt=3 tpreempt=5 nomerge
func VH_S14_start() {
	begun, ended, overlap := 0, 0, false
	t := NewThread(func() {
		overlap = overlap || begun != ended
		begun++
		vndYield()
		ended++
	})
	start := func() (ok bool) {
		defer func() { recover() }()
		t.Start()
		return true
	}
	done := make(chan bool, 1)
	go func() { done <- start() }()
	n := 0
	if start() {
		n++
	}
	if <-done {
		n++
	}
	vndJoin()
	vndAssert(n >= 1, "an idle thread can be started")
	vndAssert(begun == n && ended == n && !overlap, "the function is executed once for each start that returns")
	vndReach("start")
}

// A thread that has been joined can be started again, any number of times.
//verif:unwind=16 preempt=3 tpreempt=4 nomerge
func VH_S14_restart() {
	runs := 0
	t := NewThread(func() { vndYield(); runs++ })
	for i := 1; i <= 3; i++ {
		if vndChoose("how", 2) == 0 {
			t.Start()
		} else {
			vndAssert(t.TryStart(), "an idle thread can be started")
		}
		t.Join()
		vndAssert(runs == i && !t.IsRunning(), "every start executes the function")
	}
	vndReach("restart")
	vndJoin()
}

// From Start until the function has ended the thread is running; a thread which is running cannot be started.
//verif:unwind=16 preempt=3 tpreempt=4 nomerge
func VH_S14_running() {
	gate, ended := make(chan int), false
	t := NewThread(func() { <-gate; ended = true })
	vndAssert(!t.IsRunning(), "a new thread does not run")
	t.Join()
	t.Start()
	for i := 0; i < 2; i++ {
		vndAssert(t.IsRunning(), "a started thread runs")
		vndAssert(!t.TryStart(), "a running thread cannot be started")
	}
	close(gate)
	t.Join()
	vndAssert(ended && !t.IsRunning(), "the thread has ended")
	vndReach("running")
	vndJoin()
}

// Without a function there is nothing to start and nothing to wait for.
//verif:unwind=16 nomerge
func VH_S14_none() {
	t := NewThread(nil)
	t.Join()
	vndAssert(!t.TryStart() && !t.IsRunning(), "a thread without a function is never started")
	vndReach("none")
}
