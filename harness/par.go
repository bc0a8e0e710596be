package main

import (
	"fmt"
	"sync"
	"time"
)

// par runs steps concurrently, each several times, on the same objects, and then each alone.
// Objects that steps make go into a copy of the world that belongs to the goroutine.
func init() {
	ops["par"] = func(w *world, s M) M {
		n := num(s, "reps")
		type job struct {
			f    opFunc
			w    *world
			s    M
			step int
			res  result
		}
		var jobs []*job
		for i, x := range list(s, "steps") {
			st := x.(M)
			f, ok := ops[str(st, "op")]
			if !ok {
				bug("unknown op")
			}
			for k := 0; k <= n; k++ {
				jobs = append(jobs, &job{f: f, w: w.fork(), s: st, step: i})
			}
		}
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		for i, j := range jobs {
			if i%(n+1) == n {
				continue // the one that runs alone
			}
			ready.Add(1)
			done.Add(1)
			go func(j *job) {
				defer done.Done()
				ready.Done()
				<-start
				j.res = attempt(j.f, j.w, j.s)
			}(j)
		}
		ready.Wait()
		close(start)
		end := make(chan struct{})
		go func() { done.Wait(); close(end) }()
		select {
		case <-end:
		case <-time.After(50 * time.Second):
			panic("concurrent calls do not return")
		}
		var evs []interface{}
		for i, j := range jobs {
			if i%(n+1) == n {
				j.res = attempt(j.f, j.w, j.s)
			}
			if j.res.bug != nil {
				panic(*j.res.bug)
			}
			if j.res.res != "skip" {
				j.res.msg = "" // error texts may name different causes
			}
			e := j.res.event(j.s)
			e["step"] = fmt.Sprint(j.step)
			evs = append(evs, e)
		}
		return M{"evs": evs}
	}
}

func (w *world) fork() *world {
	w.mu.RLock()
	defer w.mu.RUnlock()
	n := &world{seed: w.seed, id: w.id, objs: map[string]interface{}{}}
	for k, v := range w.objs {
		n.objs[k] = v
	}
	return n
}
