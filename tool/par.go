package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

// par runs parts of a check at the same time and puts their results together
// in order.
func (r *Run) par(tasks []func(r *Run)) {
	subs := make([]*Run, len(tasks))
	errs := make([]interface{}, len(tasks))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, t := range tasks {
		subs[i] = &Run{id: r.id, tier: r.tier, repo: r.repo, home: r.home, seen: map[string]bool{}, counts: map[string]int{}, prog: r.prog, in: r.in}
		wg.Add(1)
		sem <- true
		go func(i int, t func(r *Run)) {
			defer func() {
				errs[i] = recover()
				<-sem
				wg.Done()
			}()
			t0 := time.Now()
			t(subs[i])
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Printf("task %d %.1fs %v\n", i, time.Since(t0).Seconds(), subs[i].samples)
			}
		}(i, t)
	}
	wg.Wait()
	for i, s := range subs {
		for _, v := range s.viol {
			r.fail(v.key, "%s", v.msg)
		}
		for k, n := range s.counts {
			r.count(k, n)
		}
		for _, x := range s.samples {
			r.sample("%s", x)
		}
		if errs[i] != nil {
			panic(errs[i])
		}
	}
}
