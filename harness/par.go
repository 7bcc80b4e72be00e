package main

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
)

// stuck counts the cases (recorded as failures) that did not come back in time: a few are enough
var stuck int64

// parallel runs n cases on all cores; each worker has its own report
func parallel(n int, seed int64, f func(i int, r *rand.Rand, rep *Report)) *Report {
	w := runtime.GOMAXPROCS(0)
	reps := make([]*Report, w)
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		reps[k] = &Report{}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < n && atomic.LoadInt64(&stuck) < 3; i += w {
				f(i, rand.New(rand.NewSource(seed*1000003+int64(i))), reps[k])
			}
		}(k)
	}
	wg.Wait()
	total := &Report{}
	for _, r := range reps {
		total.merge(r)
	}
	return total
}

func (r *Report) merge(o *Report) {
	r.Cases += o.Cases
	r.Steps += o.Steps
	for _, f := range o.Failures {
		r.fail(f.Prop, f.Why, f.Case, f.Want, f.Got)
	}
	for _, s := range o.Samples {
		if len(r.Samples) < 6 {
			r.Samples = append(r.Samples, s)
		}
	}
	for k, v := range o.Extra {
		if r.Extra == nil {
			r.Extra = M{}
		}
		r.Extra[k] = v
	}
}
