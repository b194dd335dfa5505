// Caller threads: several goroutines use the kuneiform packages at once, under the
// scheduler's control.
package main

import (
	"runtime"
	"sync/atomic"

	sched "github.com/kwilteam/kuneiform/zz_verif_simsched"
)

type scenario struct {
	Threads [][]request `json:"threads"`
	Sources [][]byte    `json:"sources"`
	Points  []int       `json:"points"`
	Bound   int         `json:"bound"`
	Warm    []request   `json:"warm"` // run alone, before the threads start
}

type outcome struct {
	Results  [][]response `json:"results"`
	Steps    int          `json:"steps"`
	Switches int          `json:"switches"`
	Meets    int          `json:"meets"`
	Log      [][4]int     `json:"log"`
	Overrun  bool         `json:"overrun"`
	Deadlock bool         `json:"deadlock"`
	Stuck    []int        `json:"stuck"`
}

func start(sc scenario) (fin func() outcome) {
	w := newState()
	for _, r := range sc.Warm {
		w.run(r, string(sc.Sources[r.Src]))
	}
	sched.Configure(sc.Points, sc.Bound)
	res := make([][]response, len(sc.Threads))
	texts := make([]string, len(sc.Sources))
	for i, s := range sc.Sources {
		texts[i] = string(s)
	}
	ids := make([]int, len(sc.Threads))
	done := make([]doneFlag, len(sc.Threads))
	for i := range sc.Threads {
		res[i] = make([]response, len(sc.Threads[i]))
		ids[i] = sched.Register()
	}
	for i := range sc.Threads {
		go func(i int) {
			sched.Begin(ids[i])
			st := newState()
			st.shared = w.kept
			for j, r := range sc.Threads[i] {
				res[i][j] = st.run(r, texts[r.Src])
				progress(&done[i])
			}
			sched.End(ids[i])
		}(i)
	}
	runtime.Gosched()
	if len(ids) > 0 {
		sched.Start(ids[0])
	}
	return func() outcome { return collect(res, done) }
}

// doneFlag orders a thread's answers before their collection, and nothing else.
type doneFlag struct{ n atomic.Int32 }

func progress(d *doneFlag) { d.n.Add(1) }

func collect(res [][]response, done []doneFlag) outcome {
	o := outcome{Results: make([][]response, len(res)), Steps: sched.Steps(), Switches: sched.Switches(), Meets: sched.Meets(), Overrun: sched.Overrun(), Deadlock: sched.Deadlock()}
	for i := range res {
		o.Results[i] = make([]response, int(done[i].n.Load()))
		for j := 0; j < len(o.Results[i]); j++ {
			o.Results[i][j] = res[i][j]
		}
		if len(o.Results[i]) < len(res[i]) {
			o.Stuck = append(o.Stuck, i)
		}
	}
	for _, s := range sched.Log() {
		o.Log = append(o.Log, [4]int{s.Step, s.From, s.To, s.Site})
	}
	return o
}
