// mcself checks the explorer against itself: for every small program over the primitives it
// controls, the reduced exploration must find exactly the outcomes the full one finds.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/michaelmacinnis/oh/internal/zzverif/mc"
	"github.com/michaelmacinnis/oh/internal/zzverif/msync"
)

type world struct {
	m      msync.Mutex
	rw     msync.RWMutex
	c      *msync.Cond
	flag   bool
	x, y   int
	c0, c1 chan int
}

var ops = map[string]func(w *world, id int, log func(...interface{})){
	"lk":  func(w *world, id int, log func(...interface{})) { w.m.Lock(); log(w.x); w.x = w.x*4 + id; w.m.Unlock() },
	"try": func(w *world, id int, log func(...interface{})) {
		if w.m.TryLock() {
			w.x = w.x*4 + id
			w.m.Unlock()
			log("t")
		} else {
			log("f")
		}
	},
	"rd": func(w *world, id int, log func(...interface{})) { w.rw.RLock(); log(w.y); w.rw.RUnlock() },
	"rr": func(w *world, id int, log func(...interface{})) {
		w.rw.RLock()
		w.rw.RLock()
		log(w.y)
		w.rw.RUnlock()
		w.rw.RUnlock()
	},
	"wr":   func(w *world, id int, log func(...interface{})) { w.rw.Lock(); log(w.y); w.y = w.y*4 + id; w.rw.Unlock() },
	"s0":   func(w *world, id int, log func(...interface{})) { mc.Send(w.c0, id) },
	"r0":   func(w *world, id int, log func(...interface{})) { v, ok := mc.Recv2(w.c0); log(v, ok) },
	"s1":   func(w *world, id int, log func(...interface{})) { mc.Send(w.c1, id) },
	"r1":   func(w *world, id int, log func(...interface{})) { v, ok := mc.Recv2(w.c1); log(v, ok) },
	"len1": func(w *world, id int, log func(...interface{})) { log(mc.Len(w.c1)) },
	"cl1":  func(w *world, id int, log func(...interface{})) { mc.Close(w.c1) },
	"sel":  func(w *world, id int, log func(...interface{})) { s := mc.Select(false, mc.CaseRecv(w.c0), mc.CaseRecv(w.c1)); log(s.I, s.V, s.OK) },
	"sel2": func(w *world, id int, log func(...interface{})) { s := mc.Select(false, mc.CaseSend(w.c0, id), mc.CaseRecv(w.c1)); log(s.I, s.V, s.OK) },
	"seld": func(w *world, id int, log func(...interface{})) { s := mc.Select(true, mc.CaseRecv(w.c1)); log(s.I, s.V, s.OK) },
	"cw": func(w *world, id int, log func(...interface{})) {
		w.m.Lock()
		for !w.flag {
			w.c.Wait()
		}
		w.flag = false
		w.m.Unlock()
		log("w")
	},
	"cs": func(w *world, id int, log func(...interface{})) { w.m.Lock(); w.flag = true; w.c.Signal(); w.m.Unlock() },
	"cn": func(w *world, id int, log func(...interface{})) { w.c.Broadcast() },
}

func run(prog [][]string) func() string {
	return func() string {
		w := &world{c0: make(chan int), c1: make(chan int, 1)}
		w.c = msync.NewCond(&w.m)
		logs := make([]string, len(prog))
		for i := range prog {
			i := i
			mc.Go(func() {
				for _, o := range prog[i] {
					ops[o](w, i+1, func(a ...interface{}) { logs[i] += fmt.Sprint(a...) + " " })
				}
				logs[i] += "."
			})
		}
		mc.OnRest(func() string { return strings.Join(logs, "|") + fmt.Sprint(w.x, w.y) })
		return ""
	}
}

func outcomes(prog [][]string, full bool, max int64) (map[string]bool, *mc.Report) {
	mc.Full = full
	rep := mc.Explore(run(prog), func(r *mc.Report) bool { return max > 0 && r.Executions >= max })
	m := map[string]bool{}
	for _, o := range rep.Outcomes {
		if i := strings.Index(o.Detail, "\n"); i >= 0 {
			o.Detail = o.Detail[:i]
		}
		m[o.Status+":"+o.Text+":"+o.Detail] = true
	}
	return m, rep
}

func main() {
	shape, part, parts, max := os.Args[1], 0, 1, int64(20000)
	if len(os.Args) > 3 {
		part, _ = strconv.Atoi(os.Args[2])
		parts, _ = strconv.Atoi(os.Args[3])
	}
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	var lens []int
	for _, c := range shape {
		lens = append(lens, int(c-'0'))
	}
	total := 0
	for _, l := range lens {
		total += l
	}
	mc.Quiesce()
	mc.Daemons()
	mc.KeepGoing = true
	if s := os.Getenv("MC_BOUND"); s != "" {
		mc.Bound, _ = strconv.Atoi(s)
		mc.Loose = os.Getenv("MC_LOOSE") != ""
	}
	idx := make([]int, total)
	n, skipped, bad := 0, 0, 0
	var full, reduced int64
	for k := 0; ; k++ {
		var prog [][]string
		j := 0
		for _, l := range lens {
			var b []string
			for i := 0; i < l; i++ {
				b = append(b, names[idx[j]])
				j++
			}
			prog = append(prog, b)
		}
		sorted := true
		for i := 1; i < len(prog); i++ {
			if lens[i] == lens[i-1] && fmt.Sprint(prog[i]) < fmt.Sprint(prog[i-1]) {
				sorted = false
			}
		}
		if sorted && k%parts == part {
			b, rb := outcomes(prog, false, 0)
			a, ra := outcomes(prog, true, max)
			n++
			full += ra.Executions
			reduced += rb.Executions
			if !ra.Exhausted {
				skipped++
			}
			ok := rb.Exhausted && rb.Diverged == "" && !rb.Dirty
			crash := func(m map[string]bool) bool {
				for o := range m {
					if strings.HasPrefix(o, "crash") {
						return true
					}
				}
				return false
			}
			if crash(a) || crash(b) { // nothing comes after a crash
				ok = ok && crash(a) && crash(b)
				a, b = nil, nil
			}
			for o := range a {
				ok = ok && b[o]
			}
			if ra.Exhausted {
				for o := range b {
					ok = ok && a[o]
				}
			}
			if !ok {
				bad++
				if bad < 20 {
					fmt.Println("DIFFER", prog, "full", ra.Executions, "reduced", rb.Executions, rb.Diverged, rb.Dirty, rb.Exhausted)
					for o := range a {
						if !b[o] {
							fmt.Println("   missed:", o)
						}
					}
					for o := range b {
						if !a[o] && ra.Exhausted {
							fmt.Println("   spurious:", o)
						}
					}
				}
			}
		}
		i := total - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(names) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			break
		}
	}
	fmt.Printf("%d programs, %d executions unreduced, %d reduced, %d not finished unreduced, %d differ\n", n, full, reduced, skipped, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
