// mcrun explores programs, given as JSON on standard input, and reports what can come of each.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/engine"
	"github.com/michaelmacinnis/oh/internal/engine/task"
	"github.com/michaelmacinnis/oh/internal/reader"
	"github.com/michaelmacinnis/oh/internal/system/job"
	"github.com/michaelmacinnis/oh/internal/system/options"
	"github.com/michaelmacinnis/oh/internal/zzverif/mc"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
)

type Program struct {
	Key      string
	Src      []string // the top-level commands, each possibly of several lines
	Keys     []string // "int", "tstp": typed at any moment, in this order
	Cap      int
	PipeBuf  int
	Fragment bool
	Shared   bool
	Bound    *int
	Loose    bool
	Max      int64
	Seconds  float64
	Schedule string
	Stop     []string // stop at the first outcome that is not one of these (if given)
	Quiet    bool     // leave out the value and standard error
	Show     bool     // report the log of processes too
}

func parse(src string) []cell.I {
	r := reader.New("oh")
	var cs []cell.I
	for _, l := range strings.SplitAfter(src, "\n") {
		if l == "" {
			continue
		}
		c, err := r.Scan(l)
		if err != nil {
			fmt.Fprintln(os.Stderr, "mcrun: parse:", err, src)
			os.Exit(3)
		}
		if c != nil {
			cs = append(cs, c)
		}
	}
	r.Close()
	return cs
}

func main() {
	os.Args = []string{"oh", "-c", "x"}
	if os.Getenv("MC_MONITOR") != "" {
		os.Args = []string{"oh", "-m", "-c", "x"}
	}
	if f := os.Getenv("MC_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	options.Parse()
	engine.Boot("", []string{"oh"})
	mc.Quiesce()
	mc.Daemons()
	builtin("note", func(a []cell.I) cell.I { // Remembers a value; nothing another task can see.
		k := common.String(a[0])
		for _, v := range a[1:] {
			notes[k] = append(notes[k], show(list.New(v)))
		}
		if len(a) > 1 {
			return a[1]
		}
		return pair.Null
	})
	builtin("keys", func(a []cell.I) cell.I { // Typed at any moment from now on, in this order.
		var ks []string
		for _, c := range a {
			ks = append(ks, common.String(c))
		}
		mc.Go(func() { press(ks) })
		return sym.True
	})
	builtin("mark", func(a []cell.I) cell.I { // Something other tasks can see has happened.
		k := common.String(a[0])
		n := ""
		mc.Do(&mc.Op{Kind: "mark", Foot: []mc.Foot{{O: markOf(k), K: mc.W}}, Alts: func() int { return 1 }, Run: func(int) { marks[k]++; n = strconv.Itoa(marks[k]) }})
		return sym.New(n)
	})
	builtin("marked", func(a []cell.I) cell.I { // How many times.
		k := common.String(a[0])
		n := ""
		mc.Do(&mc.Op{Kind: "marked", Foot: []mc.Foot{{O: markOf(k), K: mc.R}}, Alts: func() int { return 1 }, Run: func(int) { n = strconv.Itoa(marks[k]) }})
		return sym.New(n)
	})
	builtin("fresh", func(a []cell.I) cell.I { // A name no other execution uses, for what the interpreter keeps.
		return str.New(common.String(a[0]) + "-" + strconv.Itoa(execution)) // not a symbol: those are remembered
	})
	if f := os.Getenv("MC_PRELUDE"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		for _, c := range parse(string(b)) {
			engine.System(job.Job(0), c)
			mc.Quiesce()
			mc.Daemons()
		}
	}
	mos.Reset()
	mc.Daemons()
	mc.OnEnd(func() {})
	enc := json.NewEncoder(os.Stdout)
	dec := json.NewDecoder(os.Stdin)
	for {
		var p Program
		if err := dec.Decode(&p); err != nil {
			break
		}
		var cmds [][]cell.I
		mc.Restore()
		for _, s := range p.Src {
			cmds = append(cmds, parse(s+"\n"))
		}
		mc.Quiesce()
		mc.Daemons()
		mos.PipeCap, mos.PipeBuf, mos.Fragment = 1<<16, 4096, p.Fragment
		if p.Cap > 0 {
			mos.PipeCap = p.Cap
		}
		if p.PipeBuf > 0 {
			mos.PipeBuf = p.PipeBuf
		}
		mc.Bound = -1
		if p.Bound != nil {
			mc.Bound = *p.Bound
		}
		mc.Loose = p.Loose
		mc.Shared = p.Shared
		f := func() string {
			mos.Reset()
			execution++
			notes, marks, markObj = map[string][]string{}, map[string]int{}, map[string]*mc.Obj{}
			end := ""
			mc.OnRest(func() string {
				out := mos.Text(mos.Stdout)
				if !p.Quiet {
					out += end
				}
				if e := mos.Text(mos.Stderr); e != "" && !p.Quiet {
					out += "\nstderr: " + e
				}
				var ks []string
				for k := range notes {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					out += " " + k + ":" + strings.Join(notes[k], ",")
				}
				if l := mos.Fifos(); l != "" {
					out += "\nleft: " + l
				}
				if p.Show {
					out += "\nlog: " + strings.Join(mos.Log, "; ")
				}
				return out
			})
			if len(p.Keys) > 0 {
				mc.Go(func() { press(p.Keys) })
			}
			res := ""
			for j, cs := range cmds {
				jb := job.New(0)
				for _, c := range cs {
					jb.Append(p.Src[j])
					v, exited := engine.System(jb, c)
					s := "?"
					if v != nil {
						s = show(v)
					}
					res = s
					if exited {
						end = "exit " + res
						return ""
					}
				}
				if p.Keys != nil {
					mos.IoctlSetPointerInt(0, 0, mustGroup())
				}
			}
			end = "= " + res
			return ""
		}
		if p.Schedule != "" {
			out, trace, div := mc.Replay(f, p.Schedule)
			enc.Encode(map[string]interface{}{"key": p.Key, "outcome": out, "trace": trace, "diverged": div})
			continue
		}
		start := time.Now()
		allowed := map[string]bool{}
		for _, s := range p.Stop {
			allowed[s] = true
		}
		rep := mc.Explore(f, func(r *mc.Report) bool {
			if p.Max > 0 && r.Executions >= p.Max {
				return true
			}
			if r.Executions%4 == 0 && resident() > 3<<30 {
				return true
			}
			if p.Seconds > 0 && r.Executions%16 == 0 && time.Since(start).Seconds() > p.Seconds {
				return true
			}
			if len(allowed) > 0 {
				for _, o := range r.Outcomes {
					if o.Status != "done" || !allowed[o.Text] {
						return true
					}
				}
			}
			return false
		})
		enc.Encode(map[string]interface{}{"key": p.Key, "report": rep, "seconds": time.Since(start).Seconds()})
		if rep.Dirty {
			// What is left cannot be used for another program.
			os.Exit(9)
		}
	}
	pprof.StopCPUProfile()
	os.Exit(0)
}

var (
	execution int

	notes   map[string][]string
	marks   map[string]int
	markObj map[string]*mc.Obj
)

func show(v cell.I) (s string) {
	defer func() {
		if recover() != nil {
			s = "<" + v.Name() + ">"
		}
	}()
	return literal.String(v)
}

// resident is the memory this process has, in bytes.
func resident() int {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize()
}

func press(ks []string) {
	for _, k := range ks {
		mos.Type(map[string]syscall.Signal{"int": syscall.SIGINT, "tstp": syscall.SIGTSTP}[k])
	}
}

func markOf(k string) *mc.Obj {
	o := markObj[k]
	if o == nil {
		o = &mc.Obj{Name: "mark " + k}
		markObj[k] = o
	}
	return o
}

func builtin(name string, f func([]cell.I) cell.I) {
	m := &task.Method{Op: task.Action(func(t *task.T) task.Op {
		var a []cell.I
		for c := t.Code(); c != pair.Null; c = pair.Cdr(c) {
			a = append(a, pair.Car(c))
		}
		return t.Return(f(a))
	})}
	engine.System(job.Job(0), list.New(sym.New("define"), sym.New(name), m))
	mc.Quiesce()
	mc.Daemons()
}

func mustGroup() int { n, _ := mos.Getpgid(0); return n }
