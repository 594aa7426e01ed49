// Package mc runs the goroutines of the program under test one at a time, stopping
// before every operation by which they could affect each other, and explores all the
// orders in which those operations can happen (dynamic partial-order reduction with
// sleep sets).
package mc

import (
	"fmt"
	"math/bits"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// ---- Goroutines.

type VC []int32

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v VC) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v VC) copy() VC { return append(VC(nil), v...) }
func (v *VC) set(i int, n int32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = n
}

type G struct {
	id       int
	name     string
	wake     chan struct{}
	gone     chan struct{}
	op       *Op
	alt      int
	done     bool
	dying    bool
	fresh    bool // ways is right
	ways     int
	Ops      int
	from     string
	daemon   bool
	dep, hb  VC
	n        int32
	result   interface{} // handed over by another goroutine
	resultOK bool
	Priv     interface{}
}

// Kinds of access to an object.
const (
	R    = iota // Commutes with other Rs.
	W           // Conflicts with everything.
	RelW        // The end of a W: never possible at the same time as what it orders.
	RelR        // The end of an R.
	T           // A W that is possible at the same time as such an end too.
)

type Foot struct {
	O *Obj
	K uint8
}

type event struct {
	g    int
	n    int32
	node int
}

type Obj struct {
	epoch  int
	Name   string
	lastW  event
	try    bool // lastW was a T
	reads  []event
	rels   []event
	vw, vr VC // what happened before, for ordering
	hw, hr VC // what happened before, by the memory model
}

func (o *Obj) fresh() {
	if o.epoch != epoch {
		*o = Obj{epoch: epoch, Name: o.Name, lastW: event{g: -1}}
	}
}

type Op struct {
	Kind string
	Foot []Foot
	Alts func() int // How many ways it can happen now.
	Run  func(alt int)
	// For a rendezvous: the other goroutine.
	With func(alt int) *G
	recv map[uintptr]int // channels being received from (select case)
	// What to look at while it is not possible, if that is less than Foot.
	Blocked []Foot
	// What it can make possible without being in conflict with it.
	Wakes []*Obj
	// What is touched if it happens this way, if that is less than Foot.
	FootAlt func(alt int) []Foot
	// Joins what it comes after for other reasons than Foot.
	Join func(g *G, alt int)
}

var (
	cur     *G
	all     []*G
	epoch   int = 1
	rootG   *G
	waiting bool // root waits for everybody else
	steps   int
	Budget  = 200000
	crash   string
	running bool // an execution is being explored
	Trace   []string
	Tracing bool
	onEnd   []func()
)

func init() {
	rootG = &G{id: 0, name: "root", wake: make(chan struct{}, 1), daemon: true}
	all = []*G{rootG}
	cur = rootG
}

func Self() *G       { return cur }
func (g *G) ID() int { return g.id }

func always() int { return 1 }

// Do performs the operation op when it is its turn.
func Do(op *Op) {
	g := cur
	if g.dying {
		if strings.HasPrefix(op.Kind, "unlock") {
			return
		}
		runtime.Goexit()
	}
	g.op = op
	g.fresh = false
	g.Ops++
	if op.recv != nil {
		stir()
	}
	if Tracing {
		g.from = " [" + caller() + "]"
	}
	next := pick()
	if next != g {
		hand(next)
		<-g.wake
		if g.dying {
			runtime.Goexit()
		}
	}
	g.op = nil
	if op.Run != nil {
		op.Run(g.alt)
	}
}

func hand(next *G) {
	if next == nil {
		return
	}
	cur = next
	next.wake <- struct{}{}
}

// Go starts a controlled goroutine.
func Go(f func()) {
	if cur.dying {
		return
	}
	spawn(f, "")
	Do(&Op{Kind: "go", Alts: always})
}

func spawn(f func(), name string) *G {
	g := &G{id: len(all), name: name, wake: make(chan struct{}, 1), gone: make(chan struct{})}
	if len(all) >= 64 {
		fail("too many goroutines")
	}
	g.dep, g.hb = cur.dep.copy(), cur.hb.copy()
	all = append(all, g)
	g.op = &Op{Kind: "start", Alts: always}
	go func() {
		<-g.wake
		defer func() {
			normal := g.done
			if !g.dying && !normal {
				if r := recover(); r != nil {
					if crash == "" {
						crash = fmt.Sprintf("panic: %v\n%s", r, stack())
					}
				}
			}
			g.done = true
			g.op = nil
			if g.dying {
				close(g.gone)
				return
			}
			close(g.gone)
			hand(pick())
		}()
		if g.dying {
			return
		}
		g.op = nil
		f()
	}()
	return g
}

func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "zzverif") || strings.Contains(l, "/repo/internal") || strings.Contains(l, ".go:") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, "\n")
}

func fail(s string) {
	fmt.Fprintln(os.Stderr, "mc: "+s)
	os.Exit(3)
}

// ---- Choosing.

type choice struct{ g, alt int }

type node struct {
	enabled uint64   // goroutines
	more    []choice // those that can go on in more than one way, and in how many
	chosen  choice
	back    uint64
	done    uint64
	cont    int // the goroutine that was running
	sleep   []sleeper
	pre     int // preemptions before
	kind    string
}

type sleeper struct {
	g int
	n int // the ways that were there when it was put to sleep
}

var (
	path        []*node
	depth       int
	noRecord    bool // sleep-blocked: run to the end without recording
	diverged    string
	Full        bool // no reduction
	Bound       = -1 // preemptions; -1: unbounded
	Loose       bool // with a bound: do not add what the bound makes necessary
	Pruned      int
	curSleep    []sleeper
	forced      []choice // replay of a given schedule
	transitions int64
	redundant   int64
)

func (n *node) altsOf(g int) int {
	for _, m := range n.more {
		if m.g == g {
			return m.alt
		}
	}
	return int(n.enabled >> uint(g) & 1)
}
func (n *node) has(g int) bool { return n.enabled>>uint(g)&1 != 0 }

// stir: who is ready to receive has changed.
func stir() {
	for _, g := range all {
		if g.op != nil && g.op.With != nil {
			g.fresh = false
		}
	}
}

// dependent reports whether two pending operations cannot be exchanged.
func dependent(a, b []Foot) bool {
	for _, x := range a {
		for _, y := range b {
			if x.O != y.O {
				continue
			}
			if (x.K == R || x.K == RelR) && (y.K == R || y.K == RelR) {
				continue
			}
			return true
		}
	}
	return false
}

func pick() *G {
	last := cur
	if crash != "" {
		return end()
	}
	if running && !noRecord && depth < len(path) {
		// What was done before.
		n := path[depth]
		g := all[n.chosen.g]
		steps++
		if !g.done && g.op != nil && (n.kind == "" || g.op.Kind == n.kind) && g.op.Alts() > n.chosen.alt {
			n.kind = g.op.Kind
			depth++
			replaying = depth < len(path)
			if !replaying {
				curSleep = append(curSleep[:0], n.sleep...)
				for _, x := range all {
					x.fresh = false
				}
			}
			g.alt = n.chosen.alt
			step(g, g.alt)
			return g
		}
		diverged = fmt.Sprintf("at step %d: %d:%s, now %v", depth, n.chosen.g, n.kind, g.opKind())
		noRecord, replaying = true, false
		for _, x := range all {
			x.fresh = false
		}
	}
	var enabled uint64
	more := false
	for _, g := range all {
		if g.done || g.op == nil {
			continue
		}
		if !g.fresh || !running {
			g.ways = g.op.Alts()
			g.fresh = true
			if g.ways == 0 && running && !noRecord {
				// It could have come before what made it impossible.
				if g.op.Blocked != nil {
					races(g, g.op.Blocked)
				} else {
					races(g, g.op.Foot)
				}
			}
		}
		if g.ways > 0 {
			enabled |= 1 << uint(g.id)
			more = more || g.ways > 1
		}
	}
	if enabled == 0 {
		return end()
	}
	steps++
	if steps > Budget {
		crash = "budget: no end in sight"
		return end()
	}
	var ch choice
	def := func(avoid uint64) choice {
		e := enabled &^ avoid
		switch {
		case e == 0:
			return choice{-1, 0}
		case e>>uint(last.id)&1 != 0:
			return choice{last.id, 0}
		}
		return choice{bits.TrailingZeros64(e), 0}
	}
	switch {
	case !running || noRecord:
		ch = def(0)
	case len(forced) > depth:
		ch = forced[depth]
		if enabled>>uint(ch.g)&1 == 0 || all[ch.g].ways <= ch.alt {
			diverged = "the schedule cannot be replayed"
			noRecord = true
			ch = def(0)
		} else {
			depth++
			path = append(path, &node{chosen: ch, enabled: 1 << uint(ch.g)})
		}
	default:
		// A rendezvous can have become possible in more ways.
		k := 0
		var asleep uint64
		for _, s := range curSleep {
			if all[s.g].ways <= s.n {
				curSleep[k] = s
				k++
				asleep |= 1 << uint(s.g)
			}
		}
		curSleep = curSleep[:k]
		ch = def(asleep)
		if ch.g < 0 {
			redundant++
			if debugRaces {
				fmt.Fprintf(os.Stderr, "REDUNDANT at %d: enabled %b asleep %b\n", depth, enabled, asleep)
			}
			noRecord = true
			ch = def(0)
			break
		}
		var n *node
		if cap(path) > len(path) {
			n = path[:len(path)+1][len(path)]
		}
		if n == nil {
			n = &node{}
		} else {
			*n = node{sleep: n.sleep[:0], more: n.more[:0]}
		}
		n.enabled, n.chosen, n.cont, n.kind = enabled, ch, last.id, all[ch.g].op.Kind
		if more {
			for _, g := range all {
				if !g.done && g.op != nil && g.ways > 1 {
					n.more = append(n.more, choice{g.id, g.ways})
				}
			}
		}
		n.sleep = append(n.sleep, curSleep...)
		n.back = 1 << uint(ch.g)
		if Full {
			n.back = enabled
		}
		if len(path) > 0 {
			p := path[len(path)-1]
			n.pre = p.pre
			if p.has(p.cont) && p.chosen.g != p.cont {
				n.pre++
			}
		}
		path = append(path, n)
		depth++
	}
	g := all[ch.g]
	g.alt = ch.alt
	if running {
		step(g, ch.alt)
	}
	return g
}

func wakes(a []Foot, b []*Obj) bool {
	for _, x := range a {
		for _, y := range b {
			if x.O == y {
				return true
			}
		}
	}
	return false
}

// Free is the end of a lock: whoever waits for it can go on. It commutes with everything but what
// it makes possible, so nothing needs to come between it and what went before.
func Free(o *Obj, write bool) {
	g := cur
	if !running {
		return
	}
	o.fresh()
	if write {
		o.vw.join(g.dep)
	} else {
		o.vr.join(g.dep)
	}
	if !replaying {
		for _, x := range all {
			if x.op != nil && x.fresh {
				for _, f := range x.op.Foot {
					if f.O == o {
						x.fresh = false
					}
				}
			}
		}
	}
}

// Again starts the exploration again: something was assumed that does not hold.
func Again() { again = true }

var again, replaying bool

func Dying() bool { return cur.dying }

func (g *G) opKind() string {
	if g.op == nil {
		return "-"
	}
	return fmt.Sprintf("%d:%s", g.id, g.op.Kind)
}

// step records that g's pending operation happens, finds what it races with, and updates what is asleep.
func step(g *G, alt int) {
	transitions++
	op := g.op
	if Tracing {
		s := g.opKind() + g.from
		g.from = ""
		for _, f := range op.Foot {
			s += fmt.Sprintf(" %s/%d@%p", f.O.Name, f.K, f.O)
		}
		if op.Alts != nil && alt > 0 {
			s += fmt.Sprintf(" alt %d", alt)
		}
		Trace = append(Trace, s)
	}
	var with *G
	if op.With != nil {
		with = op.With(alt)
	}
	foot := op.Foot
	if op.FootAlt != nil {
		foot = op.FootAlt(alt)
	}
	g.fresh = false
	if with != nil {
		with.fresh = false
		stir()
	}
	if !replaying {
		for _, x := range all {
			if x.fresh && x.op != nil && (dependent(x.op.Foot, op.Foot) || op.Wakes != nil && wakes(x.op.Foot, op.Wakes)) {
				x.fresh = false
			}
		}
	}
	if !noRecord && !replaying {
		stepping = true // the last entry of the path is this one
		races(g, foot)
		if with != nil {
			races(with, foot)
		}
		stepping = false
		// Whoever is asleep and conflicts with this wakes up.
		k := 0
		for _, s := range curSleep {
			sg := all[s.g]
			if s.g != g.id && sg.op != nil && (with == nil || with.id != s.g) && !dependent(sg.op.Foot, foot) {
				curSleep[k] = s
				k++
			}
		}
		curSleep = curSleep[:k]
	}
	if op.Join != nil {
		op.Join(g, alt)
	}
	g.n++
	g.dep.set(g.id, g.n)
	g.hb.set(g.id, g.n)
	if with != nil {
		with.n++
		with.dep.set(with.id, with.n)
		with.hb.set(with.id, with.n)
		g.dep.join(with.dep)
		with.dep.join(g.dep)
		g.hb.join(with.hb)
		with.hb.join(g.hb)
	}
	ev := event{g.id, g.n, depth - 1}
	for _, f := range foot {
		o := f.O
		o.fresh()
		switch f.K {
		case R:
			g.dep.join(o.vw)
		default:
			g.dep.join(o.vw)
			g.dep.join(o.vr)
		}
	}
	for _, f := range foot {
		o := f.O
		switch f.K {
		case R:
			o.vr.join(g.dep)
			k := 0
			for _, e := range o.reads {
				if e.g != g.id {
					o.reads[k] = e
					k++
				}
			}
			o.reads = append(o.reads[:k], ev)
		case W:
			o.vw.join(g.dep)
			o.lastW = ev
			o.try = false
			o.reads, o.rels = o.reads[:0], o.rels[:0]
		case T:
			o.vw.join(g.dep)
			o.lastW = ev
			o.try = true
			o.reads, o.rels = o.reads[:0], o.rels[:0]
		case RelW:
			o.vw.join(g.dep)
			o.rels = append(o.rels, ev)
		case RelR:
			o.vr.join(g.dep)
			o.rels = append(o.rels, ev)
		}
	}
	if with != nil {
		with.dep.join(g.dep)
	}
	if !noRecord {
		for len(hist) < depth {
			hist = append(hist, happened{})
		}
		h := &hist[depth-1]
		h.g, h.n, h.with = g.id, g.n, -1
		if with != nil {
			h.with, h.withN = with.id, with.n
		}
		h.dep = append(h.dep[:0], g.dep...)
	}
}

// races adds the places where g's pending operation could have come before one it conflicts with.
func races(g *G, foot []Foot) {
	for _, f := range foot {
		o := f.O
		o.fresh()
		if f.K == RelW || f.K == RelR {
			if o.try {
				race(g, o.lastW, foot)
			}
			continue
		}
		if o.lastW.g >= 0 {
			race(g, o.lastW, foot)
		}
		if f.K != R {
			for _, e := range o.reads {
				race(g, e, foot)
			}
		}
		if f.K == T {
			for _, e := range o.rels {
				race(g, e, foot)
			}
		}
	}
}

// What happened at every node of this execution.
type happened struct {
	g, with  int
	n, withN int32
	dep      VC
}

var hist []happened
var firstN [64]int32

// race: g's pending operation, with footprint foot, could have come before e. What has to be tried
// there is any of those who can come first in what does not depend on e, followed by that operation.
func race(g *G, e event, foot []Foot) {
	if e.g == g.id || g.dep.at(e.g) >= e.n || e.node < 0 || e.node >= len(path) {
		return
	}
	n := path[e.node]
	if Bound >= 0 && !Loose {
		// Also where the one that was running then began to: switching there may be within the bound.
		add := func(n *node) {
			if n.has(g.id) {
				n.back |= 1 << uint(g.id)
			} else {
				n.back |= n.enabled
			}
		}
		add(n)
		for j := e.node; j >= 0; j-- {
			if m := path[j]; m.chosen.g != m.cont || !m.has(m.cont) {
				add(m)
				break
			}
		}
		return
	}
	if n.back == n.enabled {
		return
	}
	if fgOnly {
		if n.has(g.id) {
			n.back |= 1 << uint(g.id)
		} else {
			n.back |= n.enabled
		}
		return
	}
	var seen, initial uint64
	for j := e.node + 1; j < depth && j < len(hist); j++ {
		h := &hist[j]
		if j == depth-1 && stepping {
			break
		}
		if h.dep.at(e.g) >= e.n {
			continue
		}
		bit := uint64(1) << uint(h.g)
		if seen&bit == 0 {
			first := true
			for m := seen; m != 0; m &= m - 1 {
				r := bits.TrailingZeros64(m)
				if h.dep.at(r) >= firstN[r] {
					first = false
					break
				}
			}
			if first && (h.with < 0 || seen>>uint(h.with)&1 == 0) {
				initial |= bit
			}
			seen |= bit
			firstN[h.g] = h.n
		}
		if h.with >= 0 && seen>>uint(h.with)&1 == 0 {
			seen |= 1 << uint(h.with)
			firstN[h.with] = h.withN
		}
	}
	if seen>>uint(g.id)&1 == 0 {
		first := true
		for m := seen; m != 0 && first; m &= m - 1 {
			r := bits.TrailingZeros64(m)
			if g.dep.at(r) >= firstN[r] {
				first = false
			}
			for _, f := range foot {
				if f.O.vw.at(r) >= firstN[r] || f.K != R && f.O.vr.at(r) >= firstN[r] {
					first = false
				}
			}
		}
		if first && n.has(g.id) {
			initial |= 1 << uint(g.id)
		}
	}
	if n.back&initial != 0 {
		return
	}
	if debugRaces {
		fmt.Fprintf(os.Stderr, "RACE node %d %d:%s with %d:%s initial %b enabled %b foot %p %s\n", e.node, e.g, n.kind, g.id, g.op.Kind, initial, n.enabled, foot[0].O, caller())
	}
	if initial &= n.enabled; initial != 0 {
		if initial>>uint(g.id)&1 != 0 {
			n.back |= 1 << uint(g.id)
		} else {
			n.back |= initial & -initial
		}
		return
	}
	n.back |= n.enabled
}

var fgOnly = os.Getenv("MC_FG") != ""
var debugRaces = os.Getenv("MC_RACES") != ""
var stepping bool

// end: nothing can happen any more.
func end() *G {
	if running && !noRecord {
		for _, g := range all {
			if !g.done && g.op != nil {
				races(g, g.op.Foot)
			}
		}
	}
	if waiting {
		waiting = false
		return rootG
	}
	if rootG.op != nil {
		fail("the harness is stuck: " + rootG.op.Kind + " " + crash + "\n" + Blocked())
	}
	return nil
}

// Blocked lists what every goroutine waits for.
func Blocked() string {
	s := ""
	for _, g := range all {
		if !g.done && g.op != nil && g != rootG {
			s += fmt.Sprintf("%s%s ", g.name, g.opKind())
		}
	}
	return strings.TrimSpace(s)
}

// Quiesce lets everybody else run until nothing can happen (used by the root only).
func Quiesce() {
	waiting = true
	rootG.op = &Op{Kind: "quiesce", Alts: func() int { return 0 }}
	next := pick()
	if next != rootG {
		hand(next)
		<-rootG.wake
	}
	cur = rootG
	rootG.op = nil
}

// ---- Executions.

type Outcome struct {
	Text       string `json:"text"`
	Status     string `json:"status"` // done, deadlock, crash
	Detail     string `json:"detail"`
	Schedule   string `json:"schedule"`
	Executions int    `json:"executions"`
	Blocked    string `json:"blocked"`
}

type Report struct {
	Outcomes    []*Outcome `json:"outcomes"`
	Executions  int64      `json:"executions"`
	Redundant   int64      `json:"redundant"`
	Transitions int64      `json:"transitions"`
	MaxDepth    int        `json:"max_depth"`
	Exhausted   bool       `json:"exhausted"`
	Pruned      int        `json:"pruned"`
	Diverged    string     `json:"diverged"`
	Races       []string   `json:"races"`
	Dirty       bool       `json:"dirty"`
}

// Daemons marks everything that runs now as there for good.
func Daemons() {
	k := 0
	for _, g := range all {
		if !g.done {
			g.id = k
			all[k] = g
			g.daemon = true
			k++
		}
	}
	all = all[:k]
	resting = nil
	for _, g := range all {
		if g.op != nil {
			resting = append(resting, g.op.Kind)
		} else {
			resting = append(resting, "")
		}
	}
	snapshot()
}

var resting []string

// OnRest gives the text of the outcome when nothing can happen any more.
func OnRest(f func() string) { onRest = f }

var onRest func() string

// KeepGoing says that a crash leaves nothing behind.
var KeepGoing bool

// Epoch is different in every execution.
func Epoch() int { return epoch }

func OnEnd(f func()) { onEnd = append(onEnd, f) }

// one runs f once; finish is called when it has come to rest.
func one(f func() string) (out Outcome, clean bool) {
	epoch++
	steps, depth, crash = 0, 0, ""
	noRecord, replaying = false, false
	for _, g := range all {
		g.fresh = false
	}
	curSleep = curSleep[:0]
	Trace = Trace[:0]
	restore()
	resetChans()
	for _, g := range all {
		g.dep, g.hb, g.n = nil, nil, 0
	}
	cur = rootG
	text, finished := "", false
	running = true
	g := spawn(func() { text = f(); finished = true }, "main")
	_ = g
	Quiesce()
	running = false
	if onRest != nil {
		text, onRest = onRest(), nil
	}
	out.Text, out.Status = text, "done"
	if !finished {
		out.Status = "deadlock"
		out.Blocked = Blocked()
	}
	if crash != "" {
		out.Text = ""
		out.Status = "crash"
		out.Detail = crash
		if strings.HasPrefix(crash, "budget") {
			out.Status = "budget"
		}
	}
	clean = crash == "" || KeepGoing
	for i, k := range resting {
		g := all[i]
		if i > 0 && (g.done || g.op == nil || g.op.Kind != k) {
			clean = false
		}
	}
	// Put an end to what is left.
	for i := len(all) - 1; i >= len(resting); i-- {
		g := all[i]
		if !g.done {
			g.dying = true
			cur = g
			g.wake <- struct{}{}
			<-g.gone
		}
	}
	cur = rootG
	all = all[:len(resting)]
	for _, f := range onEnd {
		f()
	}
	return
}

// schedule is who did what: goroutine, alternative if not the first, how many times in a row.
func schedule() string {
	var s []string
	for i := 0; i < len(path); {
		c := path[i].chosen
		j := i
		for j < len(path) && path[j].chosen == c {
			j++
		}
		t := strconv.Itoa(c.g)
		if c.alt > 0 {
			t += "." + strconv.Itoa(c.alt)
		}
		if j-i > 1 {
			t += "*" + strconv.Itoa(j-i)
		}
		s = append(s, t)
		i = j
	}
	return strings.Join(s, " ")
}

func parseSchedule(s string) (cs []choice) {
	for _, w := range strings.Fields(s) {
		k := 1
		if i := strings.Index(w, "*"); i >= 0 {
			k, _ = strconv.Atoi(w[i+1:])
			w = w[:i]
		}
		c := choice{}
		if i := strings.Index(w, "."); i >= 0 {
			c.alt, _ = strconv.Atoi(w[i+1:])
			w = w[:i]
		}
		c.g, _ = strconv.Atoi(w)
		for ; k > 0; k-- {
			cs = append(cs, c)
		}
	}
	return
}

// Explore runs f under every schedule, until stop says otherwise. Classify may merge texts.
func Explore(f func() string, stop func(*Report) bool) *Report {
	rep := &Report{}
	path = nil
	forced = nil
	transitions, redundant, Pruned = 0, 0, 0
	raceSeen = map[string]bool{}
	byKey := map[string]*Outcome{}
	retries := 0
	debug.SetGCPercent(-1)
	sinceGC := 0
	for i := 0; ; i++ {
		if sinceGC += len(path) + 1; i%64 == 63 || sinceGC > 20000 {
			sinceGC = 0
			runtime.GC()
		}
		diverged = ""
		out, clean := one(f)
		if diverged != "" {
			retries++
			if retries > 20 {
				rep.Diverged = diverged
				break
			}
			if !clean {
				rep.Dirty = true
				break
			}
			continue
		}
		if again {
			again = false
			path = nil
			rep, byKey = &Report{}, map[string]*Outcome{}
			transitions, redundant, Pruned = 0, 0, 0
			if clean {
				continue
			}
			rep.Dirty = true
			break
		}
		rep.Executions++
		key := out.Status + "\x00" + out.Text
		if out.Status != "done" {
			key += "\x00" + out.Detail
		}
		o := byKey[key]
		if o == nil {
			if !noRecord || len(byKey) == 0 {
				out.Schedule = schedule()
			}
			c := out
			o = &c
			byKey[key] = o
			rep.Outcomes = append(rep.Outcomes, o)
		} else if o.Schedule == "" && !noRecord {
			o.Schedule = schedule()
		}
		o.Executions++
		if len(path) > rep.MaxDepth {
			rep.MaxDepth = len(path)
		}
		rep.Redundant, rep.Transitions = redundant, transitions
		if !clean {
			rep.Dirty = true
			break
		}
		if stop != nil && stop(rep) {
			break
		}
		if !backtrack() {
			rep.Exhausted = true
			break
		}
	}
	for r := range raceSeen {
		rep.Races = append(rep.Races, r)
	}
	sort.Strings(rep.Races)
	rep.Pruned = Pruned
	return rep
}

// Replay runs f once under the schedule s.
func Replay(f func() string, s string) (Outcome, []string, string) {
	path, forced = nil, nil
	raceSeen = map[string]bool{}
	forced = parseSchedule(s)
	diverged = ""
	Tracing = true
	out, _ := one(f)
	return out, Trace, diverged
}

func backtrack() bool {
	for len(path) > 0 {
		n := path[len(path)-1]
		if n.chosen.alt+1 < n.altsOf(n.chosen.g) {
			n.chosen.alt++
			return true
		}
		n.done |= 1 << uint(n.chosen.g)
		if !Full && (Bound < 0 || Loose) {
			n.sleep = append(n.sleep, sleeper{n.chosen.g, n.altsOf(n.chosen.g)})
		}
		todo := n.back & n.enabled &^ n.done
		for _, s := range n.sleep {
			todo &^= 1 << uint(s.g)
		}
		for ; todo != 0; todo &= todo - 1 {
			e := bits.TrailingZeros64(todo)
			if Bound >= 0 && e != n.cont && n.has(n.cont) && n.pre >= Bound {
				Pruned++
				n.done |= 1 << uint(e)
				continue
			}
			n.chosen = choice{e, 0}
			n.kind = ""
			return true
		}
		path = path[:len(path)-1]
	}
	return false
}

// ---- Package variables, put back between executions.

type saved struct {
	v    reflect.Value
	val  reflect.Value
	m    map[interface{}]reflect.Value
	kind int
}

var (
	globals     []reflect.Value
	globalNames []string
	snaps       []saved
)

func Global(name string, p interface{}) {
	v := reflect.ValueOf(p).Elem()
	globals = append(globals, v)
	globalNames = append(globalNames, name)
}

func snapshot() {
	snaps = nil
	for _, v := range globals {
		s := saved{v: v}
		// Copied at the top level; a map's entries too.
		if v.Kind() == reflect.Struct {
			continue // locks and the like
		}
		s.val = reflect.New(v.Type()).Elem()
		s.val.Set(reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem())
		if v.Kind() == reflect.Map && !v.IsNil() {
			s.m = map[interface{}]reflect.Value{}
			it := s.val.MapRange()
			for it.Next() {
				s.m[it.Key().Interface()] = it.Value()
			}
		}
		if v.Kind() == reflect.Slice && !v.IsNil() {
			c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(c, s.val)
			s.val = c
		}
		snaps = append(snaps, s)
	}
}

// Restore puts the package variables back as they were at the last call of Daemons.
func Restore() { restore() }

func restore() {
	for _, s := range snaps {
		p := reflect.NewAt(s.v.Type(), unsafe.Pointer(s.v.UnsafeAddr())).Elem()
		if s.m != nil {
			m := s.val
			it := m.MapRange()
			var gone []reflect.Value
			for it.Next() {
				if _, ok := s.m[it.Key().Interface()]; !ok {
					gone = append(gone, it.Key())
				}
			}
			for _, k := range gone {
				m.SetMapIndex(k, reflect.Value{})
			}
			for k, v := range s.m {
				m.SetMapIndex(reflect.ValueOf(k), v)
			}
		}
		if s.v.Kind() == reflect.Slice && !s.val.IsNil() {
			c := reflect.MakeSlice(s.v.Type(), s.val.Len(), s.val.Len())
			reflect.Copy(c, s.val)
			p.Set(c)
			continue
		}
		p.Set(s.val)
	}
}

// ---- Odds and ends.

func SetFinalizer(interface{}, interface{}) {}
func Gosched()                              { Do(&Op{Kind: "gosched", Alts: always}) }
func GC()                                   {}

// Choose is a choice the environment makes.
func Choose(n int) int {
	if n <= 1 || !running {
		return 0
	}
	r := 0
	Do(&Op{Kind: "choose", Alts: func() int { return n }, Run: func(a int) { r = a }})
	return r
}

// Keys returns m's keys in a fixed order, and m.
func Keys[M ~map[K]V, K comparable, V any](m M) ([]K, M) {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return rank(ks[i], ks[j]) })
	return ks, m
}

var keyIDs = map[uintptr]int{}

func Key[K any](k K) K {
	v := reflect.ValueOf(k)
	if v.IsValid() && v.Kind() == reflect.Ptr {
		if _, ok := keyIDs[v.Pointer()]; !ok {
			keyIDs[v.Pointer()] = len(keyIDs)
		}
	}
	return k
}
func rank(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return x.Int() < y.Int()
	case reflect.String:
		return x.String() < y.String()
	case reflect.Ptr:
		i, ok := keyIDs[x.Pointer()]
		j, ok2 := keyIDs[y.Pointer()]
		if ok && ok2 {
			return i < j
		}
		return x.Pointer() < y.Pointer()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// ---- Shared memory.

type shadow struct {
	epoch int
	w     event
	wWhat string
	rs    []event
}

var (
	shadows  = map[unsafe.Pointer]*shadow{} // pointers, so that no variable accessed lives on a stack that another goroutine gets
	raceSeen = map[string]bool{}
	Shared   bool
	shadowEp int
)

func access(p unsafe.Pointer, w bool) {
	if !running || !Shared || cur.dying {
		return
	}
	if shadowEp != epoch {
		shadowEp = epoch
		shadows = map[unsafe.Pointer]*shadow{}
	}
	s := shadows[p]
	if s == nil {
		s = &shadow{w: event{g: -1}}
		shadows[p] = s
	}
	g := cur
	me := event{g.id, g.n, 0}
	if s.w.g >= 0 && s.w.g != g.id && g.hb.at(s.w.g) < s.w.n {
		report(s.wWhat, w, "write")
	}
	if w {
		for _, e := range s.rs {
			if e.g != g.id && g.hb.at(e.g) < e.n {
				report("", w, "read")
			}
		}
		s.rs = s.rs[:0]
		s.w = me
		s.wWhat = site2()
		return
	}
	for i, e := range s.rs {
		if e.g == g.id {
			s.rs[i] = me
			return
		}
	}
	s.rs = append(s.rs, me)
}

func report(other string, w bool, kind string) {
	k := "read"
	if w {
		k = "write"
	}
	r := fmt.Sprintf("%s in %s races with %s %s", k, site2(), kind, other)
	raceSeen[r] = true
}
func site2() string {
	var pcs [8]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "zzverif/mc.") {
			i := strings.LastIndex(f.Function, "/")
			return f.Function[i+1:]
		}
		if !more {
			return "?"
		}
	}
}

func Rd[T any](p *T) *T {
	if Shared {
		access(unsafe.Pointer(p), false)
	}
	return p
}
func Wr[T any](p *T) *T {
	if Shared {
		access(unsafe.Pointer(p), true)
	}
	return p
}

// bump: what g does next is not covered by what it handed on.
func bump(g *G) {
	g.n++
	g.hb.set(g.id, g.n)
	g.dep.set(g.id, g.n)
}

// Acquire and Release are the edges of the memory model made by a lock.
func Acquire(o *Obj, w bool) {
	o.fresh()
	cur.hb.join(o.hw)
	if w {
		cur.hb.join(o.hr)
	}
}
func Release(o *Obj, w bool) {
	o.fresh()
	if w {
		o.hw.join(cur.hb)
	} else {
		o.hr.join(cur.hb)
	}
	// What comes next is not covered by this release.
	bump(cur)
}

// Fatal is what nothing recovers from.
func Fatal(s string) {
	if crash == "" {
		crash = s + "\n" + stack()
	}
	Do(&Op{Kind: "fatal", Alts: func() int { return 0 }})
}

// Token is what happened before something, to be joined by what it makes possible.
type Token struct{ dep, hb VC }

// NewToken is taken in an operation.
func NewToken() Token {
	t := Token{cur.dep.copy(), cur.hb.copy()}
	bump(cur)
	return t
}
func (t Token) Join(g *G) {
	g.dep.join(t.dep)
	g.hb.join(t.hb)
}
func (t *Token) Merge(o Token) {
	t.dep.join(o.dep)
	t.hb.join(o.hb)
}

// caller is where in the program an operation comes from.
func caller() string {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	s := ""
	for k := 0; k < 4; {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "zzverif/m") {
			i := strings.LastIndex(f.Function, "/")
			s += f.Function[i+1:] + " < "
			k++
		}
		if !more {
			break
		}
	}
	return strings.TrimSuffix(s, " < ")
}
