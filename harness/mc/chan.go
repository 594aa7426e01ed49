package mc

import (
	"reflect"
)

type item struct {
	v       interface{}
	hb, dep VC
}

// What a channel is for the scheduler: the order of its sends and the order of its receives.
// A send and a receive of a buffered channel that are both possible can be exchanged.
type chanState struct {
	s, r   Obj
	keep   interface{}
	q      []item
	cap    int
	closed bool
	cl     item
	room   []item // the receives, for the sends they make room for
	perm   bool
}

var chans = map[uintptr]*chanState{}

func resetChans() {
	for p, c := range chans {
		if !c.perm {
			if running0 {
				delete(chans, p)
			}
		}
	}
	keyIDsReset()
	for _, c := range chans {
		c.room, c.cl.hb, c.cl.dep = nil, nil, nil
		for i := range c.q {
			c.q[i].hb, c.q[i].dep = nil, nil
		}
	}
}

var running0 bool
var baseKeys int

func keyIDsReset() {
	if !running0 {
		running0 = true
		for _, c := range chans {
			c.perm = true
		}
		baseKeys = len(keyIDs)
		return
	}
	for k, v := range keyIDs {
		if v >= baseKeys {
			delete(keyIDs, k)
		}
	}
}

func state(c interface{}) *chanState {
	v := reflect.ValueOf(c)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	s := chans[p]
	if s == nil {
		s = &chanState{keep: c, cap: v.Cap()}
		s.s.Name, s.r.Name = "send", "recv"
		chans[p] = s
	}
	return s
}

func never() int { return 0 }

// receivers lists who waits to receive from s, with the number of the case.
func (s *chanState) receivers(me *G) []*G {
	var r []*G
	for _, g := range all {
		if g != me && !g.done && g.op != nil && g.op.recv != nil {
			if _, ok := g.op.recv[s.id()]; ok {
				r = append(r, g)
			}
		}
	}
	return r
}
func (s *chanState) id() uintptr { return reflect.ValueOf(s).Pointer() }

// give completes g's receive.
func (s *chanState) give(g *G, v interface{}) {
	i := g.op.recv[s.id()]
	g.result, g.resultOK = v, true
	kind := "received"
	g.op = &Op{Kind: kind, Alts: always}
	g.fresh = false
	g.alt = 0
	g.Priv = i
}

func (s *chanState) joinSend(g *G) {
	// The receive that made room happened before.
	if len(s.room) > 0 {
		g.dep.join(s.room[0].dep)
		g.hb.join(s.room[0].hb)
	}
}
func (s *chanState) joinRecv(g *G) {
	it := s.cl
	if len(s.q) > 0 {
		it = s.q[0]
	}
	g.dep.join(it.dep)
	g.hb.join(it.hb)
}
func (s *chanState) push(v interface{}) {
	g := Self()
	if len(s.room) > 0 {
		s.room = s.room[1:]
	}
	s.q = append(s.q, item{v, g.hb.copy(), g.dep.copy()})
	bump(g)
}
func (s *chanState) pop() (interface{}, bool) {
	g := Self()
	if len(s.q) == 0 {
		return nil, false
	}
	it := s.q[0]
	s.q = s.q[1:]
	if len(s.q) == s.cap-1 || len(s.room) > 0 {
		s.room = append(s.room, item{nil, g.hb.copy(), g.dep.copy()})
	}
	bump(g)
	return it.v, true
}
func both(s *chanState) []Foot { return []Foot{{&s.s, W}, {&s.r, W}} }

// SendTo returns what sends to c. A value is converted to the channel's element type.
func SendTo[C ~chan E | ~chan<- E, E any](c C) func(E) { return func(v E) { send(c, v) } }

func Send[C ~chan E, E any](c C, v E) { send(c, v) }

func send(c, v interface{}) {
	s := state(c)
	if s == nil {
		Do(&Op{Kind: "send nil", Alts: never})
		return
	}
	me := Self()
	op := &Op{Kind: "send", Foot: both(s)}
	if s.cap > 0 {
		op.Foot, op.Wakes = op.Foot[:1], []*Obj{&s.r}
		op.Join = func(g *G, _ int) { s.joinSend(g) }
		op.Alts = func() int {
			if s.closed || len(s.q) < s.cap {
				return 1
			}
			return 0
		}
		op.Run = func(int) {
			if s.closed {
				panic("send on closed channel")
			}
			s.push(v)
		}
	} else {
		op.Alts = func() int {
			if s.closed {
				return 1
			}
			return len(s.receivers(me))
		}
		op.With = func(alt int) *G {
			if s.closed {
				return nil
			}
			return s.receivers(me)[alt]
		}
		op.Run = func(alt int) {
			if s.closed {
				panic("send on closed channel")
			}
			r := s.receivers(me)[alt]
			s.give(r, v)
		}
	}
	Do(op)
}

func Recv[C ~chan E | ~<-chan E, E any](c C) E {
	v, _ := Recv2[C, E](c)
	return v
}

func Recv2[C ~chan E | ~<-chan E, E any](c C) (E, bool) {
	var zero E
	s := state(c)
	if s == nil {
		Do(&Op{Kind: "recv nil", Alts: never})
		return zero, false
	}
	g := Self()
	g.Priv = nil
	g.result = nil
	var v interface{}
	ok := false
	op := &Op{Kind: "recv", Foot: both(s)}
	if s.cap > 0 {
		op.Foot, op.Wakes = op.Foot[1:], []*Obj{&s.s}
	}
	op.Join = func(g *G, _ int) {
		if g.Priv == nil {
			s.joinRecv(g)
		}
	}
	op.Alts = func() int {
		if s.closed || len(s.q) > 0 {
			return 1
		}
		return 0
	}
	if s.cap == 0 {
		op.recv = map[uintptr]int{s.id(): 0}
		op.FootAlt = func(int) []Foot {
			if g.Priv == nil { // closed
				return []Foot{{&s.r, R}}
			}
			return op.Foot
		}
	}
	got := false
	op.Run = func(int) {
		if g.Priv != nil { // handed over by a sender
			got = true
			return
		}
		v, ok = s.pop()
	}
	Do(op)
	if got {
		v, ok = g.result, true
		g.Priv, g.result = nil, nil
	}
	if v == nil {
		return zero, ok
	}
	e, _ := v.(E)
	return e, ok
}

func Close[C ~chan E | ~chan<- E, E any](c C) {
	s := state(c)
	if s == nil {
		panic("close of nil channel")
	}
	Do(&Op{Kind: "close", Foot: []Foot{{&s.s, W}, {&s.r, RelW}}, Alts: always, Run: func(int) {
		if s.closed {
			panic("close of closed channel")
		}
		s.closed = true
		s.cl = item{nil, Self().hb.copy(), Self().dep.copy()}
		bump(Self())
	}})
}

func Len(c interface{}) int {
	s := state(c)
	if s == nil {
		return 0
	}
	n := 0
	Do(&Op{Kind: "len", Foot: both(s), Alts: always, Run: func(int) { n = len(s.q) }})
	return n
}
func Cap(c interface{}) int { return reflect.ValueOf(c).Cap() }

// TrySend is what the system does with a signal: it is dropped if there is no room. For use in an operation.
func TrySend[E any](c chan E, v E) bool {
	s := state(c)
	if s.cap > 0 && !s.closed && len(s.q) < s.cap {
		s.q = append(s.q, item{v, nil, nil})
		return true
	}
	return false
}
func ChanFoot[E any](c chan E) []Foot { return both(state(c)) }

// ---- Select.

type Case struct {
	s    *chanState
	send bool
	v    interface{}
}
type Sel struct {
	I  int
	V  interface{}
	OK bool
}

func CaseSend[C ~chan E, E any](c C, v E) Case { return Case{state(c), true, v} }
func CaseSendTo[C ~chan E | ~chan<- E, E any](c C) func(E) Case {
	return func(v E) Case { return Case{state(c), true, v} }
}
func CaseRecv[C ~chan E | ~<-chan E, E any](c C) Case      { return Case{state(c), false, nil} }

func Select(def bool, cases ...Case) Sel {
	g := Self()
	g.Priv, g.result = nil, nil
	op := &Op{Kind: "select"}
	op.recv = map[uintptr]int{}
	for i, c := range cases {
		if c.s == nil {
			continue
		}
		if def {
			op.Foot = append(op.Foot, Foot{&c.s.s, T}, Foot{&c.s.r, T})
		} else {
			op.Foot = append(op.Foot, both(c.s)...)
		}
		if !c.send && c.s.cap == 0 {
			op.recv[c.s.id()] = i
		}
	}
	type way struct {
		i int
		r *G
	}
	var ws []way
	ready := func() []way {
		ws = ws[:0]
		for i, c := range cases {
			s := c.s
			if s == nil {
				continue
			}
			switch {
			case s.closed,
				!c.send && len(s.q) > 0,
				c.send && s.cap > 0 && len(s.q) < s.cap:
				ws = append(ws, way{i, nil})
			case c.send && s.cap == 0:
				for _, r := range s.receivers(g) {
					ws = append(ws, way{i, r})
				}
			}
		}
		if len(ws) == 0 && def {
			ws = append(ws, way{-1, nil})
		}
		return ws
	}
	op.Alts = func() int { return len(ready()) }
	// Another send on the channel that was chosen could have come before as well as after.
	op.FootAlt = func(alt int) []Foot {
		if g.Priv != nil || def {
			return op.Foot
		}
		i := ready()[alt].i
		if i < 0 || cases[i].send || cases[i].s.cap == 0 || cases[i].s.closed {
			return op.Foot
		}
		var fs []Foot
		for _, f := range op.Foot {
			if f.O != &cases[i].s.s {
				fs = append(fs, f)
			}
		}
		return fs
	}
	op.Join = func(g *G, alt int) {
		if g.Priv != nil {
			return
		}
		i := ready()[alt].i
		if i < 0 {
			return
		}
		if c := cases[i]; c.send && c.s.cap > 0 {
			c.s.joinSend(g)
		} else if !c.send {
			c.s.joinRecv(g)
		}
	}
	op.With = func(alt int) *G {
		r := ready()
		if alt >= len(r) {
			return nil
		}
		return r[alt].r
	}
	res := Sel{I: -1}
	op.Run = func(alt int) {
		if g.Priv != nil {
			res = Sel{g.Priv.(int), g.result, true}
			g.Priv, g.result = nil, nil
			return
		}
		w := ready()[alt]
		if w.i < 0 {
			return
		}
		c := cases[w.i]
		res.I = w.i
		switch {
		case c.send && c.s.closed:
			panic("send on closed channel")
		case c.send && c.s.cap == 0:
			c.s.give(w.r, c.v)
		case c.send:
			c.s.push(c.v)
		default:
			res.V, res.OK = c.s.pop()
		}
	}
	Do(op)
	return res
}

func SelVal[C ~chan E | ~<-chan E, E any](c C, s Sel) E {
	var zero E
	if s.V == nil {
		return zero
	}
	e, _ := s.V.(E)
	return e
}
func SelVal2[C ~chan E | ~<-chan E, E any](c C, s Sel) (E, bool) { return SelVal[C, E](c, s), s.OK }
