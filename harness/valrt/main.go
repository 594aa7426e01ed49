// Bounded-exhaustive round trips of values through write and read.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/conduit"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
	"github.com/michaelmacinnis/oh/internal/common/type/status"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
)

// A value of the model: a kind and a text, or a pair.
type val struct {
	kind byte // y s n t 0 c
	text string
	a, d *val
}

func (v *val) show() string {
	switch v.kind {
	case '0':
		return "()"
	case 'c':
		return "<" + v.a.show() + " . " + v.d.show() + ">"
	}
	return string(v.kind) + strconv.Quote(v.text)
}

func (v *val) build() cell.I {
	switch v.kind {
	case 'y':
		return sym.New(v.text)
	case 's':
		return str.New(v.text)
	case 'n':
		return num.New(v.text)
	case 't':
		return status.New(v.text)
	case 'c':
		return pair.Cons(v.a.build(), v.d.build())
	}
	return pair.Null
}

func show(c cell.I, depth int) string {
	switch {
	case depth > 60:
		return "?deep"
	case c == nil:
		return "?nil"
	case c == pair.Null:
		return "()"
	case sym.Is(c):
		return "y" + strconv.Quote(sym.To(c).String())
	case str.Is(c):
		return "s" + strconv.Quote(str.To(c).String())
	case num.Is(c):
		return "n" + strconv.Quote(num.To(c).String())
	case status.Is(c):
		return "t" + strconv.Quote(status.To(c).String())
	case pair.Is(c):
		var b strings.Builder
		n := 0
		for ; pair.Is(c) && c != pair.Null && n < 100000; n++ {
			b.WriteString("<" + show(pair.Car(c), depth+1) + " . ")
			c = pair.Cdr(c)
		}
		return b.String() + show(c, depth+1) + strings.Repeat(">", n)
	}
	return "?" + c.Name()
}

var (
	r, w *os.File
	p    cell.I
)

func fresh() {
	var err error
	r, w, err = os.Pipe()
	if err != nil {
		panic(err)
	}
	p = pipe.New(r, w)
}

// trip writes the arguments as one record and reads it back, or says what went wrong.
func trip(vs []*val, lines bool) (got string) {
	defer func() {
		if e := recover(); e != nil {
			got = fmt.Sprint("threw ", e)
			pipe.To(p).Close()
			fresh()
		}
	}()
	l := pair.Null
	for i := len(vs) - 1; i >= 0; i-- {
		l = pair.Cons(vs[i].build(), l)
	}
	c := conduit.To(p)
	c.Write(l)
	if lines {
		s := str.To(c.ReadLine()).String()
		if strings.ContainsAny(s, "\n") {
			return "more than one line"
		}
		// Put it back for the reader.
		if _, err := w.WriteString(s + "\n"); err != nil {
			panic(err)
		}
	}
	// A second record shows that exactly one line was consumed.
	c.WriteLine(sym.New("next"))
	g := show(c.Read(), 0)
	n := c.ReadLine()
	if !str.Is(n) || str.To(n).String() != "next" {
		got = g + ", not one line"
		pipe.To(p).Close()
		fresh()
		return got
	}
	return g
}

type violation struct{ Key, What, Want, Got string }

var rep struct {
	Cases, Distinct int
	Violations      []violation
	Samples         []string
}

func check(vs []*val, lines bool) {
	rep.Cases++
	var l = &val{kind: '0'}
	for i := len(vs) - 1; i >= 0; i-- {
		l = &val{kind: 'c', a: vs[i], d: l}
	}
	want := l.show()
	if rep.Cases%9973 == 1 && len(rep.Samples) < 3 {
		rep.Samples = append(rep.Samples, want)
	}
	if got := trip(vs, lines); got != want && len(rep.Violations) < 20 {
		again := trip(vs, lines)
		if again == got {
			rep.Violations = append(rep.Violations, violation{want, "written and read back", want, got})
		}
	}
}

var chars = []string{"a", "b1", " ", "\n", "\t", "'", "\"", "\\", "$", "(", ")", "{", "}", "|", "&", ";", "<", ">", "`", "#", "~", "*", "?", "[", "=", ".", "/", ":", ",", "@", "-", "+", "%", "^", "!", "_", "é", "→", "\x01", "\x7f", "\r", "\x1b", "\x00", "\u00a0", "\u200b", "\U0001F600", "\x80", "\xff"}
var plain = []string{"a", "Z9", " ", "\n", "\t", "\\", "*", "?", "[", "-", "+", "%", "^", "!", "_", "é", "→", "\x01", "\x7f", "\r", "\x1b", "\u00a0", "\U0001F600", "1", "\x80"}
var nums = []string{"0", "1", "-1", "1/2", "-3/4", "123456789012345678901234567890", "1/123456789012345678901234567890", "255", "10"}

func leaves(small bool) (ls []*val) {
	ls = append(ls, &val{kind: '0'})
	if small {
		for _, s := range []string{"a", "true", "", "x y", "\n"} {
			ls = append(ls, &val{kind: 'y', text: s})
		}
		for _, s := range []string{"a", "", " ", "()", "|)", "(|cons 1 2|)", "'\"\n"} {
			ls = append(ls, &val{kind: 's', text: s})
		}
		for _, s := range []string{"0", "-1/2"} {
			ls = append(ls, &val{kind: 'n', text: s}, &val{kind: 't', text: s})
		}
	} else {
		for _, s := range []string{"a", "", "x y"} {
			ls = append(ls, &val{kind: 'y', text: s})
		}
		ls = append(ls, &val{kind: 's', text: "("}, &val{kind: 'n', text: "1/2"}, &val{kind: 't', text: "0"})
	}
	return
}

// trees calls f with every tree of exactly n pairs over the leaves.
func trees(n int, ls []*val, f func(*val)) {
	if n == 0 {
		for _, l := range ls {
			f(l)
		}
		return
	}
	for i := 0; i < n; i++ {
		trees(i, ls, func(a *val) {
			trees(n-1-i, ls, func(d *val) { f(&val{kind: 'c', a: a, d: d}) })
		})
	}
}

func words(alpha []string, n int, f func(string)) {
	if n == 0 {
		f("")
		return
	}
	words(alpha, n-1, func(s string) {
		for _, c := range alpha {
			f(s + c)
		}
	})
}

func main() {
	fam := flag.String("fam", "", "")
	n := flag.Int("n", 1, "")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	flag.Duration("budget", 0, "")
	flag.Parse()
	fresh()
	count := 0
	mine := func() bool { count++; return count%*of == *shard }
	switch *fam {
	case "strings":
		words(chars, *n, func(s string) {
			if mine() {
				check([]*val{{kind: 's', text: s}}, true)
			}
		})
	case "symbols":
		words(plain, *n, func(s string) {
			if mine() {
				check([]*val{{kind: 'y', text: s}}, true)
				check([]*val{{kind: 'y', text: "f"}, {kind: 'y', text: s}, {kind: 'y', text: "g"}}, false)
			}
		})
	case "numbers":
		for _, k := range []byte("nt") {
			for _, s := range nums {
				for _, s2 := range nums {
					if mine() {
						check([]*val{{kind: k, text: s}, {kind: 'n', text: s2}}, true)
					}
				}
			}
		}
		for i := -300; i < 300; i++ {
			if mine() {
				check([]*val{{kind: 'n', text: fmt.Sprint(i)}, {kind: 't', text: fmt.Sprint(i)}}, true)
			}
		}
	case "long":
		for _, n := range []int{255, 256, 4094, 4095, 4096, 4097, 8192, 20000} {
			for _, c := range []string{"x", " ", "\n", "é", "'"} {
				s := strings.Repeat(c, n/len(c)/2)
				if mine() {
					check([]*val{{kind: 's', text: s}, {kind: 'y', text: "a"}}, true)
				}
				if mine() && c != "'" {
					check([]*val{{kind: 'y', text: s}, {kind: 's', text: "a"}}, false)
				}
			}
			l := &val{kind: '0'}
			for i := 0; i < n/40; i++ {
				l = &val{kind: 'c', a: &val{kind: 's', text: "el"}, d: l}
			}
			if mine() {
				check([]*val{l}, true)
			}
		}
	case "trees":
		ls := leaves(*n < 3)
		trees(*n, ls, func(v *val) {
			if mine() {
				check([]*val{v}, true)
			}
		})
	case "shapes":
		// Larger trees over two leaves: every shape.
		for _, ls := range [][]*val{{{kind: '0'}, {kind: 'y', text: "a"}}, {{kind: 's', text: "b"}, {kind: 'n', text: "1"}}} {
			trees(*n, ls, func(v *val) {
				if mine() {
					check([]*val{v}, true)
					check([]*val{v, {kind: 'y', text: "z"}}, false)
				}
			})
		}
	case "spines":
		// Long chains, proper and not, with something nested at each place.
		for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33, 64, 100, 256, 1000} {
			for _, end := range append(leaves(false), &val{kind: 'c', a: &val{kind: 'y', text: "p"}, d: &val{kind: 'y', text: "q"}}) {
				for at := 0; at < n; at += 1 + n/9 {
					for _, in := range []*val{{kind: '0'}, {kind: 'c', a: &val{kind: 'y', text: "p"}, d: &val{kind: 'y', text: "q"}}, {kind: 'c', a: &val{kind: 's', text: "p"}, d: &val{kind: '0'}}} {
						v := end
						for k := n - 1; k >= 0; k-- {
							x := &val{kind: 'y', text: "w"}
							if k == at {
								x = in
							}
							v = &val{kind: 'c', a: x, d: v}
						}
						if mine() {
							check([]*val{v}, true)
						}
					}
				}
			}
		}
	case "args":
		ls := leaves(true)
		var rec func(vs []*val)
		rec = func(vs []*val) {
			if len(vs) == *n {
				if mine() {
					check(vs, false)
				}
				return
			}
			for _, l := range ls {
				rec(append(vs[:len(vs):len(vs)], l))
			}
		}
		rec(nil)
	}
	rep.Distinct = rep.Cases
	out, _ := json.Marshal(struct {
		Cases, Distinct, Steps int
		Violations             []violation
		Samples                []string
		Finished               bool `json:"finished"`
	}{rep.Cases, rep.Distinct, rep.Cases * 4, rep.Violations, rep.Samples, true})
	fmt.Println(string(out))
}
