// Bounded-exhaustive exploration of oh's reader against the reference model in ref.go.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/conduit"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
	"github.com/michaelmacinnis/oh/internal/common/type/status"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/reader"
)

func show(b *strings.Builder, c cell.I) {
	switch {
	case c == nil || c == pair.Null:
		b.WriteString("()")
	case sym.Is(c):
		b.WriteString("y")
		b.WriteString(strconv.Quote(sym.To(c).String()))
	case str.Is(c):
		b.WriteString("s")
		b.WriteString(strconv.Quote(str.To(c).String()))
	case num.Is(c):
		b.WriteString("n" + num.To(c).String())
	case status.Is(c):
		b.WriteString("t" + status.To(c).String())
	case pair.Is(c):
		b.WriteByte('(')
		show(b, pair.Car(c))
		for c = pair.Cdr(c); c != nil && c != pair.Null && pair.Is(c); c = pair.Cdr(c) {
			b.WriteByte(' ')
			show(b, pair.Car(c))
		}
		if c != nil && c != pair.Null {
			b.WriteString(" . ")
			show(b, c)
		}
		b.WriteByte(')')
	default:
		b.WriteString("?" + c.Name())
	}
}

// Answers of the real reader, one per piece of text: "-" nothing yet, "!" error, else the command.
func real(pieces []string) []string {
	r := reader.New("v")
	var out []string
	for _, p := range pieces {
		rep.Steps++
		c, err := r.Scan(p)
		if err != nil {
			out = append(out, "!")
			break
		}
		if c == nil {
			out = append(out, "-")
			continue
		}
		var b strings.Builder
		show(&b, c)
		out = append(out, b.String())
	}
	r.Close()
	return out
}

// What the model says it should answer.
func expected(lines []string) (out []string, specified bool) {
	text, done := "", 0
	for _, l := range lines {
		text += l
		o := model(text)
		switch o.state {
		case "unspecified":
			return out, false
		case "bad":
			return append(out, "!"), true
		case "partial":
			out = append(out, "-")
		default:
			out = append(out, joined(o.cmds[done:]))
			done = len(o.cmds)
		}
	}
	return out, true
}

func joined(cmds []*node) string {
	switch len(cmds) {
	case 0:
		return "-"
	case 1:
		return cmds[0].String()
	}
	return lst(append([]*node{symb("block")}, cmds...)...).String()
}

type violation struct {
	Key, What, Want, Got string
}

type report struct {
	Cases, Nontrivial, Unspecified, Pieces, Steps int
	Bad, Partial, Complete                        int
	Violations                                    []violation
	Samples                                       []string
	Distinct                                      int
}

var (
	rep     report
	current atomic.Value
	seq     atomic.Int64
	kinds   = map[string]bool{}
)

func fail(text, what, want, got string) {
	if len(rep.Violations) < 30 {
		rep.Violations = append(rep.Violations, violation{strconv.Quote(text), what, want, got})
	}
}

func begin(text string) {
	current.Store(text)
	seq.Add(1)
	rep.Cases++
}

func lines(text string) []string {
	ls := strings.SplitAfter(text, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	return ls
}

// grammar compares every line's answer with the model's.
func grammar(text string) {
	begin(text)
	ls := lines(text)
	want, ok := expected(ls)
	if !ok {
		rep.Unspecified++
		real(ls) // Still has to finish.
		return
	}
	got := real(ls)
	w, g := strings.Join(want, "\n"), strings.Join(got, "\n")
	last := want[len(want)-1]
	switch last {
	case "!":
		rep.Bad++
	case "-":
		rep.Partial++
	default:
		rep.Complete++
		rep.Nontrivial++
	}
	if len(kinds) < 1<<20 {
		kinds[w] = true
	}
	if len(rep.Samples) < 3 && rep.Complete%1009 == 1 {
		rep.Samples = append(rep.Samples, strconv.Quote(text)+" => "+w)
	}
	if w != g {
		fail(text, "read differently from the grammar", w, g)
	}
}

// chunks checks every way of cutting text in up to three pieces against reading it in one.
// The commands and the error must be the same however the text is delivered.
func chunks(text string, three bool) {
	begin(text)
	flat := func(rs []string) string {
		// Commands delivered, ignoring when.
		var all []string
		for _, r := range rs {
			if r != "-" {
				all = append(all, r)
			}
		}
		return strings.Join(all, "\n")
	}
	o := model(text)
	if o.state == "unspecified" {
		rep.Unspecified++
		return
	}
	check := func(pieces []string) {
		rep.Pieces++
		got := real(pieces)
		// An error hides the commands completed in the same piece, so compare with the model of the pieces read so far.
		want, ok := expected(pieces)
		if !ok {
			return
		}
		if g, w := flat(got), flat(want); g != w {
			fail(strings.Join(pieces, "\x00"), "cut in pieces (NUL marks the cuts) it reads differently", w, g)
		}
	}
	for i := 1; i < len(text); i++ {
		if !utf8.RuneStart(text[i]) {
			continue
		}
		check([]string{text[:i], text[i:]})
		if !three {
			continue
		}
		for j := i + 1; j < len(text); j++ {
			if utf8.RuneStart(text[j]) {
				check([]string{text[:i], text[i:j], text[j:]})
			}
		}
	}
	rep.Nontrivial++
	if len(kinds) < 1<<20 {
		kinds[flat(real([]string{text}))] = true
	}
	if len(rep.Samples) < 3 && rep.Cases%501 == 1 {
		rep.Samples = append(rep.Samples, strconv.Quote(text))
	}
}

// conduitReads reads text from a pipe cell until it says () twice (at most max answers).
func conduitReads(text string, max int) (out []string) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	go func() {
		_, _ = w.WriteString(text)
		w.Close()
	}()
	p := pipe.New(r, nil)
	defer pipe.To(p).ReaderClose()
	for len(out) < max {
		out = append(out, func() (ans string) {
			defer func() {
				if recover() != nil {
					ans = "!"
				}
			}()
			rep.Steps++
			c := conduit.To(p).Read()
			if c == nil || c == pair.Null {
				return "()"
			}
			var b strings.Builder
			show(&b, c)
			return b.String()
		}())
	}
	return out
}

// conduitWant says what those reads should answer.
func conduitWant(text string) (out []string, specified bool) {
	acc, done := "", 0
	ls := lines(text)
	if len(ls) > 0 && !strings.HasSuffix(ls[len(ls)-1], "\n") {
		ls[len(ls)-1] += "\n"
	}
	partial := false
	for _, l := range ls {
		acc += l
		o := model(acc)
		partial = false
		switch o.state {
		case "unspecified":
			return nil, false
		case "bad":
			// Reading goes on with the next line.
			out = append(out, "!")
			acc, done = "", 0
		case "partial":
			partial = true
		default:
			if len(o.cmds) > done {
				out = append(out, joined(o.cmds[done:]))
				done = len(o.cmds)
			}
			partial = o.rest
		}
	}
	if partial {
		out = append(out, "!")
	}
	return append(out, "()", "()"), true
}

func conduits(text string) {
	begin(text)
	want, ok := conduitWant(text)
	if !ok {
		rep.Unspecified++
		return
	}
	got := conduitReads(text, len(want))
	w, g := strings.Join(want, "\n"), strings.Join(got, "\n")
	if len(want) > 2 {
		rep.Nontrivial++
	}
	kinds[w] = true
	if len(rep.Samples) < 2 && rep.Cases%501 == 1 {
		rep.Samples = append(rep.Samples, strconv.Quote(text)+" read from a conduit => "+w)
	}
	if w != g {
		fail("conduit:"+text, "reading commands from a conduit", w, g)
	}
}

var alphabets = map[string][]string{
	"full":  {"a", " ", "\n", "b=", "(", ")", "{", "}", ";", "&", "&&", "||", "|", ">", "|<", "$", "`", "'q'", "\"d\"", ".", "(|", "|)", "#c\n", "\\"},
	"core":  {"a", " ", "\n", "(", ")", "{", "}", ";", "&", "&&", "|", ">", "$", "'q'", "|<"},
	"ops":   {"a", "\n", " ", ">", "<", "|", "&", "(", ")", "$", "'", "\"", "\\", "#", "1", "é"},
	"nest":  {"a", " ", "{\n", "}", "\n", "(", ")", "${", "&", "; ", " | "},
	"meta":  {"(|", "|)", "number", "status", "symbol", "cons", " ", "1", "-1/2", "a", "$'x y'", "'z'", "\"d\"", "(a)", "()"},
	"chain": {"a && ", "b || ", "c | ", "d; ", "e & ", "f > g ", "h |<(i) ", "j ", "(k) ", "{\nm\n} ", "n < 'o' ", "p|& "},
	"word":  {"a", "'b c'", "\"d\"", "$e", "${f}", "`(g)", "$'h'", " ", ".", "/", "=", "{i}"},
	"lines": {"a\n", "b c; d\n", "e & f\n", "{x} y & z & w\n", ")\n", "a | ; b\n", "g (\n", "if x {\n", "}\n", "\n", "# c\n", "'q\n", "r'\n", "h &&\n", "s \\\n", "k", "; ;\n", "(a b) > f\n"},
	"eq":    {"a", "=", " ", "1", "\n", "$", "(b)", "'q'", "&&", ";", "{c}"},
}

func enumerate(alpha []string, n int, shard, of int, f func(string)) {
	idx := make([]int, n)
	count := 0
	for {
		if count%of == shard {
			var b strings.Builder
			for _, i := range idx {
				b.WriteString(alpha[i])
			}
			f(b.String())
		}
		count++
		k := n - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < len(alpha) {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 0 {
			return
		}
	}
}

func main() {
	mode := flag.String("mode", "grammar", "")
	alpha := flag.String("alpha", "core", "")
	n := flag.Int("n", 3, "exact length")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	one := flag.String("one", "", "a quoted text")
	tail := flag.String("tail", "", "quoted text added to every case")
	budget := flag.Duration("budget", time.Hour, "")
	onefile := flag.String("onefile", "", "a file holding a quoted text")
	flag.Parse()
	if *onefile != "" {
		b, err := os.ReadFile(*onefile)
		if err != nil {
			panic(err)
		}
		*one = string(b)
	}
	runtime.GOMAXPROCS(2)
	end := "\n"
	if *tail != "" {
		t, err := strconv.Unquote(*tail)
		if err != nil {
			panic(err)
		}
		end = "\n" + t
	}
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			var m runtime.MemStats
			if s := seq.Load(); s != last {
				last, since = s, time.Now()
			} else if time.Since(since) > 8*time.Second && last > 0 {
				t, _ := current.Load().(string)
				fmt.Println("HANG", strconv.Quote(t))
				os.Exit(3)
			}
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				t, _ := current.Load().(string)
				fmt.Println("HANG", strconv.Quote(t))
				os.Exit(3)
			}
		}
	}()
	var f func(string)
	switch *mode {
	case "grammar":
		f = func(s string) { grammar(s + end) }
	case "long":
		// Lines about as long as the usual buffer sizes, read from a conduit.
		i := 0
		for _, size := range []int{1, 100, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4093, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 200000} {
			x := strings.Repeat("x", size)
			for _, t := range []string{x + " b\n", "a " + x + "\nb\n", "a '" + x + "' b\nc\n", "# " + x + "\nb c\n", "a " + strings.Repeat("y ", size/40) + "\nz\n", "a \"" + x + "\nx\"; b\nc\n", "a; " + strings.Repeat("b; ", size/40) + "\nc\n", ") " + x + "\nb\n", "a " + x} {
				if i++; i%*of == *shard {
					conduits(t)
				}
			}
		}
		*n = 0
		f = func(string) {}
	case "conduit":
		f = conduits
	case "chunks2":
		f = func(s string) { chunks(s+end, false) }
	case "chunks3":
		f = func(s string) { chunks(s+end, true) }
	}
	if *one != "" {
		t, err := strconv.Unquote(*one)
		if err != nil {
			panic(err)
		}
		if c, ok := strings.CutPrefix(t, "conduit:"); ok {
			seq.Add(1)
			current.Store(t)
			want, _ := conduitWant(c)
			got := conduitReads(c, len(want))
			w, g := strings.Join(want, "\n     "), strings.Join(got, "\n     ")
			fmt.Printf("want %s\ngot  %s\n", w, g)
			if g != w {
				os.Exit(1)
			}
			return
		}
		if strings.Contains(t, "\x00") {
			ps := strings.Split(t, "\x00")
			seq.Add(1)
			current.Store(t)
			got := real(ps)
			want, _ := expected(ps)
			g, w := strings.ReplaceAll(strings.Join(got, "\n"), "-\n", ""), strings.ReplaceAll(strings.Join(want, "\n"), "-\n", "")
			fmt.Printf("want %s\ngot  %s\n", w, g)
			if g != w {
				os.Exit(1)
			}
			return
		}
		grammar(t)
		want, ok := expected(lines(t))
		fmt.Printf("specified %v\nwant %s\ngot  %s\n", ok, strings.Join(want, "\n     "), strings.Join(real(lines(t)), "\n     "))
		if len(rep.Violations) > 0 {
			os.Exit(1)
		}
		return
	}
	stop := time.Now().Add(*budget)
	complete := true
	enumerate(alphabets[*alpha], *n, *shard, *of, func(s string) {
		if !complete || len(rep.Violations) >= 30 {
			return
		}
		if rep.Cases&255 == 0 && time.Now().After(stop) {
			complete = false
			return
		}
		f(s)
	})
	rep.Distinct = len(kinds)
	out, _ := json.Marshal(struct {
		report
		Complete_ bool `json:"finished"`
	}{rep, complete})
	fmt.Println(string(out))
}
