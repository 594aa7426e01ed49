// Reference model of oh's syntax: a tokeniser and a grammar written from the
// language's description, sharing nothing with the code under test.
package main

import (
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

type node struct {
	kind byte // 'y' symbol, 's' string, 'n' number, 't' status, 'c' cons, '0' empty list, 'x' missing
	text string
	a, d *node
}

var (
	null    = &node{kind: '0'}
	missing = &node{kind: 'x'}
)

func symb(s string) *node   { return &node{kind: 'y', text: s} }
func strn(s string) *node   { return &node{kind: 's', text: s} }
func cons(a, d *node) *node { return &node{kind: 'c', a: a, d: d} }
func lst(ns ...*node) *node {
	r := null
	for i := len(ns) - 1; i >= 0; i-- {
		r = cons(ns[i], r)
	}
	return r
}

// items returns the elements of a proper list; ok is false for anything else.
func items(n *node) (r []*node, ok bool) {
	for n.kind == 'c' {
		r = append(r, n.a)
		n = n.d
	}
	return r, n.kind == '0'
}

func (n *node) write(b *strings.Builder) {
	switch n.kind {
	case '0', 'x':
		b.WriteString("()")
	case 'y':
		b.WriteString("y")
		b.WriteString(strconv.Quote(n.text))
	case 's':
		b.WriteString("s")
		b.WriteString(strconv.Quote(n.text))
	case 'n', 't':
		b.WriteByte(n.kind)
		b.WriteString(n.text)
	case 'c':
		b.WriteByte('(')
		n.a.write(b)
		for n = n.d; n.kind == 'c'; n = n.d {
			b.WriteByte(' ')
			n.a.write(b)
		}
		if n.kind != '0' {
			b.WriteString(" . ")
			n.write(b)
		}
		b.WriteByte(')')
	}
}

func (n *node) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

// ---- tokens

type tok struct{ c, v string }

// The tokeniser's answer "the text so far ends inside a token".
var opNames = map[string]string{
	"&": "spawn", "&&": "and", "||": "or", "|": "pipe-output-to", "|&": "pipe-output-errors-to",
	"<": "input-from", ">": "output-to", ">&": "output-errors-to", ">&|": "output-errors-clobbers",
	">>": "append-output-to", ">>&": "append-output-errors-to", ">|": "output-clobbers",
	"|<": "-named-pipe-input-from", "|>": "-named-pipe-output-to",
}
var opClass = map[string]string{
	"&": "bg", "&&": "and", "||": "or", "|": "pipe", "|&": "pipe", "<": "redir", ">": "redir", ">&": "redir",
	">&|": "redir", ">>": "redir", ">>&": "redir", ">|": "redir", "|<": "subst", "|>": "subst", "(": "(", "(|": "(|", "|)": "|)",
}

// What may follow a token: any white space is skipped ('w'), blanks are skipped ('b'), or blanks separate ('s').
func after(op string) byte {
	switch op {
	case "&&", "||", "|", "|&", "(", "(|":
		return 'w'
	case "<", ">", ">&", ">&|", ">>", ">>&", ">|", "|<", "|>":
		return 'b'
	}
	return 's'
}

// Longest operators first. Every operator that is a proper prefix of a longer one needs a character of look-ahead.
var operators = []string{">&|", ">>&", "&&", "||", "|&", "|<", "|>", "|)", ">&", ">>", ">|", "(|", "&", "|", "(", "<", ">"}

const wordEnd = "\t\n \"#&'();<>`{|}"
const single = ",./:=@~"
const dollarAlone = "\t\n \"#&();<>`|}"

// tokenize returns the tokens certain to be in s; rest says that the text ends inside another.
func tokenize(s string) (ts []tok, rest bool) {
	mode := byte('w')
	i := 0
	for {
		// Blanks, comments and newlines between tokens.
		blank := i
		for i < len(s) && (s[i] == ' ' || s[i] == '\t' || (mode == 'w' && s[i] == '\n')) {
			i++
		}
		if i >= len(s) {
			return ts, false
		}
		switch {
		case s[i] == '#':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				return ts, true
			}
			i += j + 1
			ts = append(ts, tok{"nl", ""})
			mode = 'w'
			continue
		case s[i] == '\n': // mode is not 'w'
			ts = append(ts, tok{"nl", ""})
			i++
			if mode == 's' {
				mode = 'w'
			} else {
				mode = 's'
			}
			continue
		}
		if mode == 's' && i > blank {
			ts = append(ts, tok{"space", ""})
		}
		if mode == 's' {
			mode = 'b'
		}
		if s[i] == '\\' {
			if i+1 >= len(s) {
				return ts, true
			}
			if s[i+1] == '\n' {
				i += 2
				continue
			}
		}
		c := s[i]
		if strings.IndexByte(";`{})", c) >= 0 {
			ts = append(ts, tok{string(c), ""})
			i++
			mode = 's'
			continue
		}
		if strings.IndexByte("&|<>(", c) >= 0 {
			op := ""
			for _, o := range operators {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			// Could it become longer with more text?
			for _, o := range operators {
				if len(o) > len(op) && strings.HasPrefix(o, op) && i+len(op) >= len(s) {
					return ts, true
				}
			}
			ts = append(ts, tok{opClass[op], opNames[op]})
			i += len(op)
			mode = after(op)
			continue
		}
		if c == '\'' {
			j := strings.IndexByte(s[i+1:], '\'')
			if j < 0 {
				return ts, true
			}
			ts = append(ts, tok{"sq", s[i+1 : i+1+j]})
			i += j + 2
			mode = 's'
			continue
		}
		if c == '"' || (c == '$' && i+1 < len(s) && s[i+1] == '\'') {
			q, k := "dq", i+1
			e := byte('"')
			if c == '$' {
				q, k, e = "dsq", i+2, '\''
			}
			j := k
			for j < len(s) && s[j] != e {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return ts, true
			}
			ts = append(ts, tok{q, s[k:j]})
			i = j + 1
			mode = 's'
			continue
		}
		if c == '$' {
			if i+1 >= len(s) {
				return ts, true
			}
			mode = 's'
			switch {
			case s[i+1] == '$':
				ts = append(ts, tok{"$", ""}, tok{"sym", "$"})
				i += 2
			case strings.IndexByte(dollarAlone, s[i+1]) >= 0:
				ts = append(ts, tok{"sym", "$"})
				i++
			default:
				ts = append(ts, tok{"$", ""})
				i++
			}
			continue
		}
		if strings.IndexByte(single, c) >= 0 {
			ts = append(ts, tok{"sym", string(c)})
			i++
			mode = 's'
			continue
		}
		// A word.
		j := i
		for j < len(s) {
			if s[j] == '\\' {
				if j+1 >= len(s) {
					return ts, true
				}
				_, w := utf8.DecodeRuneInString(s[j+1:])
				j += 1 + w
				continue
			}
			if strings.IndexByte(wordEnd, s[j]) >= 0 || strings.IndexByte(single, s[j]) >= 0 || s[j] == '$' {
				break
			}
			j++
		}
		if j >= len(s) {
			return ts, true
		}
		ts = append(ts, tok{"sym", s[i:j]})
		i = j
		mode = 's'
	}
}

// ---- grammar

type need struct{}            // more tokens are needed
type bad struct{ why string } // malformed
type unspecified struct{}     // the model says nothing about this text

type gram struct {
	ts []tok
	i  int
}

func (g *gram) peek() tok {
	if g.i >= len(g.ts) {
		panic(need{})
	}
	return g.ts[g.i]
}
func (g *gram) is(c string) bool { return g.peek().c == c }
func (g *gram) take() tok        { t := g.peek(); g.i++; return t }
func (g *gram) want(c string) {
	if !g.is(c) {
		panic(bad{"expected " + c})
	}
	g.i++
}
func must(n *node) *node {
	if n == nil {
		panic(bad{"missing"})
	}
	return n
}
func (g *gram) must(n *node) *node {
	if n == nil {
		g.peek()
	}
	return must(n)
}
func (g *gram) spaces() {
	for g.is("space") {
		g.i++
	}
}

func (g *gram) background() *node {
	c := g.chain("or", func() *node { return g.chain("and", g.pipeline) })
	if g.is("bg") {
		g.must(c)
		g.i++
		return lst(symb("spawn"), c)
	}
	return c
}

func (g *gram) command() *node {
	return g.chain("or", func() *node { return g.chain("and", g.pipeline) })
}

func (g *gram) chain(op string, sub func() *node) *node {
	first := sub()
	if !g.is(op) {
		return first
	}
	all := []*node{symb(op), g.must(first)}
	for g.is(op) {
		g.i++
		all = append(all, g.must(sub()))
	}
	return lst(all...)
}

func (g *gram) pipeline() *node {
	left := g.sequence()
	if !g.is("pipe") {
		return left
	}
	g.must(left)
	op := g.take().v
	right := g.must(g.pipeline())
	return cons(symb(op), cons(right, left))
}

func (g *gram) sequence() *node {
	first := g.redirection()
	if !g.is(";") {
		return first
	}
	all := []*node{symb("block"), g.must(first)}
	for g.is(";") {
		g.i++
		if n := g.redirection(); n != nil {
			all = append(all, n)
		}
	}
	return lst(all...)
}

func (g *gram) redirection() *node {
	c := g.substitution()
	for g.is("redir") {
		op := g.take().v
		target := g.must(g.word())
		inner := c
		if inner == nil {
			inner = missing
		}
		c = lst(symb(op), target, inner)
		g.spaces()
	}
	return c
}

func (g *gram) substitution() *node {
	c := g.statement()
	if c == nil || !g.is("subst") {
		return c
	}
	all, ok := items(c)
	for g.is("subst") {
		op := g.take().v
		all = append(all, cons(symb(op), g.must(g.part())))
		if !g.is("subst") {
			if s := g.statement(); s != nil {
				more, ok2 := items(s)
				ok = ok && ok2
				all = append(all, more...)
			}
		}
	}
	if !ok {
		panic(unspecified{})
	}
	return cons(symb("process-substitution"), lst(all...))
}

// statement: NAME=value prefixes, then words and blocks.
func (g *gram) statement() *node {
	var exports, all []*node
	var head *node // list contributed by the first element
	for {
		g.spaces()
		if g.is("{") {
			head = g.braces()
			break
		}
		e := g.part()
		if e == nil {
			break
		}
		if e.kind == 'y' && g.is("sym") && g.peek().v == "=" {
			g.i++
			exports = append(exports, lst(symb("export"), e, g.must(g.word())))
			continue
		}
		head = g.join(e)
		break
	}
	var c *node
	if head != nil {
		all = []*node{head}
		for {
			if g.is("space") {
				g.i++
				continue
			}
			if g.is("{") {
				b := g.braces()
				more, ok := items(b)
				if !ok {
					panic(unspecified{})
				}
				all = append(all, more...)
				continue
			}
			w := g.word()
			if w == nil {
				break
			}
			all = append(all, w)
		}
		c = lst(all...)
	}
	if len(exports) > 0 {
		r := append([]*node{symb("block")}, exports...)
		if c != nil {
			r = append(r, c)
		}
		return lst(r...)
	}
	return c
}

// braces: a block, with what follows its closing brace; or {word}.
func (g *gram) braces() *node {
	g.want("{")
	switch {
	case g.is("nl"):
		g.i++
		var cmds []*node
		for !g.is("}") {
			if g.is("nl") {
				g.i++
				continue
			}
			cmds = append(cmds, g.must(g.background()))
		}
		g.i++
		g.spaces()
		if s := g.statement(); s != nil {
			if len(cmds) == 0 {
				return s
			}
			more, ok := items(s)
			if !ok {
				panic(unspecified{})
			}
			cmds = append(cmds, more...)
		}
		return lst(cmds...)
	case g.is("{"):
		c := g.braces()
		g.want("}")
		return c
	}
	w := g.must(g.word())
	g.want("}")
	return lst(w)
}

// word: adjacent parts are joined.
func (g *gram) word() *node { return g.join(g.part()) }

func (g *gram) join(first *node) *node {
	if first == nil {
		return nil
	}
	parts := []*node{first}
	for p := g.part(); p != nil; p = g.part() {
		parts = append(parts, p)
	}
	if len(parts) == 1 {
		return first
	}
	return lst(append([]*node{symb("mend"), symb("")}, parts...)...)
}

func (g *gram) part() *node {
	if g.is("`") {
		g.i++
		return lst(symb("splice"), lst(symb("capture"), g.must(g.value())))
	}
	return g.expression()
}

func (g *gram) expression() *node {
	if !g.is("$") {
		return g.value()
	}
	g.i++
	if g.is("{") {
		b := g.braces()
		if b.kind != 'c' {
			panic(unspecified{})
		}
		return lst(symb("resolve"), b.a)
	}
	return lst(symb("resolve"), g.must(g.expression()))
}

func (g *gram) value() *node {
	meta := g.is("(|")
	if !meta && !g.is("(") {
		return g.atom()
	}
	g.i++
	c := g.command()
	if c == nil {
		g.want(")")
		return null
	}
	if !meta {
		g.want(")")
		return c
	}
	g.want("|)")
	args, ok := items(c)
	if !ok || len(args) == 0 || args[0].kind != 'y' {
		panic(unspecified{})
	}
	at := func(i int) *node {
		if i < len(args) {
			return args[i]
		}
		return null
	}
	a := at(1)
	switch args[0].text {
	case "cons":
		return cons(a, at(2))
	case "number", "status", "symbol":
		if ps, ok := items(a); ok && len(ps) > 3 && ps[0].kind == 'y' && ps[0].text == "mend" && ps[1].kind == 'y' && ps[1].text == "" {
			// Adjacent words, like 1/2, are one word.
			w := ""
			for _, p := range ps[2:] {
				if p.kind != 'y' && p.kind != 's' {
					panic(unspecified{})
				}
				w += p.text
			}
			a = symb(w)
		}
		if a.kind == 'c' || a.kind == '0' || a.kind == 'x' {
			panic(unspecified{})
		}
		if args[0].text == "symbol" {
			return symb(a.text)
		}
		r, ok := new(big.Rat).SetString(a.text)
		if !ok {
			panic(bad{"number"})
		}
		k := byte('n')
		if args[0].text == "status" {
			k = 't'
		}
		return &node{kind: k, text: r.RatString()}
	}
	panic(bad{"meta"})
}

func (g *gram) atom() *node {
	t := g.peek()
	switch t.c {
	case "sym":
		g.i++
		return symb(t.v)
	case "sq":
		g.i++
		return strn(t.v)
	case "dsq", "dq":
		g.i++
		s, ok := decode(t.v)
		if !ok {
			panic(bad{"escape"})
		}
		if t.c == "dq" {
			return lst(symb("interpolate"), strn(s))
		}
		return strn(s)
	}
	return nil
}

// decode interprets the escape sequences of $” and "" strings.
func decode(s string) (string, bool) {
	var b strings.Builder
	simple := map[byte]byte{'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': '\\', '\'': '\'', '"': '"'}
	for i := 0; i < len(s); {
		if s[i] != '\\' {
			if s[i] < 0x80 {
				b.WriteByte(s[i])
				i++
				continue
			}
			r, w := utf8.DecodeRuneInString(s[i:])
			b.WriteRune(r)
			i += w
			continue
		}
		if i+1 >= len(s) {
			return "", false
		}
		c := s[i+1]
		i += 2
		if v, ok := simple[c]; ok {
			b.WriteByte(v)
			continue
		}
		digits, base := 0, 16
		switch {
		case c == 'x':
			digits = 2
		case c == 'u':
			digits = 4
		case c == 'U':
			digits = 8
		case c >= '0' && c <= '7':
			digits, base = 3, 8
			i--
		default:
			return "", false
		}
		if i+digits > len(s) {
			return "", false
		}
		v, err := strconv.ParseUint(s[i:i+digits], base, 32)
		if err != nil || strings.ContainsAny(s[i:i+digits], "_+-") {
			return "", false
		}
		i += digits
		switch {
		case c == 'x' || base == 8:
			if v > 255 {
				return "", false
			}
			b.WriteByte(byte(v))
		case v > 0x10ffff:
			return "", false
		default:
			b.WriteRune(rune(v))
		}
	}
	return b.String(), true
}

type outcome struct {
	cmds  []*node
	ends  []int  // token index after each command
	state string // "end", "partial", "bad", "unspecified"
	why   string
	rest  bool // the text ends inside a token
}

// model reads the whole of s.
func model(s string) (o outcome) {
	g := &gram{}
	g.ts, o.rest = tokenize(s)
	start := 0
	defer func() {
		switch r := recover().(type) {
		case nil:
		case need:
			o.state = "end"
			for _, t := range g.ts[start:] {
				if t.c != "nl" && t.c != "space" {
					o.state = "partial"
				}
			}
		case bad:
			o.state, o.why = "bad", r.why
		case unspecified:
			o.state = "unspecified"
		default:
			panic(r)
		}
	}()
	for {
		start = g.i
		if g.is("nl") {
			g.i++
			continue
		}
		c := g.must(g.background())
		o.cmds = append(o.cmds, c)
		o.ends = append(o.ends, g.i)
	}
}
