From 9d6811701fa9ce3f24317c47d48f35e02d0ecc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 01/51] fix: report a missing command or operand instead of
 looping or dropping commands

---
 internal/reader/parser/parser.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 966dfb8..5b0c75f 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -77,7 +77,7 @@ func (p *T) Parse() (err error) {
 			continue
 		}
 
-		p.emit(p.possibleBackground())
+		p.emit(p.check(p.possibleBackground()))
 	}
 
 	return nil
@@ -160,6 +160,8 @@ func (p *T) possibleBackground() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Background) {
+		c = p.check(c)
+
 		p.consume()
 
 		c = list.New(sym.Token(t), c)
@@ -174,11 +176,11 @@ func (p *T) command() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Orf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Orf) {
 			p.consume()
-			c = list.Append(c, p.possibleAndf())
+			c = list.Append(c, p.check(p.possibleAndf()))
 		}
 	}
 
@@ -191,11 +193,11 @@ func (p *T) possibleAndf() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Andf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Andf) {
 			p.consume()
-			c = list.Append(c, p.possiblePipeline())
+			c = list.Append(c, p.check(p.possiblePipeline()))
 		}
 	}
 
@@ -207,9 +209,11 @@ func (p *T) possiblePipeline() cell.I {
 	c := p.possibleSequence()
 
 	if p.peek().Is(token.Pipe) {
+		c = p.check(c)
+
 		s := sym.Token(p.consume())
 
-		c = pair.Cons(p.possiblePipeline(), c)
+		c = pair.Cons(p.check(p.possiblePipeline()), c)
 		c = pair.Cons(s, c)
 	}
 
@@ -221,12 +225,16 @@ func (p *T) possibleSequence() cell.I {
 	c := p.possibleRedirection()
 
 	if p.peek().Is(';') {
-		c = list.New(sym.New("block"), c)
+		c = list.New(sym.New("block"), p.check(c))
 
 		for p.peek().Is(';') {
 			p.consume()
 
-			c = list.Append(c, p.possibleRedirection())
+			// There may be nothing after (or between) semicolons.
+			n := p.possibleRedirection()
+			if n != nil {
+				c = list.Append(c, n)
+			}
 		}
 	}
 
@@ -261,7 +269,7 @@ func (p *T) possibleSubstitution() cell.I {
 
 		for p.peek().Is(token.Substitute) {
 			s := sym.Token(p.consume())
-			l := pair.Cons(s, p.element())
+			l := pair.Cons(s, p.check(p.element()))
 			c = list.Append(c, l)
 
 			if !p.peek().Is(token.Substitute) {
@@ -291,7 +299,7 @@ func (p *T) braces() (c cell.I) {
 			c = p.braces()
 			p.expect('}')
 		default:
-			c = p.implicitJoin(p.element())
+			c = p.check(p.implicitJoin(p.element()))
 			c = pair.Cons(c, pair.Null)
 
 			p.expect('}')
-- 
2.43.0


From 99c9ce770d7a8c0aa2ee071fe2a48a35de762acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 02/51] fix: keep every command on a line, and the start of one
 continued on the next

---
 internal/reader/reader.go | 41 +++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index c1bfab7..0912df7 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -3,6 +3,8 @@ package reader
 import (
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/struct/token"
+	"github.com/michaelmacinnis/oh/internal/common/type/list"
+	"github.com/michaelmacinnis/oh/internal/common/type/sym"
 	"github.com/michaelmacinnis/oh/internal/reader/lexer"
 	"github.com/michaelmacinnis/oh/internal/reader/parser"
 )
@@ -14,6 +16,8 @@ type T struct {
 	o chan cell.I
 	p *parser.T
 	s *lexer.T
+
+	partial bool // Set once part of the next command has been seen.
 }
 
 type reader = T
@@ -27,17 +31,37 @@ func New(name string) *T {
 		s: lexer.New(name),
 	}
 
+	n := 0 // The number of complete commands in v.
+
 	var v cell.I
 
 	r.p = parser.New(func(c cell.I) {
-		v = c
+		// A line can contain more than one command.
+		switch n {
+		case 0:
+			v = c
+		case 1:
+			v = list.New(sym.New("block"), v, c)
+		default:
+			v = list.Append(v, c)
+		}
+
+		n++
+
+		r.partial = false
 	}, func() *token.T {
 		t := r.s.Token()
 
 		for t == nil {
-			r.o <- v
-
-			v = nil
+			if r.partial {
+				// Hold on to any complete commands until the
+				// command that follows on the same line is too.
+				r.o <- nil
+			} else {
+				r.o <- v
+
+				n, v = 0, nil
+			}
 
 			if !r.next() {
 				close(r.o)
@@ -46,6 +70,10 @@ func New(name string) *T {
 			t = r.s.Token()
 		}
 
+		if !t.Is('\n', token.Space) {
+			r.partial = true
+		}
+
 		return t
 	})
 
@@ -69,6 +97,11 @@ func (r *reader) Parser() *parser.T {
 	return r.p
 }
 
+// Partial returns true if the text scanned so far ends part way through a command.
+func (r *reader) Partial() bool {
+	return r.partial || r.s.Text() != ""
+}
+
 // Scan reads the line and returns a cell.I on a complete parse or nil otherwise.
 // If scan encounters any error it returns the error.
 func (r *reader) Scan(line string) (c cell.I, err error) {
-- 
2.43.0


From 071e905afde2308ff6651e61607420a5481c3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 03/51] fix: read the last line without a newline, report input
 ending inside a command, read on after an error

---
 internal/common/type/pipe/pipe.go | 32 +++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 19303b6..9fdfad6 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -88,6 +88,14 @@ func (p *pipe) Read() cell.I {
 		return pair.Null
 	}
 
+	failed := false
+
+	defer func() {
+		if failed {
+			p.restart(r)
+		}
+	}()
+
 	p.RLock()
 	defer p.RUnlock()
 
@@ -98,8 +106,15 @@ func (p *pipe) Read() cell.I {
 
 	s, ok := line(b)
 	for ok {
+		// The last line may be missing its newline.
+		if !strings.HasSuffix(s, "\n") {
+			s += "\n"
+		}
+
 		c, err = r.Scan(s)
 		if err != nil {
+			failed = true
+
 			panic(err.Error())
 		}
 
@@ -111,6 +126,12 @@ func (p *pipe) Read() cell.I {
 	}
 
 	if c == nil {
+		if r.Partial() {
+			failed = true
+
+			panic("unexpected end of input")
+		}
+
 		return pair.Null
 	}
 
@@ -260,6 +281,17 @@ func (p *pipe) readerPipeNil() {
 	p.r = nil
 }
 
+// restart discards the reader r, which cannot be used after an error.
+func (p *pipe) restart(r *reader.T) {
+	p.Lock()
+	defer p.Unlock()
+
+	if p.p == r {
+		p.p.Close()
+		p.p = nil
+	}
+}
+
 // writerClosePipe closes the write end of the pipe.
 func (p *pipe) writerClosePipe() {
 	p.RLock()
-- 
2.43.0


From e54c3978decd242e0d1d427235246eee759c06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 04/51] fix: keep records intact and avoid a deadlock when
 tasks share a pipe

---
 internal/common/type/pipe/pipe.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 9fdfad6..8202a2a 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -26,6 +26,8 @@ const name = "pipe"
 // T (pipe) is oh's pipe conduit type.
 type T struct {
 	sync.RWMutex
+	reading sync.Mutex // Held while using b and p.
+
 	b *bufio.Reader
 	p *reader.T
 	r *os.File
@@ -78,6 +80,9 @@ func (p *pipe) Name() string {
 
 // Read reads a cell from the pipe.
 func (p *pipe) Read() cell.I {
+	p.reading.Lock()
+	defer p.reading.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
@@ -140,6 +145,9 @@ func (p *pipe) Read() cell.I {
 
 // ReadLine reads a line from the pipe.
 func (p *pipe) ReadLine() cell.I {
+	p.reading.Lock()
+	defer p.reading.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
@@ -172,12 +180,8 @@ func (p *pipe) Write(c cell.I) {
 		panic("write to closed pipe")
 	}
 
-	_, err := p.w.WriteString(literal.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = p.w.WriteString("\n")
+	// One write, so that another task's output cannot end up in the middle.
+	_, err := p.w.WriteString(literal.String(c) + "\n")
 	if err != nil {
 		panic(err.Error())
 	}
@@ -193,12 +197,8 @@ func (p *pipe) WriteLine(c cell.I) {
 		panic("write to closed pipe")
 	}
 
-	_, err := p.w.WriteString(common.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = p.w.WriteString("\n")
+	// One write, so that another task's output cannot end up in the middle.
+	_, err := p.w.WriteString(common.String(c) + "\n")
 	if err != nil {
 		panic(err.Error())
 	}
-- 
2.43.0


From 82c1048c66b9b85fc357868d62eb906d288d3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 05/51] fix: let the goroutine of a closed reader finish

---
 internal/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index 0912df7..d5863e3 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -25,7 +25,7 @@ type reader = T
 // New creates a new reader for name.
 func New(name string) *T {
 	r := &T{
-		e: make(chan error),
+		e: make(chan error, 1), // Buffered so that a closed reader can finish.
 		i: make(chan string),
 		o: make(chan cell.I),
 		s: lexer.New(name),
-- 
2.43.0


From 92f110b1697db885b1aa2ce9d22fb79c0d3c5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 06/51] fix: remember that a command has started when its first
 token ends the one before

A redirection directly followed by an opening brace ends at that brace,
which is already part of the next command.
---
 internal/reader/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index d5863e3..b4117ac 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -35,6 +35,8 @@ func New(name string) *T {
 
 	var v cell.I
 
+	var last *token.T // The last token handed to the parser.
+
 	r.p = parser.New(func(c cell.I) {
 		// A line can contain more than one command.
 		switch n {
@@ -48,7 +50,8 @@ func New(name string) *T {
 
 		n++
 
-		r.partial = false
+		// The token after a command may already be part of the next one.
+		r.partial = !last.Is('\n', token.Background)
 	}, func() *token.T {
 		t := r.s.Token()
 
@@ -74,6 +77,8 @@ func New(name string) *T {
 			r.partial = true
 		}
 
+		last = t
+
 		return t
 	})
 
-- 
2.43.0


From caa84ea5eb10fdf5c52c78138ef169b462090e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 07/51] fix: accept a command of blanks and comments, reject
 one ending inside a quote

'oh -c' reported '# comment' as an incomplete command but ran "a & 'b".
---
 main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 09b74c9..d051434 100644
--- a/main.go
+++ b/main.go
@@ -57,11 +57,15 @@ func command() bool {
 		os.Exit(1)
 	}
 
-	if c == nil {
+	if r.Partial() {
 		println("incomplete command")
 		os.Exit(1)
 	}
 
+	if c == nil {
+		return true // Nothing but blank lines and comments.
+	}
+
 	engine.Evaluate(job.New(process.Group()), c)
 
 	return true
-- 
2.43.0


From 8e2e698af7828cc2814c7a75761fdfd40263bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 08/51] fix: compare lists with values of other types, and with
 the empty list

(equal? (list 1) 2) threw, and () was equal to (cons () ()), as the empty
list is its own head and tail.
---
 internal/common/type/pair/pair.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 0496334..927dee3 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -29,11 +29,11 @@ type pair = T
 
 // Equal returns true if c is a pair with elements that are equal to p's.
 func (p *pair) Equal(c cell.I) bool {
-	if p == Null && c == Null {
-		return true
+	if p == Null || c == Null {
+		return p == c
 	}
 
-	return p.car.Equal(Car(c)) && p.cdr.Equal(Cdr(c))
+	return Is(c) && p.car.Equal(Car(c)) && p.cdr.Equal(Cdr(c))
 }
 
 // Literal returns the literal representation of the pair p.
-- 
2.43.0


From b073b49767834e24767b5cb6a01405719a8f0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 09/51] fix: refuse to set the head or tail of the empty list

There is only one, so that broke every list in the shell.
---
 internal/common/type/pair/pair.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 927dee3..98b1c79 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -150,12 +150,20 @@ func Cons(h, t cell.I) cell.I {
 // SetCar sets the car/head/first of the pair c to value.
 // If c is not a pair, this function will panic.
 func SetCar(c, value cell.I) {
+	if c == Null {
+		panic("cannot set the head of an empty list")
+	}
+
 	To(c).car = value
 }
 
 // SetCdr sets the cdr/tail/rest of the pair c to value.
 // If c is not a pair, this function will panic.
 func SetCdr(c, value cell.I) {
+	if c == Null {
+		panic("cannot set the tail of an empty list")
+	}
+
 	To(c).cdr = value
 }
 
-- 
2.43.0


From 2377573708e6b4a48019e105150658b806de1afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 10/51] fix: let a list be extended by itself

---
 internal/common/type/list/list.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/common/type/list/list.go b/internal/common/type/list/list.go
index 7883061..0689110 100644
--- a/internal/common/type/list/list.go
+++ b/internal/common/type/list/list.go
@@ -89,12 +89,11 @@ func Join(lists ...cell.I) cell.I {
 			continue
 		}
 
-		for list != pair.Null {
-			p := pair.Cons(pair.Car(list), pair.Null)
+		// Copy the elements first: list may be (the end of) start.
+		for _, c := range Array(list) {
+			p := pair.Cons(c, pair.Null)
 			pair.SetCdr(end, p)
 			end = p
-
-			list = pair.Cdr(list)
 		}
 	}
 
-- 
2.43.0


From fba576ee8c66438c736cba3b3e1a8b47ca9a9b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 11/51] fix: check the arguments of rend

Without a string it split the empty list.
---
 internal/engine/commands/core.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/engine/commands/core.go b/internal/engine/commands/core.go
index 31dd4de..0657c91 100644
--- a/internal/engine/commands/core.go
+++ b/internal/engine/commands/core.go
@@ -88,8 +88,10 @@ func mend(args cell.I) cell.I {
 }
 
 func rend(args cell.I) cell.I {
-	sep := pair.Car(args)
-	s := pair.Cadr(args)
+	v := validate.Fixed(args, 2, 2)
+
+	sep := v[0]
+	s := v[1]
 
 	create := sym.New
 	if _, ok := s.(*str.T); ok {
-- 
2.43.0


From 47016b377f351e47ac6b924f1a9dc5de7f4b31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:24 +0000
Subject: [PATCH 12/51] fix: make a new list when extending the empty list

The result was the other list itself, not a copy.
---
 internal/engine/commands/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/engine/commands/list.go b/internal/engine/commands/list.go
index 5f69416..5cb8615 100644
--- a/internal/engine/commands/list.go
+++ b/internal/engine/commands/list.go
@@ -38,6 +38,11 @@ func extend(s, args cell.I) cell.I {
 
 	self := pair.To(s)
 
+	if self == pair.Null {
+		// There is nothing to extend, so make a new list.
+		return list.New(list.Array(v[0])...)
+	}
+
 	return list.Join(self, v[0])
 }
 
-- 
2.43.0


From be299ea67f61f8a07083cd91c59d9449eb8e19c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 13/51] fix: print improper lists of more than one cell so that
 they can be read back

(cons 1 (cons 2 3)) was printed as a list of two elements.
---
 internal/common/type/pair/pair.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 98b1c79..cb6a3da 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -54,18 +54,17 @@ func (p *pair) String() string {
 func (p *pair) string(toString func(cell.I) string) string {
 	s := ""
 
-	improper := false
-
 	tail := Cdr(p)
-	if !Is(tail) {
-		improper = true
+
+	improper := !proper(p)
+	if improper {
 		s += "(|" + name + " "
 	}
 
 	sublist := false
 
 	head := Car(p)
-	if Is(head) && Is(Cdr(head)) {
+	if Is(head) && proper(head) {
 		sublist = true
 		s += "("
 	}
@@ -167,6 +166,15 @@ func SetCdr(c, value cell.I) {
 	To(c).cdr = value
 }
 
+// proper returns true if the list c ends with the empty list.
+func proper(c cell.I) bool {
+	for Is(c) && c != Null {
+		c = Cdr(c)
+	}
+
+	return c == Null
+}
+
 // A compiler-checked list of interfaces this type satisfies. Never called.
 func implements() { //nolint:deadcode,unused
 	var t pair
-- 
2.43.0


From f0274f92f332f1f06eb98ff7c1c870d92540c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 14/51] fix: read numbers written as fractions or decimals

The words of (|number 1/2|) are joined like any adjacent words, so neither
that, which is how write prints it, nor (|number 1.5|) could be read.
---
 internal/reader/parser/parser.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 5b0c75f..e22ff48 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -506,7 +506,7 @@ func (p *T) meta(c cell.I) cell.I {
 		panic("invalid meta command")
 	}
 
-	t = pair.Cadr(c)
+	t = joined(pair.Cadr(c))
 
 	arg, ok := t.(fmt.Stringer)
 	if ok {
@@ -517,6 +517,25 @@ func (p *T) meta(c cell.I) cell.I {
 	return num.New(arg.String())
 }
 
+// joined returns the word for an implicit join of words, like the 1/2 in (|number 1/2|).
+func joined(c cell.I) cell.I {
+	if !pair.Is(c) || c == pair.Null || !pair.Car(c).Equal(sym.New("mend")) {
+		return c
+	}
+
+	s := ""
+
+	for _, t := range list.Array(pair.Cddr(c)) {
+		if !sym.Is(t) && !str.Is(t) {
+			return c
+		}
+
+		s += common.String(t)
+	}
+
+	return sym.New(s)
+}
+
 func (p *T) value() cell.I {
 	t := p.peek()
 
-- 
2.43.0


From 64889cc8531d1adfc925b09bd5722413bf654b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 15/51] fix: let a routine equal itself

---
 internal/engine/task/action.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 3a6f1ee..dc47a9d 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -142,6 +142,13 @@ type binding struct {
 	self cell.I
 }
 
+// Equal returns true if the cell c is a binding for the same routine as b.
+func (b *binding) Equal(c cell.I) bool {
+	p, ok := c.(*binding)
+
+	return ok && b.Closure() == p.Closure()
+}
+
 // Method, and syntax types all conform to the command interface.
 type command interface {
 	cell.I
-- 
2.43.0


From 3861094cdfc8ae80e89a50494358835e14649d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:09 +0000
Subject: [PATCH 16/51] fix: recognize methods and syntax found in a variable

---
 internal/engine/task/action.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index dc47a9d..77c69b2 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -957,6 +957,10 @@ func m(do func(s, args cell.I) cell.I) *Method {
 
 // Bind a command to a scope.
 func bind(a command, self cell.I) *binding {
+	if b, ok := a.(*binding); ok {
+		a = b.command
+	}
+
 	return &binding{a, self}
 }
 
-- 
2.43.0


From e0a10b1677c09f607b333880020d20227e6fe848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:51 +0000
Subject: [PATCH 17/51] fix: leave the code passed to object and catch alone,
 and rethrow without a clause

---
 internal/engine/boot/boot.oh | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 5b61670..8fee704 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -131,8 +131,9 @@ define quote: syntax (v) {
 }
 
 define object: syntax ((body)) e {
-    body append (quote ((method self () = (return (resolve self)))))
-    e eval (cons block $body)
+    define self: quote ((method self () = (return (resolve self))))
+
+    e eval (cons block (list (splice $body) $self))
 }
 
 # TODO: Add optional map literal argument.
@@ -534,13 +535,7 @@ block {
 # Exception stuff.
 
 define catch: syntax (name (clause)) e {
-    define body: list throw (list resolve $name)
-
-    if (null? $clause) {
-        set body: list body
-    } else {
-        set body: clause append $body
-    }
+    define body: list (splice $clause) (list throw (list resolve $name))
 
     define defn: list method (list $name throw) =
     defn extend $body
-- 
2.43.0


From b7224b12cad9bc2c478798e155d07bad7e1a3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 18/51] fix: do not keep every previous tail call's scope alive
 through return

---
 internal/engine/task/action.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 77c69b2..80c1782 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -244,7 +244,9 @@ func apply(t *T) Op {
 
 	t.ReplaceOp(&registers{frame: t.frame})
 
-	cc := &registers{dump: t.dump, stack: t.stack}
+	// The value returned replaces the binding, which would otherwise keep
+	// the scope it was found in (and so every previous tail call) alive.
+	cc := &registers{dump: pair.Cons(pair.Null, pair.Cdr(t.dump)), stack: t.stack}
 
 	// If the visibility differs, create a new frame.
 	if !c.Scope.Visible(s) {
-- 
2.43.0


From 3419c44f16cafa5924346ccab667da4768715882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:52 +0000
Subject: [PATCH 19/51] fix: run a script whatever characters are in its path

---
 internal/system/options/options.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/system/options/options.go b/internal/system/options/options.go
index 3ceee9b..43bc2d9 100644
--- a/internal/system/options/options.go
+++ b/internal/system/options/options.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/docopt/docopt-go"
 	"github.com/mattn/go-isatty"
+	"github.com/michaelmacinnis/adapted"
 )
 
 //nolint:gochecknoglobals
@@ -81,7 +82,7 @@ func Parse() {
 
 	path, _ := opts.String("SCRIPT")
 	if path != "" {
-		command = "source " + path
+		command = "source " + adapted.CanonicalString(path)
 		name = path
 		script = path
 	} else if command == "" && isatty.IsTerminal(os.Stdin.Fd()) {
-- 
2.43.0


From 32bc61ba00261528e0dddb761fa70b91c542de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:10 +0000
Subject: [PATCH 20/51] fix: accept an empty command, script or name

---
 internal/system/options/options.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/system/options/options.go b/internal/system/options/options.go
index 43bc2d9..48b7e83 100644
--- a/internal/system/options/options.go
+++ b/internal/system/options/options.go
@@ -73,15 +73,18 @@ func Parse() {
 
 	script = ""
 
-	command, _ = opts.String("--command")
+	command, err = opts.String("--command")
+	if err == nil && command == "" {
+		command = "\n" // Given, but empty.
+	}
 
-	name, _ := opts.String("NAME")
-	if name == "" {
+	name, err := opts.String("NAME")
+	if err != nil {
 		name = os.Args[0]
 	}
 
-	path, _ := opts.String("SCRIPT")
-	if path != "" {
+	path, err := opts.String("SCRIPT")
+	if err == nil {
 		command = "source " + adapted.CanonicalString(path)
 		name = path
 		script = path
-- 
2.43.0


From 0dd58c4f096611ba690b7903abb5b8205c890dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 21/51] fix: read commands from stdin when it is not a terminal

---
 main.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index d051434..edbe50b 100644
--- a/main.go
+++ b/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bufio"
 	"errors"
 	"io"
 	"os"
@@ -71,6 +72,39 @@ func command() bool {
 	return true
 }
 
+// commands evaluates the commands read from stdin when it is not a terminal.
+func commands() {
+	in := bufio.NewReader(os.Stdin)
+	j := job.New(process.Group())
+	r := reader.New(options.Args()[0])
+
+	for {
+		line, eof := in.ReadString('\n')
+		if line != "" && eof != nil {
+			line += "\n"
+		}
+
+		c, err := r.Scan(line)
+		if err != nil {
+			println(err.Error())
+			os.Exit(1)
+		}
+
+		if c != nil {
+			engine.Evaluate(j, c)
+		}
+
+		if eof != nil {
+			break
+		}
+	}
+
+	if r.Partial() {
+		println("incomplete command")
+		os.Exit(1)
+	}
+}
+
 func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []string, t string) {
 	return func(s string, n int) (h string, cs []string, t string) {
 		h = s[:n]
@@ -432,7 +466,7 @@ func main() {
 	engine.Boot(options.Script(), options.Args())
 
 	if !command() && !interactive() {
-		println("unexpected error")
+		commands()
 	}
 }
 
-- 
2.43.0


From 3205541b4384558dd592696d978ea27f1c16adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:42 +0000
Subject: [PATCH 22/51] fix: do not mark a task as exited when exit was given
 bad arguments

---
 internal/engine/task/action.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 80c1782..1f12d5a 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1067,9 +1067,11 @@ func glob(t *T) Op {
 // Methods.
 
 func exit(t *T) Op {
+	op := fatal(t)
+
 	t.Exit()
 
-	return fatal(t)
+	return op
 }
 
 func fatal(t *T) Op {
-- 
2.43.0


From 5d49b9cc8dbb20b17b38865e98c851263c26dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:25 +0000
Subject: [PATCH 23/51] fix: report 128 plus the signal for a process that
 dumped core

---
 internal/system/job/job_unix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 23c6e34..cca735f 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -420,14 +420,14 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 		return
 	}
 
-	code := int(ws)
+	code := 0
 
 	switch {
 	case ws.Exited():
 		code = ws.ExitStatus()
 
 	case ws.Signaled():
-		code += 128
+		code = 128 + int(ws.Signal())
 
 	default:
 		return
-- 
2.43.0


From 739c495f7595db6c0eca13f76f00516ea49ccb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:25 +0000
Subject: [PATCH 24/51] fix: look for the file named by a string in exists

---
 internal/engine/task/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 1f12d5a..a95f382 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1036,7 +1036,7 @@ func exists(t *T) Op {
 	ignore := false
 
 	for ; args != pair.Null; args = pair.Cdr(args) {
-		path := literal.String(pair.Car(args))
+		path := common.String(pair.Car(args))
 		if path == "-i" {
 			ignore = true
 
-- 
2.43.0


From 85076de8fa7829073b4cddc2968b61e9dbc699c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:38 +0000
Subject: [PATCH 25/51] fix: allow input from a device file

---
 internal/engine/boot/boot.oh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 8fee704..bf08f92 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -259,14 +259,14 @@ block {
 
             define f ()
             if (not (or (chan? $c) (pipe? $c))) {
-                if (and $check (exists -i $c)) {
+                if (eq? r $mode) {
+                    if (not: exists $c) {
+                        throw "${c} does not exist"
+                    }
+                } else if (and $check (exists -i $c)) {
                     if (eq? w $mode) {
                         throw "${c} exists"
                     }
-                } else {
-                    if (eq? r $mode) {
-                        throw "${c} does not exist"
-                    }
                 }
                 set f: open $mode $c
                 set c $f
-- 
2.43.0


From 5434d8bcb1407f5ec6d53debcb3ce94a0cfcf6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:38 +0000
Subject: [PATCH 26/51] fix: let umask 0 set the mask

---
 internal/engine/commands/umask_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/commands/umask_unix.go b/internal/engine/commands/umask_unix.go
index 8ee8c05..827640e 100644
--- a/internal/engine/commands/umask_unix.go
+++ b/internal/engine/commands/umask_unix.go
@@ -23,7 +23,7 @@ func umask(args cell.I) cell.I {
 
 	omask := process.Umask(int(nmask))
 
-	if nmask == 0 {
+	if len(v) == 0 {
 		process.Umask(omask)
 	}
 
-- 
2.43.0


From 5a5cc02c93183aeaef0dd13c219c8b602ef4637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:40 +0000
Subject: [PATCH 27/51] fix: take the current and home directories literally
 when expanding wildcards

---
 internal/engine/task/task.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 1819c54..5e8cf47 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -237,18 +237,24 @@ func (t *T) expand(args cell.I) cell.I {
 
 		s := common.String(c)
 
-		path := t.tildeExpand(s)
-		if !strings.ContainsAny(path, "*?[") {
-			l = list.Append(l, sym.New(path))
+		if !strings.ContainsAny(s, "*?[") {
+			l = list.Append(l, sym.New(t.tildeExpand(s, t.stringValue("HOME"))))
 
 			continue
 		}
 
+		path := t.tildeExpand(s, quoteMeta(t.stringValue("HOME")))
+
 		pwd := ""
 		if !filepath.IsAbs(path) {
 			pwd = t.stringValue("PWD")
 			// path = filepath.Join(pwd, path)
-			path = pwd + string(os.PathSeparator) + path
+			path = quoteMeta(pwd) + string(os.PathSeparator) + path
+			if strings.ContainsAny(pwd, "*?[") {
+				// An element that comes after an escaped one must be a name.
+				path = filepath.Clean(path)
+			}
+
 			pwd = filepath.Clean(pwd)
 		}
 
@@ -290,12 +296,12 @@ func (t *T) stringValue(k string) string {
 	return common.String(v)
 }
 
-func (t *T) tildeExpand(s string) string {
+func (t *T) tildeExpand(s, home string) string {
 	if !strings.HasPrefix(s, "~") {
 		return s
 	}
 
-	return filepath.Join(t.stringValue("HOME"), s[1:])
+	return filepath.Join(home, s[1:])
 }
 
 func (t *T) value(s scope.I, k string) cell.I {
@@ -318,3 +324,17 @@ func (t *T) value(s scope.I, k string) cell.I {
 
 	return v
 }
+
+// quoteMeta escapes the wildcards in the path s. Glob does not look for escapes
+// before the first path element that contains a wildcard so nothing is escaped
+// before that element.
+func quoteMeta(s string) string {
+	n := strings.IndexAny(s, "*?[")
+	if n == -1 {
+		return s
+	}
+
+	n = strings.LastIndexByte(s[:n], os.PathSeparator) + 1
+
+	return s[:n] + strings.NewReplacer("*", `\*`, "?", `\?`, "[", `\[`, `\`, `\\`).Replace(s[n:])
+}
-- 
2.43.0


From 17c9f56da5e0ea8fad7afa4bd9f67913d1bfec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:23 +0000
Subject: [PATCH 28/51] fix: resolve relative names against PWD in exists, open
 and command look-up

---
 internal/common/type/pipe/pipe.go    | 18 +++++++++++++++-
 internal/engine/boot/boot.oh         |  4 ++++
 internal/engine/commands/commands.go |  1 -
 internal/engine/commands/file.go     | 11 ++++------
 internal/engine/task/action.go       | 13 +++++++++---
 internal/engine/task/task.go         | 31 ++++++++++++++++++++++++++++
 6 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 8202a2a..b9b5dc8 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -32,6 +32,8 @@ type T struct {
 	p *reader.T
 	r *os.File
 	w *os.File
+
+	label string // Where what is read comes from.
 }
 
 type pipe = T
@@ -57,6 +59,15 @@ func New(r, w *os.File) cell.I {
 	return p
 }
 
+// Open creates a new pipe cell for an open file. The label is the name used
+// for the file in the locations of any commands read from it.
+func Open(label string, r, w *os.File) cell.I {
+	c := New(r, w)
+	To(c).label = label
+
+	return c
+}
+
 // Close closes both the read and write ends of the pipe.
 func (p *pipe) Close() {
 	if p.closeableReadEnd() {
@@ -248,7 +259,12 @@ func (p *pipe) reader() *reader.T {
 	}
 
 	if p.p == nil {
-		p.p = reader.New(p.r.Name())
+		label := p.label
+		if label == "" {
+			label = p.r.Name()
+		}
+
+		p.p = reader.New(label)
 	}
 
 	return p.p
diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index bf08f92..a17c11d 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -61,6 +61,8 @@ define or: syntax ((lst)) e {
 }
 
 define source: method (basename) e {
+    define PWD: e eval (list resolve PWD)
+
     block {
         define args: glob $basename
 
@@ -248,6 +250,8 @@ block {
 
     define make-redirect: method (check closer mode override) {
         syntax (c cmd) e {
+            define PWD: e eval (list resolve PWD)
+
             define c: e eval $c
             if (symbol? $c) {
                 define l: glob $c
diff --git a/internal/engine/commands/commands.go b/internal/engine/commands/commands.go
index 263d42a..dee4d7b 100644
--- a/internal/engine/commands/commands.go
+++ b/internal/engine/commands/commands.go
@@ -31,7 +31,6 @@ func Functions() map[string]func(cell.I) cell.I {
 		"number":    number,
 		"number?":   isNumber,
 		"object?":   isObject,
-		"open":      open,
 		"pipe":      makePipe,
 		"pipe?":     isPipe,
 		"random":    random,
diff --git a/internal/engine/commands/file.go b/internal/engine/commands/file.go
index b7be7e3..273919d 100644
--- a/internal/engine/commands/file.go
+++ b/internal/engine/commands/file.go
@@ -7,17 +7,14 @@ import (
 	"strings"
 
 	"github.com/michaelmacinnis/adapted"
-	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
-	"github.com/michaelmacinnis/oh/internal/common/type/pair"
 	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
 	"github.com/michaelmacinnis/oh/internal/common/type/sym"
 	"github.com/michaelmacinnis/oh/internal/common/validate"
 )
 
-func open(args cell.I) cell.I {
-	mode := common.String(pair.Car(args))
-	path := common.String(pair.Cadr(args))
+// Open opens the file called name, which is at path, and returns it as a pipe.
+func Open(mode, name, path string) cell.I {
 	flags := 0
 
 	if !strings.ContainsAny(mode, "-") {
@@ -53,7 +50,7 @@ func open(args cell.I) cell.I {
 
 	f, err := os.OpenFile(path, flags, 0o666)
 	if err != nil {
-		panic(err.Error())
+		panic(strings.Replace(err.Error(), path, name, 1))
 	}
 
 	r := f
@@ -66,7 +63,7 @@ func open(args cell.I) cell.I {
 		w = nil
 	}
 
-	return pipe.New(r, w)
+	return pipe.Open(name, r, w)
 }
 
 func tempfifo(args cell.I) cell.I {
diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index a95f382..0a092d5 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -9,7 +9,6 @@ import (
 	"strconv"
 	"strings"
 
-	"github.com/michaelmacinnis/adapted"
 	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/interface/boolean"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
@@ -58,6 +57,7 @@ func Actions(s scope.I) {
 	s.Define("cd", &Method{Op: Action(cd)})
 	s.Define("command", &Method{Op: Action(cmd)})
 	s.Define("exists", &Method{Op: Action(exists)})
+	s.Define("open", &Method{Op: Action(open)})
 	s.Define("glob", &Method{Op: Action(glob)})
 
 	// Functions.
@@ -813,7 +813,7 @@ func external(t *T) Op {
 
 	name := common.String(pair.Car(args))
 
-	arg0, executable, err := adapted.LookPath(name, t.stringValue("PATH"))
+	arg0, executable, err := t.lookPath(name)
 	if err != nil {
 		panic(err.Error())
 	}
@@ -1045,7 +1045,7 @@ func exists(t *T) Op {
 
 		count++
 
-		s, err := os.Stat(path)
+		s, err := os.Stat(t.absolute(path))
 		if err != nil {
 			return t.Return(pair.Null)
 		}
@@ -1206,6 +1206,13 @@ func resolves(t *T) Op {
 	return t.Return(create.Bool(v != nil))
 }
 
+func open(t *T) Op {
+	mode := common.String(pair.Car(t.code))
+	name := common.String(pair.Cadr(t.code))
+
+	return t.Return(commands.Open(mode, name, t.absolute(name)))
+}
+
 func trace(t *T) Op {
 	dup := *t.registers
 
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 5e8cf47..edc284a 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -223,6 +223,17 @@ func (t *T) Stop() {
 	t.state.Stop(nil)
 }
 
+// absolute returns a path to the file s. A task's current directory is PWD, not the
+// current directory of the process, which all tasks share.
+func (t *T) absolute(s string) string {
+	pwd := t.stringValue("PWD")
+	if s == "" || pwd == "" || filepath.IsAbs(s) {
+		return s
+	}
+
+	return pwd + string(os.PathSeparator) + s
+}
+
 func (t *T) expand(args cell.I) cell.I {
 	l := pair.Null
 
@@ -278,6 +289,26 @@ func (t *T) expand(args cell.I) cell.I {
 	return l
 }
 
+func (t *T) lookPath(name string) (string, bool, error) {
+	if strings.HasPrefix(name, "./") || strings.HasPrefix(name, "../") {
+		path := t.absolute(name)
+
+		_, executable, err := adapted.LookPath(path, "")
+		if err != nil {
+			err = common.Error(strings.ReplaceAll(err.Error(), path, name))
+		}
+
+		return name, executable, err
+	}
+
+	dirs := filepath.SplitList(t.stringValue("PATH"))
+	for k, dir := range dirs {
+		dirs[k] = t.absolute(dir)
+	}
+
+	return adapted.LookPath(name, strings.Join(dirs, string(os.PathListSeparator)))
+}
+
 func (t *T) resolve(s scope.I, k string) cell.I {
 	v := t.value(s, k)
 	if v == nil {
-- 
2.43.0


From 566f8b67d88949e4a74d52be1c8612cb0b4ccc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 29/51] fix: list the directory asked for, and only that, for
 file name completion

---
 internal/system/cache/cache.go | 54 +++++++---------------------------
 1 file changed, 11 insertions(+), 43 deletions(-)

diff --git a/internal/system/cache/cache.go b/internal/system/cache/cache.go
index 658148c..93c2fa8 100644
--- a/internal/system/cache/cache.go
+++ b/internal/system/cache/cache.go
@@ -49,51 +49,23 @@ func Executables(dirname string) []string {
 func Files(dirname string) []string {
 	dirname = filepath.Clean(dirname)
 
-	max := strings.Count(dirname, pathSeparator) + 1
-
 	e := []string{}
 	f := []string{}
 
-	done := make(chan struct{})
-
-	requestq <- func() {
-		if _, ok := executables[dirname]; !ok {
-			delete(executables, dirname)
-		}
-		close(done)
-	}
-
-	<-done
-
-	original := dirname
-
-	dirname, err := filepath.EvalSymlinks(dirname)
-	if err != nil {
-		dirname = original
-	}
-
-	_ = filepath.Walk(dirname, func(p string, i os.FileInfo, err error) error {
-		if p == dirname {
-			return nil
-		}
+	// What could be read before any error is returned.
+	entries, _ := os.ReadDir(dirname)
 
-		depth := strings.Count(p, pathSeparator)
-		if depth > max {
-			if i.IsDir() {
-				return filepath.SkipDir
-			}
-
-			return nil
-		} else if depth < max {
-			return nil
+	for _, entry := range entries {
+		i, err := entry.Info()
+		if err != nil {
+			// Removed since the directory was read.
+			continue
 		}
 
-		if original != dirname {
-			p = strings.Replace(p, dirname, original, 1)
-		}
+		p := filepath.Join(dirname, entry.Name())
 
 		switch {
-		case p != pathSeparator && i.IsDir():
+		case i.IsDir():
 			p += pathSeparator
 			e = append(e, p)
 
@@ -102,14 +74,10 @@ func Files(dirname string) []string {
 		}
 
 		f = append(f, p)
-
-		return nil
-	})
+	}
 
 	requestq <- func() {
-		if len(e) > 0 {
-			executables[dirname] = e
-		}
+		executables[dirname] = e
 	}
 
 	return f
-- 
2.43.0


From c9512624b4c24f424b0d0e147ff0e8cf9d912143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 30/51] fix: save the history and restore the terminal when
 exit ends a session

---
 internal/engine/engine.go |  9 ++++---
 main.go                   | 53 ++++++++++++++++++++++++++-------------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index e7ceba4..88ab161 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -85,8 +85,9 @@ func Boot(path string, arguments []string) {
 	sym.Cache(false)
 }
 
-// Evaluate evaluates the command c.
-func Evaluate(j *job.T, c cell.I) cell.I {
+// Evaluate evaluates the command c. If the command called exit it returns
+// the exit status and true.
+func Evaluate(j *job.T, c cell.I) (int, bool) {
 	r, exited := System(j, c)
 
 	if exited {
@@ -95,12 +96,12 @@ func Evaluate(j *job.T, c cell.I) cell.I {
 			code = success(r)
 		}
 
-		os.Exit(code)
+		return code, true
 	}
 
 	scope0.Define("?", r)
 
-	return r
+	return 0, false
 }
 
 // Resolve returns the string value for a variable.
diff --git a/main.go b/main.go
index edbe50b..102db9b 100644
--- a/main.go
+++ b/main.go
@@ -67,7 +67,7 @@ func command() bool {
 		return true // Nothing but blank lines and comments.
 	}
 
-	engine.Evaluate(job.New(process.Group()), c)
+	evaluate(job.New(process.Group()), c)
 
 	return true
 }
@@ -91,7 +91,7 @@ func commands() {
 		}
 
 		if c != nil {
-			engine.Evaluate(j, c)
+			evaluate(j, c)
 		}
 
 		if eof != nil {
@@ -214,6 +214,14 @@ func directories(s string) []string {
 	return dirs
 }
 
+// evaluate evaluates the command c and ends the shell if that calls exit.
+func evaluate(j *job.T, c cell.I) {
+	code, exited := engine.Evaluate(j, c)
+	if exited {
+		os.Exit(code)
+	}
+}
+
 func expand(cwd, home, candidate string) (string, bool) {
 	dotdir := false
 	prefix := candidate + "   "
@@ -250,9 +258,10 @@ func files(cached func(string) []string, cwd, home, paths, word string) []string
 	return matches(cached, candidates, word)
 }
 
-func interactive() bool {
+// interactive returns the exit status for the shell and if there was a session.
+func interactive() (int, bool) {
 	if !options.Interactive() {
-		return false
+		return 0, false
 	}
 
 	go cache.Populate(engine.Resolve("PATH"))
@@ -263,7 +272,7 @@ func interactive() bool {
 	if err != nil {
 		println(err.Error())
 
-		return false
+		return 0, false
 	}
 
 	// We assume the terminal starts in cooked mode.
@@ -271,7 +280,7 @@ func interactive() bool {
 	if err != nil {
 		println(err.Error())
 
-		return false
+		return 0, false
 	}
 
 	// Restore terminal state when we exit.
@@ -290,7 +299,7 @@ func interactive() bool {
 	if err != nil {
 		println(err.Error())
 
-		return false
+		return 0, false
 	}
 
 	err = history.Load(cli.ReadHistory)
@@ -307,12 +316,12 @@ func interactive() bool {
 		_, _ = os.Stdout.Write([]byte{'\n'})
 	}()
 
-	err = repl(cli, cooked, uncooked, name)
-	if !errors.Is(err, io.EOF) {
+	code, err := repl(cli, cooked, uncooked, name)
+	if err != nil && !errors.Is(err, io.EOF) {
 		println(err.Error())
 	}
 
-	return true
+	return code, true
 }
 
 func join(s ...string) string {
@@ -380,7 +389,7 @@ func split(s string) (head, tail string) {
 	return
 }
 
-func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) error {
+func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) (int, error) {
 	j := job.New(0)
 	r := reader.New(name)
 
@@ -397,7 +406,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 
 		err := uncooked.ApplyMode()
 		if err != nil {
-			return err
+			return 0, err
 		}
 
 		line, err := cli.Prompt(p)
@@ -409,13 +418,13 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 
 				continue
 			} else {
-				return err
+				return 0, err
 			}
 		}
 
 		err = cooked.ApplyMode()
 		if err != nil {
-			return err
+			return 0, err
 		}
 
 		if line == "" {
@@ -440,7 +449,10 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 		}
 
 		if c != nil {
-			engine.Evaluate(j, c)
+			code, exited := engine.Evaluate(j, c)
+			if exited {
+				return code, nil
+			}
 
 			process.RestoreForegroundGroup()
 
@@ -465,9 +477,16 @@ func main() {
 
 	engine.Boot(options.Script(), options.Args())
 
-	if !command() && !interactive() {
-		commands()
+	if command() {
+		return
+	}
+
+	code, ok := interactive()
+	if ok {
+		os.Exit(code)
 	}
+
+	commands()
 }
 
 //go:generate ./oh bin/test.oh
-- 
2.43.0


From dfef70f64e2cedac05ec5fc84fd02816f5470d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 31/51] fix: load a history with long lines

---
 internal/system/history/history.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/system/history/history.go b/internal/system/history/history.go
index 77db93e..de7226d 100644
--- a/internal/system/history/history.go
+++ b/internal/system/history/history.go
@@ -1,6 +1,7 @@
 package history
 
 import (
+	"bufio"
 	"io"
 	"os"
 )
@@ -13,12 +14,17 @@ func Load(read func(r io.Reader) (int, error)) error {
 		return nil
 	}
 
-	_, err = read(f)
+	defer f.Close()
+
+	i, err := f.Stat()
 	if err != nil {
 		return err
 	}
 
-	return f.Close()
+	// With a buffer that can hold the whole file no line is too long.
+	_, err = read(bufio.NewReaderSize(f, int(i.Size())+1))
+
+	return err
 }
 
 // Save saves the current command history.
-- 
2.43.0


From 3aff38cfcbdf6e626b5c235c100b86e428f29263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:59 +0000
Subject: [PATCH 32/51] fix: do not hold a pipe's lock while blocked reading or
 writing

---
 internal/common/type/pipe/pipe.go | 33 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index b9b5dc8..0b76047 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -112,9 +112,6 @@ func (p *pipe) Read() cell.I {
 		}
 	}()
 
-	p.RLock()
-	defer p.RUnlock()
-
 	var (
 		c   cell.I
 		err error
@@ -164,9 +161,6 @@ func (p *pipe) ReadLine() cell.I {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
-
 	s, ok := line(b)
 	if !ok {
 		return pair.Null
@@ -183,16 +177,15 @@ func (p *pipe) ReaderClose() {
 
 // Write writes a cell to the pipe.
 func (p *pipe) Write(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
+	defer runtime.KeepAlive(p)
 
-	if p.w == nil {
+	w := p.writer()
+	if w == nil {
 		panic("write to closed pipe")
 	}
 
 	// One write, so that another task's output cannot end up in the middle.
-	_, err := p.w.WriteString(literal.String(c) + "\n")
+	_, err := w.WriteString(literal.String(c) + "\n")
 	if err != nil {
 		panic(err.Error())
 	}
@@ -200,16 +193,15 @@ func (p *pipe) Write(c cell.I) {
 
 // WriteLine writes the string value of a cell to the pipe.
 func (p *pipe) WriteLine(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
+	defer runtime.KeepAlive(p)
 
-	if p.w == nil {
+	w := p.writer()
+	if w == nil {
 		panic("write to closed pipe")
 	}
 
 	// One write, so that another task's output cannot end up in the middle.
-	_, err := p.w.WriteString(common.String(c) + "\n")
+	_, err := w.WriteString(common.String(c) + "\n")
 	if err != nil {
 		panic(err.Error())
 	}
@@ -308,6 +300,15 @@ func (p *pipe) restart(r *reader.T) {
 	}
 }
 
+// writer returns the write end of the pipe. The lock is not held while writing.
+// A write can block until something reads and reading needs the lock.
+func (p *pipe) writer() *os.File {
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.w
+}
+
 // writerClosePipe closes the write end of the pipe.
 func (p *pipe) writerClosePipe() {
 	p.RLock()
-- 
2.43.0


From c19917780dde50c3fc6198b6958967c070883ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:11 +0000
Subject: [PATCH 33/51] fix: a pipeline's value is that of its last stage,
 whichever ends last

---
 internal/engine/boot/boot.oh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index a17c11d..187e4cb 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -233,7 +233,7 @@ block {
 
     define make-pipe: method (override) {
         syntax (right (left)) e {
-            define c: chan 2
+            define c: chan 1
             define p: pipe
 
             spawn {
@@ -241,10 +241,13 @@ block {
                 p writer-close
             } 
 
-            c write (override-stdin $e $p $right)
+            define rex: override-stdin $e $p $right
             p reader-close
 
-            collect-unwrap-r-ex $c 2
+            # The value is that of the last stage, whichever ends last.
+            collect-unwrap-r-ex $c 1
+            c write $rex
+            collect-unwrap-r-ex $c 1
         }
     }
 
-- 
2.43.0


From 06e8eadd15bb44a097bbcf78c8ea5e1b89d01b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:40 +0000
Subject: [PATCH 34/51] fix: do not modify stack entries that continuations may
 share

---
 internal/engine/task/registers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/engine/task/registers.go b/internal/engine/task/registers.go
index c249188..7596bb3 100644
--- a/internal/engine/task/registers.go
+++ b/internal/engine/task/registers.go
@@ -71,9 +71,10 @@ func (m *registers) PushOp(s Op) Op {
 	previous := toRegisters(m.stack.op)
 
 	if current != nil && previous != nil {
-		// Condense restore operations.
+		// Condense restore operations. The stack may be shared (with
+		// continuations and with other tasks) so it is not modified.
 		previous.restoreOver(current)
-		m.stack.op = current
+		m.stack = &stack{m.stack.stack, s}
 	} else {
 		m.stack = &stack{m.stack, s}
 	}
-- 
2.43.0


From 0cceff1c46670198c63876c83752e71a8460828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:29 +0000
Subject: [PATCH 35/51] fix: import from several tasks, from methods of modules
 and with exceptions

---
 internal/engine/boot/boot.oh | 77 ++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 187e4cb..74c3b7a 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -408,32 +408,7 @@ define module: method (name) = # At the top-level module is a no-op.
 block {
     define do-import: method (callback path) {
         define import-return $return
-
-        catch ex {
-            callback (cons () $ex)
-            import-return
-        }
-
-        define import: method (path) {
-            define ecex: (method () {
-                request write $return $path
-                return ()
-            })
-
-            define ex: ecex tail
-
-            # TODO: Handle cases where we want to throw ().
-            if (not: null? $ex) {
-                throw $ex
-            }
-
-            define ec: ecex head
-            if (not: null? $ec) {
-                return $ec
-            }
-
-            import-return
-        }
+        set suspend $return
 
         define module-name ()
 
@@ -446,10 +421,23 @@ block {
             set module-name $name
         }
 
-        define module-object: object {
-            source $path
+        define load: method () {
+            object {
+                source $path
+            }
         }
 
+        # The module must not be in the scope of this catch. Otherwise, whatever
+        # the module's methods throw, after it is imported, would be caught here.
+        define module-object: (method () {
+            catch ex {
+                callback (cons () $ex)
+                import-return
+            }
+
+            load
+        })
+
         if (not: null? $module-name) {
             modules set $module-name $module-object
         }
@@ -458,13 +446,24 @@ block {
     }
 
     set import: method (path) {
-        define response: chan
+        define ecex ()
+
+        if (resolves? importing) {
+            # Called by a module being imported. The service task can't wait for
+            # itself and so continues here once it has imported path.
+            set ecex: (method () {
+                set nested (list $return $path)
+                suspend
+            })
+        } else {
+            define response: chan
 
-        request write (method (returned) {
-            response write $returned
-        }) $path
+            request write (method (returned) {
+                response write $returned
+            }) $path
 
-        define ecex: response read
+            set ecex: response read
+        }
 
         define ex: ecex tail
 
@@ -477,11 +476,21 @@ block {
     }
 
     define modules: map
+    define nested ()
     define request: chan 1
+    define suspend ()
 
     spawn {
+        export importing true
+
         while true {
-            do-import (splice (request read-list))
+            define next: request read-list
+
+            while $next {
+                set nested ()
+                do-import (splice $next)
+                set next $nested
+            }
         }
     }
 }
-- 
2.43.0


From f08a2c93bca9b6450fc337a879e2a142477f155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:52 +0000
Subject: [PATCH 36/51] fix: do not stop, interrupt or crash on the prompt
 along with a command

---
 main.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 102db9b..fa5b2f8 100644
--- a/main.go
+++ b/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bufio"
 	"errors"
+	"fmt"
 	"io"
 	"os"
 	"path"
@@ -14,6 +15,7 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/type/list"
 	"github.com/michaelmacinnis/oh/internal/common/type/pair"
+	"github.com/michaelmacinnis/oh/internal/common/type/status"
 	"github.com/michaelmacinnis/oh/internal/common/type/str"
 	"github.com/michaelmacinnis/oh/internal/common/type/sym"
 	"github.com/michaelmacinnis/oh/internal/engine"
@@ -396,13 +398,20 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) (in
 	cli.SetWordCompleter(completer(&j, &r))
 	cli.SetTabCompletionStyle(liner.TabPrints)
 
+	// The lines of the command being entered.
+	var lines []string
+
 	continued := str.New("  ")
 	initial := str.New(": ")
 	suffix := initial
 
 	for {
 		v, _ := engine.System(j, list.New(sym.New("prompt"), suffix))
-		p := common.String(v)
+
+		p := common.String(suffix)
+		if s, ok := v.(fmt.Stringer); ok && !status.Is(v) {
+			p = s.String()
+		}
 
 		err := uncooked.ApplyMode()
 		if err != nil {
@@ -415,6 +424,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) (in
 				r.Close()
 				r = reader.New(name)
 				suffix = initial
+				lines = nil
 
 				continue
 			} else {
@@ -432,7 +442,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) (in
 		}
 
 		cli.AppendHistory(line)
-		j.Append(line)
+		lines = append(lines, line)
 
 		suffix = continued
 
@@ -444,12 +454,18 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) (in
 
 			suffix = initial
 			r = reader.New(name)
+			lines = nil
 
 			continue
 		}
 
 		if c != nil {
-			code, exited := engine.Evaluate(j, c)
+			command := job.New(0)
+			for _, line := range lines {
+				command.Append(line)
+			}
+
+			code, exited := engine.Evaluate(command, c)
 			if exited {
 				return code, nil
 			}
@@ -460,6 +476,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) (in
 
 			suffix = initial
 			r = reader.New(name)
+			lines = nil
 
 			j = job.New(0)
 		}
-- 
2.43.0


From d675ef076d7da791a206aebaa84de9d63afb2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:56 +0000
Subject: [PATCH 37/51] fix: interrupt, stop and resume every task and process
 of a job

---
 internal/engine/engine.go       |  10 +-
 internal/engine/task/action.go  |   5 +
 internal/engine/task/state.go   | 136 ++++++++++-------
 internal/engine/task/task.go    |  46 +++++-
 internal/system/job/job_unix.go | 263 ++++++++++++++++++++------------
 5 files changed, 296 insertions(+), 164 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index 88ab161..bfa6edd 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -4,6 +4,7 @@
 package engine
 
 import (
+	"errors"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -184,8 +185,13 @@ func fg(t *task.T) task.Op {
 	}
 
 	// TODO: Convert this to a function that returns what a wrapper needs.
-	if !job.Fg(pipe.W(t.CellValue("stdout")), n) {
-		panic("job does not exist")
+	err := job.Fg(t, pipe.W(t.CellValue("stdout")), n)
+	if errors.Is(err, task.ErrStopping) {
+		return t.Op()
+	}
+
+	if err != nil {
+		panic(err.Error())
 	}
 
 	return t.Return(sym.True)
diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 0a092d5..f1a94d0 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -3,6 +3,7 @@
 package task
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"regexp"
@@ -839,6 +840,10 @@ func external(t *T) Op {
 	attr := &os.ProcAttr{Dir: dir, Env: t.Environ(), Files: files}
 
 	err = t.job.Execute(t, arg0, argv, attr)
+	if errors.Is(err, ErrStopping) {
+		return t.Op()
+	}
+
 	if err != nil {
 		panic(err.Error())
 	}
diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index 2c449dc..49e585f 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -10,8 +10,7 @@ import (
 
 // E R S W
 // 0 1 0 X Task is running.
-// 0 1 1 X Task is stopping but Runnable has not yet been called.
-// 0 0 1 X Task is stopping but has not returned from Run.
+// 0 1 1 X Task is stopping but has not returned from Run or this has not yet been acknowledged.
 // 0 0 0 X Task is stopped.
 
 // E R S W
@@ -22,23 +21,27 @@ import (
 // 1 X X X Task is no longer runnable.
 
 // The type state is a task's state.
+//
+// Tasks are started, stopped, interrupted and resumed by the goroutine that
+// monitors jobs. It also acknowledges that a task has stopped.
 type state struct {
 	*sync.Mutex
-	resume  *sync.Cond
-	stopped *sync.Cond
+	resume *sync.Cond
 
 	result cell.I
 
-	exited   bool
-	running  bool
-	stopping bool
-	waiting  bool
+	exited      bool
+	interrupted bool
+	resuming    bool
+	running     bool
+	stopping    bool
+	waiting     bool
 }
 
 func fresh() *state {
 	m := &sync.Mutex{}
 
-	return &state{Mutex: m, resume: sync.NewCond(m), stopped: sync.NewCond(m)}
+	return &state{Mutex: m, resume: sync.NewCond(m)}
 }
 
 func (s *state) Exit() {
@@ -55,6 +58,14 @@ func (s *state) Exited() bool {
 	return s.exited
 }
 
+// Interrupted returns true if the task was asked to stop and not be resumed.
+func (s *state) Interrupted() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	return s.interrupted
+}
+
 // Notify notifies a waiting task that it can continue. If running is set,
 // the condition variable resume is used to signal the task to resume.
 // Calling this on a task that is not waiting results in a panic.
@@ -80,112 +91,127 @@ func (s *state) Notify(r cell.I) {
 	}
 }
 
-// Runnable returns true if a task is running and not stopping or waiting.
+// Runnable returns true if a task is not stopping or waiting.
 // If the task is waiting and not stopping Runnable blocks until signaled via
-// the resume condition variable.
+// the resume condition variable. A task that was asked to stop, and then to
+// resume before it got here, carries on.
 //
 // R S W -> R S W
-// 0 X X    0 X X returns false
 // 1 0 0    1 0 0 returns true
-// 1 0 1    0 1 1 blocks until stopped, ...
+// 1 0 1    1 1 1 blocks until stopped, ...
 // 1 0 1    1 0 0 ...or resumed
-// 1 1 0    0 1 0 returns false
-// 1 1 1    0 1 1 .
+// 1 1 X    1 1 X returns false
 //
 func (s *state) Runnable() bool {
 	s.Lock()
 	defer s.Unlock()
 
-	if !s.running {
-		return false
-	}
+	for {
+		if s.interrupted {
+			return false
+		}
+
+		if s.stopping {
+			if !s.resuming {
+				return false
+			}
+
+			s.resuming = false
+			s.stopping = false
+		}
+
+		if !s.waiting {
+			return true
+		}
 
-	for s.waiting && !s.stopping {
 		s.resume.Wait()
 	}
+}
 
-	s.running = !s.stopping
+// Running returns true if the task has been started and has not stopped.
+func (s *state) Running() bool {
+	s.Lock()
+	defer s.Unlock()
 
 	return s.running
 }
 
-// Started marks the task as running.
-// Calling this on a task that is already running results in a panic.
+// Start marks the task as running. If it returns false the task has not yet
+// stopped and so must not be started again. If the task is stopping it will
+// carry on instead.
 //
 // R S W -> R S W
-// 0 0 X -> 1 0 X
-// 0 1 X -> 0 0 X
-// 1 X X    1 X X panic.
+// 0 X X -> 1 0 X returns true
+// 1 X X    1 X X returns false
 //
-func (s *state) Started() {
+func (s *state) Start() bool {
 	s.Lock()
 	defer s.Unlock()
 
 	if s.running {
-		// Why is this already running?
-		panic("already running")
+		s.resuming = s.stopping && !s.interrupted
+
+		return false
 	}
 
 	s.running = true
+
+	return true
 }
 
-// Stop marks a running task as stopping and waits for a signal that the task
-// has stopped. If the task is waiting Stop signals it to resume so that it
-// can unblock and signal that it has stopped.
+// Stop marks a running task as stopping. If the task is waiting Stop signals
+// it to resume so that it can unblock and notice that it is to stop.
 //
 // R S W -> R S W
-// X 1 X -> X 1 X
 // 0 X X -> 0 X X
-// 1 0 0 -> 0 0 0 waits for stopped signal
-// 1 0 1 -> 0 0 1 resumes tasks, waits for stopped signal.
+// 1 X 0 -> 1 1 0
+// 1 X 1 -> 1 1 1 resumes task.
 //
-func (s *state) Stop(f func()) {
+func (s *state) Stop(interrupt bool) {
 	s.Lock()
 	defer s.Unlock()
 
-	if s.stopping {
-		return
-	}
+	s.interrupted = s.interrupted || interrupt
 
 	if !s.running {
 		// Stopped running before we got here.
 		return
 	}
 
+	s.resuming = false
 	s.stopping = true
 
-	if f != nil {
-		f()
-	}
-
 	if s.waiting {
 		s.resume.Signal()
 	}
-
-	for !s.stopping {
-		s.stopped.Wait()
-	}
 }
 
-// Stopped clears running and stopping and if stopping was set, signals that
-// the task has stopped.
+// Stopped acknowledges that the task has returned from Run. If it returns
+// true the task was asked to resume in the meantime and must be started again.
 //
 // R S W -> R S W
-// X 0 X -> 0 0 X
-// 0 1 X -> 0 0 X signals task has stopped.
+// X X X -> 0 0 X returns false
+// X X X -> 0 0 X returns true, if resuming.
 //
-func (s *state) Stopped() {
+func (s *state) Stopped() bool {
 	s.Lock()
 	defer s.Unlock()
 
-	signal := s.stopping
+	again := s.stopping && s.resuming
 
+	s.resuming = false
 	s.running = false
 	s.stopping = false
 
-	if signal {
-		s.stopped.Signal()
-	}
+	return again
+}
+
+// Stopping returns true if the task has been asked to stop and has not yet.
+func (s *state) Stopping() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	return s.stopping && !s.resuming
 }
 
 // Value returns the most recent value set by notify.
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index edc284a..ad24aa1 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -4,6 +4,7 @@
 package task
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -18,11 +19,21 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common/struct/frame"
 	"github.com/michaelmacinnis/oh/internal/common/type/list"
 	"github.com/michaelmacinnis/oh/internal/common/type/pair"
+	"github.com/michaelmacinnis/oh/internal/common/type/status"
 	"github.com/michaelmacinnis/oh/internal/common/type/str"
 	"github.com/michaelmacinnis/oh/internal/common/type/sym"
 )
 
-const debug = false
+const (
+	debug = false
+
+	// The status of a task that was interrupted.
+	interrupted = 130
+)
+
+// ErrStopping is returned by requests made for a task that is being stopped.
+// If the task is restarted it must make the request again.
+var ErrStopping = errors.New("task is stopping")
 
 type monitor interface {
 	Await(fn func(), t *T, ts ...*T)
@@ -145,11 +156,16 @@ func (t *T) Environ() []string {
 	return environ
 }
 
-// Interrupt stops the task.
+// Interrupt stops a task. It will not be restarted.
 func (t *T) Interrupt() {
-	t.state.Stop(func() {
-		t.stack = done
-	})
+	t.state.Stop(true)
+}
+
+// Resume starts, or restarts, a task.
+func (t *T) Resume() {
+	if t.state.Start() {
+		go t.Run()
+	}
 }
 
 // Return is a helper used by actions to return a value.
@@ -161,7 +177,6 @@ func (t *T) Return(c cell.I) Op {
 
 // Run steps through a tasks operations until they are exhausted.
 func (t *T) Run() {
-	t.Started()
 	defer t.job.Stopped(t)
 
 	s := t.Op()
@@ -220,7 +235,24 @@ func (t *T) Step(s Op) (op Op) {
 
 // Stop stops a task but allows for it to be restarted.
 func (t *T) Stop() {
-	t.state.Stop(nil)
+	t.state.Stop(false)
+}
+
+// Stopped acknowledges that a task has stopped. If it returns false the task
+// was resumed before it stopped and so carries on.
+func (t *T) Stopped() bool {
+	if t.state.Stopped() {
+		t.Resume()
+
+		return false
+	}
+
+	if t.Interrupted() && !t.Completed() {
+		t.dump = pair.Cons(status.Int(interrupted), pair.Null)
+		t.stack = done
+	}
+
+	return true
 }
 
 // absolute returns a path to the file s. A task's current directory is PWD, not the
diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index cca735f..f71c57f 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -14,6 +14,7 @@ import (
 	"os/signal"
 	"sort"
 
+	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/type/status"
 	"github.com/michaelmacinnis/oh/internal/engine/task"
 	"github.com/michaelmacinnis/oh/internal/system/options"
@@ -21,12 +22,21 @@ import (
 	"golang.org/x/sys/unix"
 )
 
+var errNoJob = common.Error("job does not exist")
+
 // T (job) corresponds to a command entered by the user.
 type T struct {
 	group   int
 	initial int
 	lines   []string
 	main    *task.T
+	tasks   []*task.T
+
+	// The job that was in the foreground when this job replaced it.
+	caller *job
+
+	// True if this job's tasks and processes have been told to stop.
+	halted bool
 
 	running map[int]*task.T
 	stopped map[int]*task.T
@@ -37,6 +47,9 @@ type job = T
 type wg struct {
 	fn func()
 	on map[*task.T]struct{}
+
+	// True if waiting for a command entered by the user.
+	shell bool
 }
 
 // Job create a new (non-foreground) job.
@@ -118,6 +131,14 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 	requestq <- func() {
 		reap()
 
+		if j.halted || t.Interrupted() {
+			errq <- task.ErrStopping
+
+			close(errq)
+
+			return
+		}
+
 		foregroundProcess := options.Monitor() && j == foreground
 
 		attr.Sys = process.SysProcAttr(foregroundProcess, j.group)
@@ -148,6 +169,15 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 	done := make(chan struct{})
 
 	requestq <- func() {
+		// Ack.
+		defer close(done)
+
+		if p != nil && p.Interrupted() {
+			return
+		}
+
+		j.tasks = append(j.tasks, c)
+
 		parent[c] = p
 		if p != nil {
 			children[p] = append(children[p], c)
@@ -162,6 +192,8 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 			w := &wg{
 				fn: fn,
 				on: map[*task.T]struct{}{c: {}},
+
+				shell: p == nil,
 			}
 
 			wgs, ok := waiting[c]
@@ -172,10 +204,9 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 			wgs[w] = struct{}{}
 		}
 
-		go c.Run()
-
-		// Ack.
-		close(done)
+		if !j.halted {
+			c.Resume()
+		}
 	}
 
 	// Wait for an ack.
@@ -184,27 +215,40 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 
 func (j *job) Stopped(t *task.T) {
 	requestq <- func() {
-		t.Stopped()
+		if !t.Stopped() {
+			return
+		}
 
-		if !t.Completed() {
-			if foreground != nil && foreground.main == t {
-				tell(t)
+		if t == j.main && j == foreground && j.caller != nil {
+			foreground = j.caller
+		}
 
+		if !t.Completed() {
+			if t == j.main {
 				number := 1
 				for n := range jobs {
 					if n >= number {
 						number = n + 1
 					}
 				}
-				jobs[number] = foreground
+				jobs[number] = j
 
 				printJobs(os.Stdout, number)
+
+				tell(t, false)
 			}
 
 			return
 		}
 
-		tell(t)
+		j.tasks = remove(j.tasks, t)
+
+		if t == j.main && j.halted {
+			// There is no command to resume.
+			j.resume()
+		}
+
+		tell(t, true)
 
 		if p, found := parent[t]; found {
 			delete(parent, t)
@@ -238,18 +282,11 @@ func Bg(w io.Writer, n int) *task.T {
 			return
 		}
 
-		delete(jobs, n)
-
 		for _, line := range j.lines {
 			fmt.Fprintf(w, "%s\n", line)
 		}
 
-		for pid, t := range j.stopped {
-			process.Continue(pid)
-			j.running[pid] = t
-		}
-
-		go j.main.Run()
+		j.resume()
 
 		r <- j.main
 
@@ -259,40 +296,45 @@ func Bg(w io.Writer, n int) *task.T {
 	return <-r
 }
 
-// Fg replaces the current foreground job with the selected job.
-func Fg(w io.Writer, n int) bool {
-	r := make(chan bool)
+// Fg replaces the current foreground job, t's job, with the selected job.
+func Fg(t *task.T, w io.Writer, n int) error {
+	r := make(chan error)
 
 	requestq <- func() {
-		// TODO: Factor out the bits below that are common to this and the func in Bg.
-		if len(jobs) == 0 {
-			close(r)
+		defer close(r)
+
+		if t.Stopping() {
+			r <- task.ErrStopping
 
 			return
 		}
 
-		if n == 0 {
+		// TODO: Factor out the bits below that are common to this and the func in Bg.
+		if n == 0 && len(jobs) > 0 {
 			n = jobNumbers()[len(jobs)-1]
 		}
 
 		j, found := jobs[n]
 		if !found {
-			close(r)
+			r <- errNoJob
 
 			return
 		}
 
-		wgs := waiting[foreground.main]
-		for wg := range wgs {
-			wg.on[j.main] = wg.on[foreground.main]
-			delete(wg.on, foreground.main)
-		}
-		waiting[j.main] = waiting[foreground.main]
-		delete(waiting, foreground.main)
+		// Whatever is waiting for the current foreground job, also waits
+		// for the job that replaces it.
+		for w := range waiting[foreground.main] {
+			w.on[j.main] = struct{}{}
+
+			if waiting[j.main] == nil {
+				waiting[j.main] = map[*wg]struct{}{}
+			}
 
-		foreground.main = j.main
+			waiting[j.main][w] = struct{}{}
+		}
 
-		delete(jobs, n)
+		j.caller = foreground
+		foreground = j
 
 		for _, line := range j.lines {
 			fmt.Fprintf(w, "%s\n", line)
@@ -304,16 +346,7 @@ func Fg(w io.Writer, n int) bool {
 			process.SetForegroundGroup(process.Group())
 		}
 
-		for pid, t := range j.stopped {
-			process.Continue(pid)
-			j.running[pid] = t
-		}
-
-		go foreground.main.Run()
-
-		r <- true
-
-		close(r)
+		j.resume()
 	}
 
 	return <-r
@@ -373,50 +406,56 @@ var (
 	waiting = map[*task.T]map[*wg]struct{}{}
 )
 
+// active returns true if the job has a task that has not stopped.
+func (j *job) active() bool {
+	return j != nil && j.main != nil && j.main.Running()
+}
+
 func (j *job) interrupt() {
-	interrupt(j.main)
+	if !j.active() {
+		return
+	}
+
+	for _, t := range j.tasks {
+		t.Interrupt()
+	}
 
 	for pid := range j.running {
 		process.Interrupt(pid)
 	}
+
+	for pid := range j.stopped {
+		process.Interrupt(pid)
+		process.Continue(pid)
+	}
 }
 
 func (j *job) notify(pid int, ws unix.WaitStatus) {
-	if ws.Continued() {
-		t, found := j.stopped[pid]
+	t, running := j.running[pid]
+	if !running {
+		var found bool
+
+		t, found = j.stopped[pid]
 		if !found {
-			println("UNKNOWN PID CONTINUED", pid)
+			println("UNKNOWN PID STATUS CHANGE", pid)
 
 			return
 		}
+	}
 
-		if len(j.stopped) == 1 {
-			// The last stopped process is running. Resume the job.
-			j.resume()
+	if ws.Continued() {
+		if running {
+			return
 		}
 
 		j.running[pid] = t
 		delete(j.stopped, pid)
 
-		return
-	}
-
-	t, found := j.running[pid]
-	if !found {
-		println("UNKNOWN PID STATUS CHANGE", pid)
-
-		return
-	}
-
-	if ws.Stopped() {
-		if len(j.running) == 1 {
-			// The last running process is stopping. Stop the task.
-			j.stop()
+		if len(j.stopped) == 0 && j.halted {
+			// The last stopped process is running. Resume the job.
+			j.resume()
 		}
 
-		j.stopped[pid] = t
-		delete(j.running, pid)
-
 		return
 	}
 
@@ -429,42 +468,76 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	case ws.Signaled():
 		code = 128 + int(ws.Signal())
 
+	case ws.Stopped():
+		j.stopped[pid] = t
+		delete(j.running, pid)
+
+		if running && len(j.running) == 0 {
+			// The last running process is stopping. Stop the job.
+			j.stop()
+		}
+
+		return
+
 	default:
 		return
 	}
 
-	delete(j.running, pid)
 	delete(active, pid)
+	delete(j.running, pid)
+	delete(j.stopped, pid)
 
-	if len(j.running) == 0 && len(j.stopped) == 0 {
-		j.group = j.initial
+	if len(j.running) == 0 {
+		if len(j.stopped) == 0 {
+			j.group = j.initial
+		} else {
+			j.stop()
+		}
 	}
 
 	t.Notify(status.Int(code))
 }
 
+// resume tells all of a job's tasks and processes to continue.
 func (j *job) resume() {
-	resume(j.main)
+	for n, stopped := range jobs {
+		if stopped == j {
+			delete(jobs, n)
+		}
+	}
+
+	j.halted = false
+
+	for pid, t := range j.stopped {
+		j.running[pid] = t
+		delete(j.stopped, pid)
+	}
+
+	for _, t := range j.tasks {
+		t.Resume()
+	}
 
 	for pid := range j.running {
 		process.Continue(pid)
 	}
 }
 
+// stop tells all of a job's tasks and processes to stop.
 func (j *job) stop() {
-	stop(j.main)
-
-	for pid := range j.running {
-		process.Stop(pid)
+	// There is nothing to resume if there are no lines.
+	if !j.active() || len(j.lines) == 0 {
+		return
 	}
-}
 
-func interrupt(t *task.T) {
-	for _, child := range children[t] {
-		interrupt(child)
+	j.halted = true
+
+	for _, t := range j.tasks {
+		t.Stop()
 	}
 
-	t.Interrupt()
+	for pid := range j.running {
+		process.Stop(pid)
+	}
 }
 
 func jobNumbers() []int {
@@ -576,34 +649,24 @@ func remove(cs []*task.T, t *task.T) []*task.T {
 	return cs[:last]
 }
 
-func resume(t *task.T) {
-	for _, child := range children[t] {
-		resume(child)
-
-		go child.Run()
-	}
-}
-
-func stop(t *task.T) {
-	for _, child := range children[t] {
-		stop(child)
-	}
-
-	t.Stop()
-}
-
-func tell(t *task.T) {
+// tell lets whatever is waiting for the task t know that it is done or, if it
+// has only stopped, lets the shell know.
+func tell(t *task.T, done bool) {
 	wgs, found := waiting[t]
 	if !found {
 		return
 	}
 
 	for w := range wgs {
+		if !done && !w.shell {
+			continue
+		}
+
 		delete(w.on, t)
+		delete(wgs, w)
 
 		if len(w.on) == 0 {
 			w.fn()
-			delete(wgs, w)
 		}
 	}
 
-- 
2.43.0


From b834459a5b0aee6ffd764c4f7a6b1e8bddf99003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:50 +0000
Subject: [PATCH 38/51] fix: return to the foreground when a command's last
 process ends

---
 internal/system/job/job_unix.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index f71c57f..fa7b891 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -221,6 +221,8 @@ func (j *job) Stopped(t *task.T) {
 
 		if t == j.main && j == foreground && j.caller != nil {
 			foreground = j.caller
+
+			process.RestoreForegroundGroup()
 		}
 
 		if !t.Completed() {
@@ -490,6 +492,11 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	if len(j.running) == 0 {
 		if len(j.stopped) == 0 {
 			j.group = j.initial
+
+			if options.Monitor() && j == foreground {
+				// The job's tasks can be stopped or interrupted.
+				process.RestoreForegroundGroup()
+			}
 		} else {
 			j.stop()
 		}
-- 
2.43.0


From 29ae62686d00c25c0755dd0ccdc80357534a2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:26 +0000
Subject: [PATCH 39/51] fix: import after an import was interrupted

---
 internal/engine/boot/boot.oh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 74c3b7a..d480097 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -456,7 +456,8 @@ block {
                 suspend
             })
         } else {
-            define response: chan
+            # The service task must not wait if whatever called import is interrupted.
+            define response: chan 1
 
             request write (method (returned) {
                 response write $returned
-- 
2.43.0


From 360555bf16d820a74d2c5381a8b5e1f3042b9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:15 +0000
Subject: [PATCH 40/51] fix: list the files of a directory that can be read but
 not searched

---
 internal/system/cache/cache.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/system/cache/cache.go b/internal/system/cache/cache.go
index 93c2fa8..9fda077 100644
--- a/internal/system/cache/cache.go
+++ b/internal/system/cache/cache.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"errors"
 	"os"
 	"path/filepath"
 	"strings"
@@ -57,7 +58,7 @@ func Files(dirname string) []string {
 
 	for _, entry := range entries {
 		i, err := entry.Info()
-		if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
 			// Removed since the directory was read.
 			continue
 		}
@@ -65,11 +66,11 @@ func Files(dirname string) []string {
 		p := filepath.Join(dirname, entry.Name())
 
 		switch {
-		case i.IsDir():
+		case entry.IsDir():
 			p += pathSeparator
 			e = append(e, p)
 
-		case i.Mode()&0o111 != 0:
+		case err == nil && i.Mode()&0o111 != 0:
 			e = append(e, p)
 		}
 
-- 
2.43.0


From 85e972b8e56160dd51ac7a299ab7553ebb02d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:16 +0000
Subject: [PATCH 41/51] fix: report a history that cannot be opened

---
 internal/system/history/history.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/system/history/history.go b/internal/system/history/history.go
index de7226d..0700e83 100644
--- a/internal/system/history/history.go
+++ b/internal/system/history/history.go
@@ -2,6 +2,7 @@ package history
 
 import (
 	"bufio"
+	"errors"
 	"io"
 	"os"
 )
@@ -9,9 +10,11 @@ import (
 // Load loads any saved command history.
 func Load(read func(r io.Reader) (int, error)) error {
 	f, err := file(os.Open)
-	if err != nil {
+	if errors.Is(err, os.ErrNotExist) {
 		// We may not find a history file.
 		return nil
+	} else if err != nil {
+		return err
 	}
 
 	defer f.Close()
-- 
2.43.0


From 9889d5b672e1672029c3ff6be3b61f2ebb797707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:23 +0000
Subject: [PATCH 42/51] fix: close a file open for reading and writing once

---
 internal/common/type/pipe/pipe.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 0b76047..be1e706 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -271,7 +271,8 @@ func (p *pipe) readerClosePipe() {
 		p.p.Close()
 	}
 
-	if p.r != nil {
+	// A file open for reading and writing is closed when both ends are.
+	if p.r != nil && p.r != p.w {
 		err := p.r.Close()
 		if err != nil {
 			panic(err.Error())
@@ -314,7 +315,7 @@ func (p *pipe) writerClosePipe() {
 	p.RLock()
 	defer p.RUnlock()
 
-	if p.w == nil {
+	if p.w == nil || p.w == p.r {
 		return
 	}
 
-- 
2.43.0


From 45db87afc328b6df9edb9aea984bf1243f2adaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:30 +0000
Subject: [PATCH 43/51] fix: finish a command that does not open the fifo of a
 substitution

---
 internal/engine/boot/boot.oh | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index d480097..fbe937a 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -251,6 +251,13 @@ block {
         }
     }
 
+    # Lets the process at the other end of a fifo that was never opened open it.
+    define open-fifo: method (fifo opened) {
+        define f: open -rw $fifo
+        opened read
+        f close
+    }
+
     define make-redirect: method (check closer mode override) {
         syntax (c cmd) e {
             define PWD: e eval (list resolve PWD)
@@ -333,6 +340,7 @@ block {
     set process-substitution: syntax ((args)) e {
         define channels ()
         define fifos ()
+        define openeds ()
 
         define cmd: for $args (method (arg) {
             if (not: cons? $arg) {
@@ -342,15 +350,18 @@ block {
             if (equal? -named-pipe-input-from (arg head)) {
                 define c: chan 1
                 define fifo: temp-fifo
+                define opened: chan 1
 
                 spawn {
                     define f: open w $fifo
+                    opened write true
                     c write (override-stdout $e $f (arg tail))
                     f close
                 }
 
                 set channels: cons $c $channels
                 set fifos: cons $fifo $fifos
+                set openeds: cons $opened $openeds
 
                 return $fifo
             }
@@ -358,15 +369,18 @@ block {
             if (equal? -named-pipe-output-to (arg head)) {
                 define c: chan 1
                 define fifo: temp-fifo
+                define opened: chan 1
 
                 spawn {
                     define f: open r $fifo
+                    opened write true
                     c write (override-stdin $e $f (arg tail))
                     f close
                 }
 
                 set channels: cons $c $channels
                 set fifos: cons $fifo $fifos
+                set openeds: cons $opened $openeds
 
                 return $fifo
             }
@@ -376,6 +390,11 @@ block {
 
         define mainecex: e eval (wrap-redir-r-ex $cmd)
 
+        for $fifos (method (fifo) {
+            open-fifo $fifo (openeds head)
+            set openeds (openeds tail)
+        })
+
         define ecexs ()
         for $channels (method (c) {
             set ecexs: cons (c read) $ecexs
@@ -384,7 +403,7 @@ block {
         set ecexs: cons $mainecex $ecexs
 
         for $fifos (method (fifo) {
-            rm $fifo
+            command rm -f $fifo
         })
 
         for $ecexs (method (ecex) {
-- 
2.43.0


From 3273dfef173fd8e2566cf7d0acf1af968afa81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:38 +0000
Subject: [PATCH 44/51] fix: an empty command in a branch not taken does not
 end it

---
 internal/engine/task/action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index f1a94d0..19ac9d1 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -674,12 +674,12 @@ func execIfBody(t *T) Op {
 		t.code = pair.Cdr(t.code)
 		c := pair.Car(t.code)
 
-		for pair.Is(c) && c != pair.Null {
+		for t.code != pair.Null && pair.Is(c) {
 			t.code = pair.Cdr(t.code)
 			c = pair.Car(t.code)
 		}
 
-		if c != pair.Null && literal.String(c) != "else" {
+		if t.code != pair.Null && literal.String(c) != "else" {
 			panic("expected else")
 		}
 	}
-- 
2.43.0


From e2382599e2d2973bb082ef9b65ac969528ef9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:42 +0000
Subject: [PATCH 45/51] fix: release the handle of a process once it is
 started, so that descriptors do not pile up

---
 internal/system/job/job_unix.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index fa7b891..335b485 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -147,12 +147,18 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 		if err == nil {
 			t.Wait()
 
+			pid := p.Pid
+
+			// The process is waited for by its ID.
+			// Don't hold on to any other handle for it.
+			_ = p.Release()
+
 			if j.group == 0 {
-				j.group = p.Pid
+				j.group = pid
 			}
 
-			j.running[p.Pid] = t
-			active[p.Pid] = j
+			j.running[pid] = t
+			active[pid] = j
 		}
 
 		// Ack with error.
-- 
2.43.0


From 02db2d010d051e27becf30a97c4765f6058b201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:24 +0000
Subject: [PATCH 46/51] fix: let the goroutine of a reader closed before it has
 read anything finish

---
 internal/reader/reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index b4117ac..2c3bd7d 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -130,8 +130,10 @@ func (r *reader) next() bool {
 }
 
 func (r *reader) start() {
-	r.next()
+	defer close(r.e)
 
-	r.e <- r.p.Parse()
-	close(r.e)
+	// The reader may be closed before it is given anything to read.
+	if r.next() {
+		r.e <- r.p.Parse()
+	}
 }
-- 
2.43.0


From eafa3ab9f7dea36b25f86ef60c57107fcbd764cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:01 +0000
Subject: [PATCH 47/51] fix: completion must not evaluate the command being
 entered

---
 main.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index fa5b2f8..b19a0b6 100644
--- a/main.go
+++ b/main.go
@@ -13,6 +13,7 @@ import (
 
 	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
+	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
 	"github.com/michaelmacinnis/oh/internal/common/type/list"
 	"github.com/michaelmacinnis/oh/internal/common/type/pair"
 	"github.com/michaelmacinnis/oh/internal/common/type/status"
@@ -151,7 +152,7 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 				return
 			}
 
-			cmd := list.New(sym.New("complete"), sym.New(completing))
+			cmd := list.New(sym.New("complete"), str.New(completing))
 			v, _ := engine.System(*j, cmd)
 
 			process.RestoreForegroundGroup()
@@ -160,8 +161,13 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 				cs = append(cs, common.String(pair.Car(c)))
 			}
 		} else {
-			cmd := list.Append(list.New(list.Array(cmd)...), sym.New(completing))
-			v, _ := engine.System(*j, pair.Cons(sym.New("complete"), cmd))
+			// The words are data here. They must not be evaluated.
+			words := list.New(sym.New("complete"))
+			for _, c := range list.Array(cmd) {
+				words = list.Append(words, str.New(word(c)))
+			}
+
+			v, _ := engine.System(*j, list.Append(words, str.New(completing)))
 
 			process.RestoreForegroundGroup()
 
@@ -506,6 +512,30 @@ func main() {
 	commands()
 }
 
+// word returns the text for c, a word in a command.
+func word(c cell.I) string {
+	if sym.Is(c) || str.Is(c) {
+		return common.String(c)
+	}
+
+	if !pair.Is(c) {
+		return literal.String(c)
+	}
+
+	v := list.Array(c)
+	if len(v) < 2 || !v[0].Equal(sym.New("mend")) {
+		return literal.String(c)
+	}
+
+	// The parts of a word that was joined.
+	var b strings.Builder
+	for _, part := range v[2:] {
+		b.WriteString(word(part))
+	}
+
+	return b.String()
+}
+
 //go:generate ./oh bin/test.oh
 //go:generate ./oh bin/doc.oh manual ../doc/manual.md
 //go:generate ./oh bin/type-common.oh internal/common/type/chn
-- 
2.43.0


From 6f0b135963ff35280c39aed132d8e940b9d9250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:03 +0000
Subject: [PATCH 48/51] fix: the word being completed is not part of the
 command

---
 main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/main.go b/main.go
index b19a0b6..12e3044 100644
--- a/main.go
+++ b/main.go
@@ -141,6 +141,15 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 		// Ensure line == prefix + completing + tail
 		prefix := h[0 : len(h)-len(completing)]
 
+		// No part of the word being completed belongs to the command.
+		lc = (*r).Lexer().Copy()
+
+		lc.Scan(prefix)
+
+		lp = (*r).Parser().Copy(func(_ cell.I) {}, lc.Token)
+
+		_ = lp.Parse()
+
 		cwd := engine.Resolve("PWD")
 		home := engine.Resolve("HOME")
 
-- 
2.43.0


From e31025b079af41d2e3db9b03415949ac639f1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:06 +0000
Subject: [PATCH 49/51] fix: complete names in / and odd directories, and
 relative to ..

---
 main.go | 75 ++++++++++++++++-----------------------------------------
 1 file changed, 21 insertions(+), 54 deletions(-)

diff --git a/main.go b/main.go
index 12e3044..fa788c5 100644
--- a/main.go
+++ b/main.go
@@ -31,21 +31,16 @@ import (
 
 //nolint:gochecknoglobals
 var (
-	pathListSeparator = string(os.PathListSeparator)
-	pathSeparator     = string(os.PathSeparator)
+	pathSeparator = string(os.PathSeparator)
 )
 
 func clean(s string) string {
-	if s == "." || s == pathSeparator+"." {
+	dirname, basename := filepath.Split(s)
+	if dirname == "" {
 		return s
 	}
 
-	head, tail := split(s)
-	if tail == s {
-		head, tail = tail, head
-	}
-
-	return filepath.Clean(head) + tail
+	return join(dirname, basename)
 }
 
 func command() bool {
@@ -180,7 +175,7 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 
 			process.RestoreForegroundGroup()
 
-			cs = files(cache.Files, cwd, home, engine.Resolve("PWD"), completing)
+			cs = files(cache.Files, cwd, home, completing)
 
 			cfname := common.String(pair.Car(v))
 			if cfname != "_minimal" && cfname != "_filedir_xspec" {
@@ -210,27 +205,6 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 	}
 }
 
-func directories(s string) []string {
-	dirs := []string{}
-
-	for _, dir := range strings.Split(s, pathListSeparator) {
-		if dir == "" {
-			dir = "."
-		} else {
-			dir = filepath.Clean(dir)
-		}
-
-		stat, err := os.Stat(dir)
-		if err != nil || !stat.IsDir() {
-			continue
-		}
-
-		dirs = append(dirs, dir)
-	}
-
-	return dirs
-}
-
 // evaluate evaluates the command c and ends the shell if that calls exit.
 func evaluate(j *job.T, c cell.I) {
 	code, exited := engine.Evaluate(j, c)
@@ -251,7 +225,7 @@ func expand(cwd, home, candidate string) (string, bool) {
 		candidate = join(cwd, candidate)
 		dotdir = true
 
-	case prefix[0:1] == "~":
+	case prefix[0:2] == "~/":
 		candidate = join(home, candidate[1:])
 
 	default:
@@ -261,15 +235,16 @@ func expand(cwd, home, candidate string) (string, bool) {
 	return candidate, dotdir
 }
 
-func files(cached func(string) []string, cwd, home, paths, word string) []string {
+func files(cached func(string) []string, cwd, home, word string) []string {
+	if word == "~" {
+		return []string{word + pathSeparator}
+	}
+
 	candidate, dotdir := expand(cwd, home, word)
 
 	candidates := []string{candidate}
 	if !path.IsAbs(candidate) && !dotdir {
-		candidates = directories(paths)
-		for k, v := range candidates {
-			candidates[k] = v + pathSeparator + candidate
-		}
+		candidates = []string{join(cwd, candidate)}
 	}
 
 	return matches(cached, candidates, word)
@@ -343,10 +318,15 @@ func interactive() (int, bool) {
 
 func join(s ...string) string {
 	last := len(s) - 1
-	head, tail := split(s[last])
-	s[last] = head
+	dirname, basename := filepath.Split(s[last])
+	s[last] = dirname
+
+	dirname = filepath.Join(s...)
+	if !strings.HasSuffix(dirname, pathSeparator) {
+		dirname += pathSeparator
+	}
 
-	return filepath.Join(s...) + tail
+	return dirname + basename
 }
 
 func matches(cached func(string) []string, candidates []string, word string) []string {
@@ -360,7 +340,7 @@ func matches(cached func(string) []string, candidates []string, word string) []s
 		}
 
 		for _, p := range cached(dirname) {
-			if candidate != pathSeparator && len(basename) == 0 {
+			if len(basename) == 0 {
 				suffix := strings.TrimPrefix(p, dirname)
 				if strings.HasPrefix(suffix, ".") {
 					continue
@@ -393,19 +373,6 @@ func skip(dirname, basename string) bool {
 	return false
 }
 
-func split(s string) (head, tail string) {
-	head = s
-	tail = ""
-
-	index := strings.LastIndex(s, pathSeparator)
-	if index > -1 {
-		head = s[:index]
-		tail = s[index:]
-	}
-
-	return
-}
-
 func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) (int, error) {
 	j := job.New(0)
 	r := reader.New(name)
-- 
2.43.0


From 8bc836e56dde561fb45df5f47297db0717fa46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:09 +0000
Subject: [PATCH 50/51] fix: forget what completion expected once it was
 scanned

---
 internal/reader/lexer/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index be93aaa..30ff81e 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -91,6 +91,9 @@ func (l *T) Token() *token.T {
 		case t := <-l.tokens:
 			return t
 		default:
+			// What was expected before is either here or can't be.
+			l.expected = nil
+
 			state := l.state(l)
 			if state != nil {
 				l.state = state
-- 
2.43.0


From acef2b0f01728cd06aa78f21801c307e193821af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:21 +0000
Subject: [PATCH 51/51] fix: keep empty lines in an unfinished entry

---
 main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index fa788c5..002449e 100644
--- a/main.go
+++ b/main.go
@@ -419,11 +419,13 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) (in
 			return 0, err
 		}
 
-		if line == "" {
+		// An empty line may be part of a quoted word.
+		if line != "" {
+			cli.AppendHistory(line)
+		} else if !r.Partial() {
 			continue
 		}
 
-		cli.AppendHistory(line)
 		lines = append(lines, line)
 
 		suffix = continued
-- 
2.43.0

