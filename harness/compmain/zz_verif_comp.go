package main

// Overlaid into package main by the C52 check: answers completion requests, one JSON object a line, with the
// shell's own completer, and compares what a reader that was asked for completions reads with what one that was not reads.

import (
	"bufio"
	"encoding/json"
	"os"
	"strings"
	"time"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
	"github.com/michaelmacinnis/oh/internal/engine"
	"github.com/michaelmacinnis/oh/internal/reader"
	"github.com/michaelmacinnis/oh/internal/system/job"
)

type verifRequest struct {
	Eval   string   // A command to evaluate, if any.
	Lines  []string // The lines entered so far.
	Line   string   // The line being edited.
	At     []int    // Where completion is requested, in order.
	Repeat int      // How often each request is made.
}

type verifAnswer struct {
	Head, Tail string
	Words      []string
}

type verifReply struct {
	Answers []verifAnswer
	Before  []string // What the lines were read as without completion.
	After   []string // What they were read as with it.
	Hang    string
	Panic   string
}

func verifText(c cell.I, err error) string {
	switch {
	case err != nil:
		return "error: " + err.Error()
	case c == nil:
		return "more"
	default:
		return literal.String(c)
	}
}

func verifServe(q *verifRequest) *verifReply {
	a := &verifReply{Answers: []verifAnswer{}, Before: []string{}, After: []string{}}
	j := job.New(0)
	lines := append(append([]string{}, q.Lines...), q.Line, "b)}", "'\"c")

	if q.Eval != "" {
		c, err := reader.New("eval").Scan(q.Eval + "\n")
		if err != nil {
			a.Panic = err.Error()
		} else {
			engine.Evaluate(j, c)
		}

		return a
	}

	r := reader.New("x")
	for _, l := range lines {
		c, err := r.Scan(l + "\n")
		a.Before = append(a.Before, verifText(c, err))

		if c != nil || err != nil {
			r.Close()
			r = reader.New("x")
		}
	}

	r.Close()

	r = reader.New("x")
	f := completer(&j, &r)

	for n, l := range lines {
		if n >= len(q.Lines) {
			at := q.At
			if n > len(q.Lines) {
				at = []int{0, len(l)}
			}

			for _, i := range at {
				for k := 0; k < q.Repeat; k++ {
					h, cs, t := f(l, i)
					if n == len(q.Lines) {
						a.Answers = append(a.Answers, verifAnswer{h, t, cs})
					}
				}
			}
		}

		c, err := r.Scan(l + "\n")
		a.After = append(a.After, verifText(c, err))

		if c != nil || err != nil {
			r.Close()
			r = reader.New("x")
		}
	}

	r.Close()

	return a
}

func init() {
	if os.Getenv("VERIF_COMPLETE") == "" {
		return
	}

	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)

	engine.Boot("", []string{"oh"})

	for {
		l, err := in.ReadString('\n')
		if err != nil {
			os.Exit(0)
		}

		q := &verifRequest{}

		err = json.Unmarshal([]byte(strings.TrimSpace(l)), q)
		if err != nil {
			panic(err)
		}

		done := make(chan *verifReply, 1)

		go func() {
			defer func() {
				r := recover()
				if r != nil {
					s, _ := r.(string)
					done <- &verifReply{Panic: "panic: " + s}
				}
			}()

			done <- verifServe(q)
		}()

		select {
		case a := <-done:
			_ = out.Encode(a)
		case <-time.After(10 * time.Second):
			_ = out.Encode(&verifReply{Hang: "hang"})
		}
	}
}
