package main

// Overlaid into package main by the C27 check: answers probes on a pair of fifos with the number of live heap objects.

import (
	"bufio"
	"fmt"
	"os"
	"runtime"
)

func init() {
	in, out := os.Getenv("VERIF_PROBE_IN"), os.Getenv("VERIF_PROBE_OUT")
	if in == "" {
		return
	}

	go func() {
		r, err := os.OpenFile(in, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}

		w, err := os.OpenFile(out, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}

		b := bufio.NewReader(r)

		var m runtime.MemStats

		for {
			_, err := b.ReadString('\n')
			if err != nil {
				return
			}

			runtime.GC()
			runtime.GC()
			runtime.ReadMemStats(&m)
			fmt.Fprintf(w, "%d\n", m.HeapObjects)
		}
	}()
}
