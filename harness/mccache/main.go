// mccache explores every schedule of small sets of concurrent queries of the file-name cache.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/michaelmacinnis/oh/internal/system/cache"
	"github.com/michaelmacinnis/oh/internal/zzverif/mc"
)

var execution int

var ops = map[string]func(d string) string{
	"F": func(d string) string { return show(d, cache.Files(d)) },
	"E": func(d string) string { return show(d, cache.Executables(d)) },
	"G": func(d string) string { return show(d, cache.Files(d+"/s")) },
	"N": func(d string) string { return fmt.Sprint(len(cache.Executables(fmt.Sprintf("/nonexistent/%d", execution))) == 0) },
	"C": func(d string) string { cache.Check(d + "/x"); return "" },
	"M": func(d string) string { cache.Check(d + "/none"); return "" },
	"P": func(d string) string { cache.Populate(d + ":" + d + "/s"); return "" },
}

func show(d string, l []string) string {
	sort.Strings(l)
	return strings.ReplaceAll(strings.Join(l, ","), d+"/", "")
}

func main() {
	d, length, seconds := os.Args[1], int(os.Args[2][0]-'0'), int64(0)
	fmt.Sscan(os.Args[3], &seconds)
	want := map[string]string{"F": "f,s/,x", "E": "s/,x", "G": "s/y", "N": "true"}
	mc.Quiesce()
	mc.Daemons()
	cache.Files(d)
	cache.Files(d + "/s")
	mc.Quiesce()
	mc.Daemons()
	mc.OnEnd(func() {})
	mc.Shared = true
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	var progs []string
	var build func(p string, from int)
	build = func(p string, from int) {
		if len(p) == length {
			progs = append(progs, p)
			return
		}
		for i := from; i < len(names); i++ {
			build(p+names[i], i)
		}
	}
	build("", 0)
	var total, steps int64
	left := 0
	for _, p := range progs {
		p := p
		rep := mc.Explore(func() string {
			execution++
			res := make([]string, len(p))
			done := make([]bool, len(p))
			for i := range p {
				i := i
				mc.Go(func() { res[i] = ops[p[i:i+1]](d); done[i] = true })
			}
			mc.OnRest(func() string {
				for i := range p {
					if !done[i] {
						return p[i:i+1] + " never returns"
					}
					if w := want[p[i:i+1]]; res[i] != w {
						return fmt.Sprintf("%s answers %q and not %q", p[i:i+1], res[i], w)
					}
				}
				return "ok"
			})
			return ""
		}, func(r *mc.Report) bool { return r.Executions >= seconds })
		total += rep.Executions
		steps += rep.Transitions
		if !rep.Exhausted {
			left++
		}
		if rep.Diverged != "" {
			fmt.Printf("D %s %q\n", p, rep.Diverged)
		}
		for _, o := range rep.Outcomes {
			if o.Status == "crash" || o.Text != "ok" {
				fmt.Printf("V %q %q\n", p+": "+o.Status+": "+o.Text, o.Detail)
			}
		}
		for _, r := range rep.Races {
			fmt.Printf("V %q %q\n", p+": race", r)
		}
	}
	fmt.Println("S", len(progs), total, steps, left)
}
