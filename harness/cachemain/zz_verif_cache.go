package main

// Overlaid into package main by the C48 check: asks the file-name cache about a scratch directory while that changes
// and while operations fail, at every operation of the scan. Prints V lines (violations) and an S line (statistics).

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/michaelmacinnis/oh/internal/system/cache"
)

var (
	vKinds  = []byte(".fxdlps")
	vOn     bool
	vAt     int
	vPlan   map[int]func() syscall.Errno
	vOpened []string
	vLast   string // what the last operation was on
	vName   string
	vKey    *os.File
	vBad    = map[string]bool{}
	vN      [4]int // scenarios, points, queries, states
	vPart   int
	vParts  int
)

func vHook(name, path string, fd int) syscall.Errno {
	if !vOn {
		return 0
	}
	vOn = false
	defer func() { vOn = true }()
	i := vAt
	vAt++
	vLast, vName = path, name
	if name == "openat" {
		vOpened = append(vOpened, path)
	}
	if f := vPlan[i]; f != nil {
		return f()
	}
	return 0
}

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

// vSet makes p a thing of kind k, which was of kind old.
func vSet(p string, old, k byte) {
	if old == k {
		return
	}
	if old == 'f' && k == 'x' {
		vMust(os.Chmod(p, 0o755))
		return
	}
	if old == 'x' && k == 'f' {
		vMust(os.Chmod(p, 0o644))
		return
	}
	if old == 'd' {
		vMust(os.Remove(p + "/z"))
	}
	if old != '.' {
		vMust(os.Remove(p))
	}
	switch k {
	case 'f', 'x':
		m := os.FileMode(0o644)
		if k == 'x' {
			m = 0o755
		}
		vMust(os.WriteFile(p, nil, m))
		vMust(os.Chmod(p, m))
	case 'd':
		vMust(os.Mkdir(p, 0o755))
		vMust(os.WriteFile(p+"/z", nil, 0o644))
	case 'l':
		vMust(os.Symlink("/", p))
	case 's':
		vMust(os.Symlink("nowhere", p))
	case 'p':
		vMust(syscall.Mkfifo(p, 0o644))
	}
}

type vState map[string]byte

func (s vState) clone() vState {
	t := vState{}
	for k, v := range s {
		t[k] = v
	}
	return t
}

func (s vState) String() string {
	var l []string
	for k, v := range s {
		if len(s) < 10 {
			l = append(l, k+":"+string(v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (s vState) make(dir string, to vState) {
	for n, k := range to {
		old := s[n]
		if old == 0 {
			old = '.'
		}
		vSet(dir+"/"+n, old, k)
		s[n] = k
	}
}

// vSeen is, for each name, the kinds it had during a query, and whether an error excuses its absence.
type vSeen struct {
	kinds  map[string]string
	excuse map[string]bool
	all    bool
}

func vSee(s vState) *vSeen {
	v := &vSeen{map[string]string{}, map[string]bool{}, false}
	for n, k := range s {
		v.kinds[n] = string(k)
	}
	return v
}

func (v *vSeen) change(n string, k byte) {
	if v.kinds[n] == "" {
		v.kinds[n] = "."
	}
	v.kinds[n] += string(k)
}

func (v *vSeen) judge(got []string, prefix string, want func(string) bool) string {
	plain, slash := map[string]int{}, map[string]int{}
	for _, g := range got {
		if !strings.HasPrefix(g, prefix) {
			return fmt.Sprintf("%q is not under %q", g, prefix)
		}
		n := g[len(prefix):]
		if strings.HasSuffix(n, "/") {
			slash[n[:len(n)-1]]++
			n = n[:len(n)-1]
		} else {
			plain[n]++
		}
		if !want(n) {
			return fmt.Sprintf("%q listed, which does not match", g)
		}
		if strings.Trim(v.kinds[n], ".") == "" {
			return fmt.Sprintf("%q listed, which was not there", g)
		}
	}
	for n, ks := range v.kinds {
		if !want(n) {
			continue
		}
		p, s := plain[n], slash[n]
		there := len(strings.ReplaceAll(ks, ".", ""))
		if p+s > there {
			return fmt.Sprintf("%q listed %d times", n, p+s)
		}
		if s > 0 && !strings.Contains(ks, "d") {
			return fmt.Sprintf("%q marked as a directory", n)
		}
		if p > 0 && strings.Trim(ks, "d.") == "" {
			return fmt.Sprintf("directory %q not marked", n)
		}
		if !strings.Contains(ks, ".") && p+s == 0 && !v.all && !v.excuse[n] {
			return fmt.Sprintf("%q not listed", n)
		}
	}
	return ""
}

func vProgress(key string) {
	b := make([]byte, 400)
	copy(b, key)
	_, _ = vKey.WriteAt(b, 0)
}

func vReport(key, what string) {
	if what == "" || vBad[what] || len(vBad) > 20 {
		return
	}
	vBad[what] = true
	fmt.Printf("V %q %q\n", key, what)
}

// vQuery asks about dir (form is how it is named) and returns what is wrong with the answer.
func vQuery(form string, seen *vSeen) (bad string) {
	defer func() {
		vOn = false
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	vAt, vOpened = 0, nil
	vN[2]++
	vOn = true
	got := cache.Files(form)
	vOn = false
	prefix := filepath.Clean(form)
	for _, o := range vOpened {
		if filepath.Clean(o) != prefix {
			return "opened " + o
		}
	}
	if prefix == "." {
		prefix = ""
	} else {
		prefix += "/"
	}
	return seen.judge(got, prefix, func(string) bool { return true })
}

func vComplete(word string, seen *vSeen) (bad string) {
	defer func() {
		vOn = false
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	vAt, vOpened = 0, nil
	vN[2]++
	vOn = true
	got := files(cache.Files, "/nonexistent", "/nonexistent", word)
	vOn = false
	dir, base := filepath.Split(word)
	return seen.judge(got, dir, func(n string) bool { return strings.HasPrefix(n, base) && (base != "" || !strings.HasPrefix(n, ".")) })
}

func vStates(names []string, kinds []byte, f func(vState)) {
	idx := make([]int, len(names))
	for k := 0; ; k++ {
		s := vState{}
		for i, n := range names {
			s[n] = kinds[idx[i]]
		}
		if k%vParts == vPart {
			vN[3]++
			f(s)
		}
		i := 0
		for ; i < len(idx); i++ {
			idx[i]++
			if idx[i] < len(kinds) {
				break
			}
			idx[i] = 0
		}
		if i == len(idx) {
			return
		}
	}
}

func vExecutables(dir string, s vState) string {
	var want []string
	for n, k := range s {
		switch k {
		case 'x', 'l', 's':
			want = append(want, filepath.Join(dir, n))
		case 'd':
			want = append(want, filepath.Join(dir, n)+"/")
		}
	}
	sort.Strings(want)
	got := cache.Executables(dir)
	sort.Strings(got)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		return fmt.Sprintf("executables %q and not %q", got, want)
	}
	return ""
}

func init() {
	args := strings.Fields(os.Getenv("VERIF_CACHE"))
	if len(args) != 4 {
		return
	}
	vPart, _ = strconv.Atoi(args[1])
	vParts, _ = strconv.Atoi(args[2])
	quick := args[3] == "quick"
	var err error
	vKey, err = os.Create("progress")
	vMust(err)
	cwd, err := os.Getwd()
	vMust(err)
	D, E := cwd+"/D", cwd+"/E"
	vMust(os.Mkdir(D, 0o755))
	vMust(os.Mkdir(E, 0o755))
	syscall.VerifFault = vHook
	names := []string{"a", ".b", "c d"}
	real := vState{}
	start := func(s vState) { real.make(D, s) }
	forms := []string{D, D + "/", "D", "D/", "./D", "D//", "E/../D", "D/."}

	switch args[0] {
	case "histories":
		other := vState{"a": 'd', "q": 'f', "c d": 'x'}
		(vState{}).make(E, other)
		i := 0
		ask := func(key string, s vState) {
			vProgress(key)
			vN[0]++
			i++
			vReport(key, vQuery(forms[i%len(forms)], vSee(s)))
			if i%3 == 0 {
				vReport(key+", then E", vQuery([]string{E, "E/", "E"}[i%9/3], vSee(other)))
			}
			if i%5 == 0 {
				vReport(key+", inside", func() string {
					vMust(os.Chdir(D))
					defer func() { vMust(os.Chdir(cwd)) }()
					return vQuery([]string{"", ".", "./", "../D/"}[i%20/5], vSee(s))
				}())
			}
			if i%2 == 0 {
				vReport(key+", completed", vComplete(D+"/"+[]string{"", "a", ".", "c"}[i%8/2], vSee(s)))
			}
			f := forms[i%len(forms)]
			vReport(key+", executables", vExecutables(f, s))
		}
		vStates(names, vKinds, func(s vState) {
			start(s)
			ask(s.String(), s)
			for _, n := range names {
				for _, k := range vKinds {
					if k == s[n] {
						continue
					}
					t := s.clone()
					t[n] = k
					start(t)
					ask(fmt.Sprintf("%s, then %s", s, t), t)
					if quick && s[n] != '.' && k != '.' {
						continue
					}
					for _, m := range names {
						for _, l := range vKinds {
							if l == t[m] {
								continue
							}
							u := t.clone()
							u[m] = l
							start(u)
							ask(fmt.Sprintf("%s, then %s, then %s", s, t, u), u)
							start(t)
						}
					}
				}
			}
		})
	case "faults":
		F := vState{"c d": 'd', "q": 'f'}
		errs := []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.EIO, syscall.ENOTDIR, syscall.ELOOP, syscall.ENOMEM, syscall.EMFILE, syscall.EINTR}
		moved := false // D is not what it was
		type act struct {
			name string
			do   func(seen *vSeen) syscall.Errno
			undo func()
		}
		acts := func() []act {
			var as []act
			for _, n := range []string{"a", ".b", "c d", "n"} {
				for _, k := range vKinds {
					n, k := n, k
					as = append(as, act{fmt.Sprintf("%s becomes %c", n, k), func(v *vSeen) syscall.Errno {
						old := real[n]
						if old == 0 {
							old = '.'
						}
						if old != k && !moved {
							vSet(D+"/"+n, old, k)
							real[n] = k
							v.change(n, k)
						}
						return 0
					}, nil})
				}
			}
			away := func(to func()) func(v *vSeen) syscall.Errno {
				return func(v *vSeen) syscall.Errno {
					if !moved && os.Rename(D, D+".away") == nil {
						moved = true
						for n := range v.kinds {
							v.change(n, '.')
						}
						to()
					}
					return 0
				}
			}
			back := func(from func()) func() {
				return func() {
					if _, err := os.Lstat(D + ".away"); err == nil {
						from()
						vMust(os.Rename(D+".away", D))
					}
				}
			}
			as = append(as, act{"D goes", away(func() {}), back(func() {})},
				act{"D becomes a file", away(func() { vMust(os.WriteFile(D, nil, 0o644)) }), back(func() { vMust(os.Remove(D)) })},
				act{"D becomes E", func(v *vSeen) syscall.Errno {
					return away(func() {
						vMust(os.Rename(E, D))
						for n, k := range F {
							v.change(n, k)
						}
					})(v)
				}, back(func() { vMust(os.Rename(D, E)) })},
				act{"D becomes unreadable", func(v *vSeen) syscall.Errno { moved = true; vMust(os.Chmod(D, 0)); v.all = true; return 0 }, func() { vMust(os.Chmod(D, 0o755)) }},
				act{"D becomes unsearchable", func(v *vSeen) syscall.Errno { moved = true; vMust(os.Chmod(D, 0o444)); return 0 }, func() { vMust(os.Chmod(D, 0o755)) }})
			for _, e := range errs {
				e := e
				as = append(as, act{"fails: " + e.Error(), func(v *vSeen) syscall.Errno {
					switch {
					case vName == "Close" || e == syscall.EINTR:
					case vName == "fstatat" && vLast != "" && filepath.Base(vLast) != "D" && !strings.HasSuffix(vLast, "/"):
						if e == syscall.ENOENT {
							v.excuse[filepath.Base(vLast)] = true
						}
					default:
						v.all = true
					}
					if vName == "Close" {
						return 0
					}
					return e
				}, nil})
			}
			return as
		}()
		(vState{}).make(E, F)
		vMust(os.Mkdir(D+".none", 0o755))
		try := func(s vState, plan map[int]int, which int) int {
			moved = false
			real.make(D, vState{"a": '.', ".b": '.', "c d": '.', "n": '.'})
			start(s)
			var key []string
			seen := vSee(s)
			vPlan = map[int]func() syscall.Errno{}
			for at, a := range plan {
				a := a
				key = append(key, fmt.Sprintf("before operation %d %s", at, acts[a].name))
				vPlan[at] = func() syscall.Errno { return acts[a].do(seen) }
			}
			sort.Strings(key)
			k := fmt.Sprintf("%s; %s", s, strings.Join(key, "; "))
			vProgress(k)
			vN[0]++
			var bad string
			if which == 0 {
				bad = vQuery(D, seen)
			} else {
				bad = vComplete(D+"/"+[]string{"", "a"}[which-1], seen)
			}
			points := vAt
			vPlan = nil
			for _, a := range plan {
				if acts[a].undo != nil {
					acts[a].undo()
				}
			}
			vReport(k, bad)
			return points
		}
		kinds := vKinds
		if quick {
			kinds = []byte(".fxdl")
		}
		vStates(names, kinds, func(s vState) {
			for which := 0; which < 3; which++ {
				n := try(s, nil, which)
				for at := 0; at < n; at++ {
					vN[1]++
					for a := range acts {
						try(s, map[int]int{at: a}, which)
					}
				}
			}
		})
		// Two changes.
		kinds = []byte(".xd")
		if !quick {
			kinds = []byte(".fxdl")
		}
		vStates([]string{"a", ".b"}, kinds, func(s vState) {
			n := try(s, nil, 0)
			for at := 0; at < n; at++ {
				for to := at + 1; to < n+1; to++ {
					vN[1]++
					for a := range acts {
						for b := range acts {
							if quick && (a+b+at+to)%4 != 0 {
								continue
							}
							if acts[a].undo == nil || acts[b].undo == nil {
								try(s, map[int]int{at: a, to: b}, 0)
							}
						}
					}
				}
			}
		})
	case "many":
		// A directory that takes several reads, whose entries go, change and come at every operation.
		long := strings.Repeat("x", 200)
		s := vState{}
		for i := 0; i < 300; i++ {
			s[fmt.Sprintf("%03d%s", i, long)] = []byte("fxdl")[i%4]
		}
		start(s)
		n := 0
		try := func(at int, name string, k byte) {
			seen := vSee(s)
			vPlan = map[int]func() syscall.Errno{at: func() syscall.Errno {
				old := real[name]
				if old == 0 {
					old = '.'
				}
				vSet(D+"/"+name, old, k)
				real[name] = k
				seen.change(name, k)
				return 0
			}}
			key := fmt.Sprintf("300 entries; before operation %d %.3s becomes %c", at, name, k)
			vProgress(key)
			vN[0]++
			bad := vQuery(D, seen)
			n = vAt
			vPlan = nil
			old := s[name]
			if old == 0 {
				old = '.'
			}
			vSet(D+"/"+name, real[name], old)
			real[name] = old
			vReport(key, bad)
		}
		try(1<<30, "000"+long, '.')
		points := n
		vN[1] += points
		step := 1
		if quick {
			step = 3
		}
		for at := vPart; at < points; at += vParts * step {
			for _, i := range []int{0, 1, 2, 150, 151, 298, 299, at % 300, (at + 1) % 300} {
				name := fmt.Sprintf("%03d%s", i, long)
				for _, k := range []byte(".d") {
					if s[name] != k {
						try(at, name, k)
					}
				}
			}
			try(at, "new"+long, 'f')
		}
	case "table":
		// A directory nobody asked about is scanned in the background; Check and Populate keep the table current.
		if vPart != 0 {
			break
		}
		start(vState{"a": 'x', "c d": 'f'})
		settle := func(what string, s vState) {
			vProgress(what)
			vN[0]++
			bad := ""
			for i := 0; i < 2000; i++ {
				bad = vExecutables("D", s)
				if bad == "" {
					return
				}
				time.Sleep(time.Millisecond)
			}
			vReport(what, bad)
		}
		settle("first query", real)
		for _, k := range []byte("fxdx.") {
			start(vState{"c d": k})
			cache.Populate(":/nonexistent:D:" + E + ":D/a:")
			settle("populate "+string(k), real)
			cache.Check("D/a")
			cache.Check("D/none")
			cache.Check("a")
			cache.Check("")
			cache.Check("/nonexistent/a")
		}
	}
	fmt.Println("S", vN[0], vN[1], vN[2], vN[3])
	os.Exit(0)
}
