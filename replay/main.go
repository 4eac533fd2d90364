// Command replay looks for inputs on which the code of jschaf/bibtex breaks a
// property. It runs after a proof obligation failed, to turn the failure into
// an input; it decides nothing by itself.
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

type gen struct {
	*rand.Rand
	end   time.Time
	cases int64
	cur   atomic.Value // string
	since atomic.Int64
	prop  string
	dir   string // scratch directory, removed at exit
}

var oracles = map[string]func(g *gen){}

func (g *gen) more() bool { return time.Now().Before(g.end) }

// try runs one case. f returns "" or what is wrong.
func (g *gen) try(desc string, f func() string) {
	g.cases++
	g.cur.Store(desc)
	g.since.Store(time.Now().UnixNano())
	msg := func() (msg string) {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		return f()
	}()
	g.since.Store(0)
	if msg != "" {
		g.fail(desc, msg)
	}
}

// quiet is like try but a panic is some other property's concern.
func (g *gen) quiet(desc string, f func() string) {
	g.try(desc, func() (msg string) {
		defer func() {
			if r := recover(); r != nil {
				msg = ""
			}
		}()
		return f()
	})
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "jschaf/bibtex") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (g *gen) fail(desc, msg string) {
	fmt.Printf("FAIL property %s\n  input: %s\n  %s\n", g.prop, desc, msg)
	fmt.Printf("cases %d\n", g.cases)
	g.exit()
}

func (g *gen) exit() {
	if g.dir != "" {
		os.RemoveAll(g.dir)
	}
	os.Exit(3)
}

func (g *gen) watch() {
	var ms runtime.MemStats
	for {
		time.Sleep(200 * time.Millisecond)
		t := g.since.Load()
		if t == 0 {
			continue
		}
		d := time.Since(time.Unix(0, t))
		runtime.ReadMemStats(&ms)
		if d > 10*time.Second || d > time.Second && ms.HeapAlloc > 2<<30 {
			fmt.Printf("FAIL property %s\n  input: %s\n  does not terminate (%v, %d MB)\n", g.prop, g.cur.Load(), d, ms.HeapAlloc>>20)
			g.exit()
		}
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Int("secs", 20, "budget")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(4 << 30)
	f := oracles[*prop]
	if f == nil {
		fmt.Println("no oracle for", *prop)
		return
	}
	g := &gen{Rand: rand.New(rand.NewSource(*seed)), end: time.Now().Add(time.Duration(*secs) * time.Second), prop: *prop}
	g.cur.Store("")
	go g.watch()
	f(g)
	fmt.Printf("no failing input found\ncases %d\n", g.cases)
}
