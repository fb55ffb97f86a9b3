// Search for inputs on which the real code breaks a property.  Used when an
// obligation of the contracts is not discharged (mode search), and as the bounded
// stand-in for functions outside the verifier's reach (mode bounded).
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
)

type oracle struct {
	search  func(r *rand.Rand)
	bounded func(r *rand.Rand)
}

var oracles = map[string]oracle{}

var (
	outFile  string
	prop     string
	scratch  string
	deadline time.Time
	cases    int64
	current  atomic.Value // what is being tried (string)
	started  atomic.Int64 // when the current case was started
	distinct = map[string]bool{}
)

// fail reports a failing input and ends the program.
func fail(input, what string) {
	t := fmt.Sprintf("property %s: %s\n---- input ----\n%s\n---- end of input ----\n", prop, what, input)
	os.WriteFile(outFile, []byte(t), 0644)
	fmt.Fprint(os.Stderr, t)
	if scratch != "" {
		os.RemoveAll(scratch)
	}
	os.Exit(1)
}

// try runs one case; a panic or a hang is a failure unless the case allows it.
func try(input string, f func()) {
	cases++
	current.Store(input)
	started.Store(time.Now().UnixNano())
	defer func() {
		started.Store(0)
		if e := recover(); e != nil {
			fail(input, fmt.Sprintf("panic: %v\n%s", e, firstLines(debug.Stack(), 40)))
		}
	}()
	f()
}

func firstLines(b []byte, n int) string {
	k := 0
	for i := range b {
		if b[i] == '\n' {
			k++
			if k == n {
				return string(b[:i])
			}
		}
	}
	return string(b)
}

func watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		s := started.Load()
		if s == 0 {
			continue
		}
		var m runtime.MemStats
		if time.Since(time.Unix(0, s)) > 1*time.Second {
			runtime.ReadMemStats(&m)
		}
		if time.Since(time.Unix(0, s)) > 10*time.Second || m.HeapAlloc > 3<<30 {
			in, _ := current.Load().(string)
			fail(in, "does not terminate (stopped after 10 s, or 3 GB of memory)")
		}
	}
}

func left() bool { return time.Now().Before(deadline) }

func main() {
	var mode string
	var seconds int
	var seed int64
	flag.StringVar(&prop, "prop", "", "")
	flag.StringVar(&mode, "mode", "search", "")
	flag.IntVar(&seconds, "seconds", 30, "")
	flag.Int64Var(&seed, "seed", 1, "")
	flag.StringVar(&outFile, "out", "/dev/null", "")
	flag.Parse()
	deadline = time.Now().Add(time.Duration(seconds) * time.Second)
	o, ok := oracles[prop]
	if !ok {
		fmt.Println("no search for", prop)
		return
	}
	d, err := os.MkdirTemp("", "verifreplay")
	if err != nil {
		fmt.Println(err)
		return
	}
	scratch = d
	defer os.RemoveAll(d)
	go watchdog()
	r := rand.New(rand.NewSource(seed*7919 + 17))
	f := o.search
	if mode == "bounded" {
		f = o.bounded
	}
	if f == nil {
		fmt.Println("nothing to run")
		return
	}
	// the code under test prints to standard output
	so := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	f(r)
	os.Stdout = so
	fmt.Printf("%s %s: %d cases, none fails\n", prop, mode, cases)
}
