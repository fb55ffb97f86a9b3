package main

// The check of one property: generate and discharge every obligation of the
// contracts that belong to it, report what failed, write the evidence.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type fnType = *ssa.Function

var bg = context.Background()

type finding struct {
	prop, oblig, text string
	used              bool
}

// loadFindings reads lines: finding property=C05 obligation="prefix" text
func loadFindings(file, prop string) []*finding {
	var out []*finding
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding ") {
			continue
		}
		r := strings.TrimPrefix(l, "finding ")
		if !strings.HasPrefix(r, "property="+prop+" ") {
			continue
		}
		r = strings.TrimPrefix(r, "property="+prop+" ")
		if !strings.HasPrefix(r, "obligation=") {
			continue
		}
		q, err := strconv.QuotedPrefix(r[len("obligation="):])
		if err != nil {
			continue
		}
		u, _ := strconv.Unquote(q)
		out = append(out, &finding{prop: prop, oblig: u, text: strings.TrimSpace(r[len("obligation=")+len(q):])})
	}
	return out
}

func hasProp(c *Contract, prop string) bool {
	for _, p := range c.Props {
		if p == prop {
			return true
		}
	}
	return false
}

func check(p *Program, specs *Specs, prop, tier, verif, repo string, t0 time.Time) int {
	budget := 480 * time.Second
	if tier == "thorough" {
		budget = 3000 * time.Second
	}
	deadline = t0.Add(budget)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	var keys, lemmas []string
	for _, k := range specs.Order {
		if hasProp(specs.Contracts[k], prop) {
			keys = append(keys, k)
		}
	}
	for _, n := range specs.LOrder {
		for _, t := range specs.Lemmas[n].Tags {
			if t == prop {
				lemmas = append(lemmas, n)
			}
		}
	}
	var results []*FnResult
	var notes []string
	if len(keys) == 0 {
		fmt.Println("no contracts for", prop)
		return 2
	}
	for _, k := range keys {
		r := genFunc(p, specs, prop, k)
		if only := os.Getenv("VONLY"); only != "" && only != k {
			continue
		}
		results = append(results, r)
	}
	for _, n := range lemmas {
		results = append(results, genLemma(p, specs, prop, n))
	}
	fmt.Printf("%s: %d functions and %d lemmas under contract, obligations generated in %.1fs\n", prop, len(keys), len(lemmas), time.Since(t0).Seconds())
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for _, r := range results {
		wg.Add(1)
		go func(r *FnResult) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r.finish()
			if os.Getenv("VTIME") != "" {
				fmt.Printf("  %6.1fs %s (%d failed)\n", r.Solve.Seconds(), r.Key, r.failed())
			}
		}(r)
	}
	wg.Wait()
	// what failed is verified again, without hints and then alone with longer limits; meanwhile
	// a concrete failing input is searched for on the real code: one found settles the matter
	oracleCtx, oracleStop := context.WithCancel(bg)
	defer oracleStop()
	outDir := filepath.Join(verif, "replays")
	os.MkdirAll(outDir, 0755)
	replayBin := os.Getenv("VERIF_REPLAY")
	runOracle := func(mode string, secs int) (string, string) {
		if replayBin == "" {
			return "", ""
		}
		file := filepath.Join(outDir, prop+"-input.txt")
		os.Remove(file)
		c, cancel := context.WithTimeout(oracleCtx, time.Duration(secs+20)*time.Second)
		defer cancel()
		cmd := exec.CommandContext(c, replayBin, "-prop", prop, "-mode", mode, "-seconds", strconv.Itoa(secs), "-seed", strconv.Itoa(seed), "-out", file)
		b, _ := cmd.CombinedOutput()
		s := string(b)
		if len(s) > 4000 {
			s = s[:4000]
		}
		if _, err := os.Stat(file); err == nil {
			return file, s
		}
		return "", s
	}
	var failing string // path of a concrete failing input
	searched := false
	var found chan string
	oracleSays := ""
	failedNow := false
	for _, r := range results {
		if !r.Missing && (r.Unsup != "" || r.failed() > 0) {
			failedNow = true
		}
	}
	snap := map[*FnResult][]*Oblig{}
	if failedNow {
		for _, r := range results {
			if r.Missing || r.Unsup != "" {
				continue
			}
			for _, o := range r.Obs {
				c := *o
				snap[r] = append(snap[r], &c)
			}
		}
		searched = true
		found = make(chan string, 1)
		secs := 90
		if tier == "thorough" {
			secs = 300
		}
		go func() {
			f, s := runOracle("search", secs)
			if f != "" {
				stopped.Store(true)
				stopSolvers()
			}
			oracleSays = "search for a failing input: " + strings.TrimSpace(lastLine(s))
			found <- f
		}()
		if hints.on {
			for _, r := range results {
				if r.Missing || r.Unsup != "" || r.failed() == 0 {
					continue
				}
				wg.Add(1)
				go func(r *FnResult) {
					defer wg.Done()
					sem <- struct{}{}
					defer func() { <-sem }()
					r.again()
				}(r)
			}
			wg.Wait()
		}
		for _, r := range results {
			if r.Missing || r.Unsup != "" || r.failed() == 0 {
				continue
			}
			if stopped.Load() || time.Until(deadline) < 60*time.Second {
				break
			}
			slower = 3
			r.again()
			slower = 1
		}
		still := false
		for _, r := range results {
			if !r.Missing && (r.Unsup != "" || r.failed() > 0) {
				still = true
			}
		}
		if still || stopped.Load() {
			failing = <-found // at the latest when the search's time is over
			notes = append(notes, oracleSays)
		}
		if failing != "" {
			// the later passes may have been cut off: report what the first one left
			for _, r := range results {
				if s := snap[r]; s != nil {
					r.Obs = s
				}
			}
		}
	}

	type viol struct {
		name, detail string
	}
	var viols []viol
	nOb, nOK, nCand := 0, 0, 0
	by := map[string]int{}
	trusted := map[string]bool{}
	var fnsOut []map[string]any
	used := map[string]bool{}
	gone := []string{}
	for _, r := range results {
		if r.Missing {
			gone = append(gone, r.Key)
			if c := specs.Contracts[r.Key]; c.Opts["required"] != "" {
				viols = append(viols, viol{r.Key + " / missing: the function under contract no longer exists", ""})
			} else {
				notes = append(notes, "function under contract not found, its callers are checked against its replacement's body: "+r.Key)
			}
			continue
		}
		if r.Unsup != "" {
			nOb++
			viols = append(viols, viol{r.Key + " / unsupported: the function left the verifier's reach", r.Unsup})
			continue
		}
		ok, bad := 0, 0
		kinds := map[string]int{}
		for _, o := range r.Obs {
			if o.Cover {
				if !o.OK {
					viols = append(viols, viol{o.Name(), "vacuous contract: no return is reachable under the preconditions"})
				}
				continue
			}
			nOb++
			kinds[o.Kind]++
			if o.OK {
				nOK++
				ok++
				by[o.Res.solver]++
			} else {
				bad++
				viols = append(viols, viol{o.Name() + locOf(o), o.Res.status + " by " + o.Res.solver + "\n" + o.Res.out})
			}
		}
		nCand += r.Kept
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, u := range r.Used {
			used[u] = true
		}
		m := map[string]any{"function": r.Key, "obligations": ok + bad, "discharged": ok, "by_kind": kinds, "inferred_loop_facts": r.Kept, "solver_s": round2(r.Solve.Seconds())}
		if len(r.Inlined) > 0 {
			m["inlined"] = r.Inlined
		}
		if c := specs.Contracts[r.Key]; c != nil {
			if c.NoTerm {
				m["termination"] = "not claimed"
			}
			if c.MayPanic {
				m["panics"] = "explicit panics allowed by the contract"
			}
		}
		fnsOut = append(fnsOut, m)
	}
	if len(gone) > 0 && len(gone)*2 > len(keys) {
		viols = append(viols, viol{"missing: more than half of the functions under contract no longer exist", strings.Join(gone, ", ")})
	}

	// bounded stand-ins for functions outside the verifier's reach, and the search
	// for a concrete failing input when an obligation failed
	bounded := map[string]any{}
	var known []*finding
	known = loadFindings(filepath.Join(verif, "known_findings.txt"), prop)
	if failing == "" && hasBounded(verif, prop) {
		secs := 20
		if tier == "thorough" {
			secs = 180
		}
		f, s := runOracle("bounded", secs)
		failing = f
		bounded["stand_in"] = strings.TrimSpace(lastLine(s))
		fmt.Println("bounded stand-in:", lastLine(s))
		if f != "" {
			viols = append(viols, viol{"bounded check of the functions outside the verifier's reach: a failing input was found", s})
		}
	}

	var real []viol
	for _, v := range viols {
		sup := false
		for _, k := range known {
			if strings.HasPrefix(v.name, k.oblig) {
				if !k.used {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
				k.used = true
				sup = true
			}
		}
		if !sup {
			real = append(real, v)
		}
	}
	rc := 0
	if len(real) > 0 {
		rc = 1
		if failing == "" && !searched {
			secs := 90
			if tier == "thorough" {
				secs = 300
			}
			f, s := runOracle("search", secs)
			failing = f
			notes = append(notes, "search for a failing input: "+strings.TrimSpace(lastLine(s)))
		}
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d obligation(s) not discharged on the current tree\n\n", prop, len(real))
		if failing != "" {
			fmt.Fprintf(&b, "failing input, replayed on the real code: %s\n", failing)
			if c, err := os.ReadFile(failing); err == nil {
				b.Write(c)
			}
			b.WriteString("\n")
		}
		for _, v := range real {
			fmt.Fprintf(&b, "obligation: %s\n", v.name)
			d := v.detail
			if len(d) > 6000 {
				d = d[:6000] + "…"
			}
			fmt.Fprintf(&b, "%s\n\n", d)
		}
		rp := filepath.Join(outDir, prop+".txt")
		os.WriteFile(rp, []byte(b.String()), 0644)
		for i, v := range real {
			if i == 8 {
				fmt.Printf("  … and %d more\n", len(real)-8)
				break
			}
			fmt.Println("  not discharged:", v.name)
		}
		if failing != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
	}

	// evidence
	var tb []string
	for t := range trusted {
		tb = append(tb, t)
	}
	sort.Strings(tb)
	var axs []string
	for _, a := range specs.Axioms {
		axs = append(axs, "axiom "+a.Name+": "+a.Src)
	}
	var asm []string
	asm = append(asm, tb...)
	asm = append(asm, axs...)
	mine := map[string]bool{}
	for _, k := range keys {
		mine[k] = true
	}
	var else_ []string
	for u := range used {
		if c := specs.Contracts[u]; c != nil && !mine[u] && !c.Extern && !c.Iface {
			if c.Trusted {
				asm = append(asm, "trusted contract of "+u+" (its body is not verified)")
			} else if len(c.Props) > 0 {
				else_ = append(else_, u+" (check of "+strings.Join(c.Props, ", ")+")")
			} else {
				asm = append(asm, "contract of "+u+" used but discharged by no check")
			}
		}
	}
	sort.Strings(else_)
	asm = append(asm, "int and int64 are mathematical integers (no wrap-around); narrower types wrap",
		"sequential execution of the compiler; the Go compiler, go/ssa and the SMT solvers are trusted",
		"the heap model: distinct allocations do not alias; strings are immutable sequences of bytes")
	solv := map[string]any{}
	theStats.Lock()
	for k, d := range theStats.byTime {
		solv[k] = round2(d.Seconds())
	}
	q := theStats.queries
	theStats.Unlock()
	known_ := []string{}
	for _, k := range known {
		if k.used {
			known_ = append(known_, k.text)
		}
	}
	cov := map[string]any{
		"obligations": nOb, "discharged": nOK,
		"checker_cmd":                    "engine check -prop " + prop + " (go/ssa front end; z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2)",
		"trusted_base":                   append([]string{"verification condition generator /verif/engine", "golang.org/x/tools/go/ssa", "z3", "cvc5"}, tb...),
		"functions":                      fnsOut,
		"functions_under_contract":       len(keys) - len(gone),
		"lemmas":                         lemmas,
		"contracts_discharged_elsewhere": else_,
		"discharged_by":                  by,
		"solver_seconds":                 solv,
		"solver_queries":                 q,
		"inferred_loop_facts":            nCand,
		"notes":                          notes,
		"known_findings":                 known_,
	}
	if len(bounded) > 0 {
		cov["bounded_not_counted_as_proved"] = bounded
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": asm, "wall_s": round2(time.Since(t0).Seconds()), "violations": len(real),
	}
	if nOK < nOb && rc == 0 {
		cov["note"] = "obligations not discharged are recorded known findings"
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(js, '\n'), 0644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.0fs wall (%d cores)\n", prop, nOb, nOK, len(keys)-len(gone), time.Since(t0).Seconds(), runtime.NumCPU())
	return rc
}

func hasBounded(verif, prop string) bool {
	b, err := os.ReadFile(filepath.Join(verif, "replay", "bounded.txt"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 0 && f[0] == prop {
			return true
		}
	}
	return false
}

func lastLine(s string) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	return ls[len(ls)-1]
}

func locOf(o *Oblig) string {
	if o.Pos == "" {
		return ""
	}
	return " [" + o.Pos + "]"
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func (r *FnResult) failed() int {
	n := 0
	for _, o := range r.Obs {
		if !o.OK {
			n++
		}
	}
	return n
}
