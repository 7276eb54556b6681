// The harness drives the code under test and records what it does.
package main

import (
	"flag"
	"fmt"
	"hash/fnv"
	"os"
)

func main() {
	checkPools()
	mode := flag.String("mode", "datum", "")
	prof := flag.String("profile", "all", "")
	seed := flag.Uint64("seed", 1, "")
	n := flag.Int("n", 10, "histories")
	scale := flag.Int("len", 100, "percent of the usual length")
	out := flag.String("out", "", "")
	small := flag.String("world", "", "")
	plan := flag.String("plan", "", "")
	from := flag.Int("from", 0, "the first history")
	beside := flag.Int("beside", 1, "how many databases there are at a time")
	parallel := flag.Bool("parallel", false, "rather than by turns")
	flag.Parse()
	s := newSink(*out)
	if *mode == "replay" {
		runReplay(s, newRng(*seed, 1), *small, *plan, *prof == "snaps")
		s.close()
		return
	}
	if *mode == "sreplay" {
		runSReplay(s, newRng(*seed, 1), *prof, *small, *plan, runSErrand)
		s.close()
		return
	}
	if *mode == "preplay" {
		runSReplay(s, newRng(*seed, 1), *prof, *small, *plan, runPErrand)
		s.close()
		return
	}
	tell := func(i int) (h *history, run func()) {
		f := fnv.New64a()
		fmt.Fprint(f, *mode, *prof, i)
		r := newRng(*seed, f.Sum64())
		h = &history{Mode: *mode, Seed: fmt.Sprintf("%s/%s/%d/%d", *mode, *prof, *seed, i)}
		switch *mode {
		case "datum":
			p, ok := profiles[*prof]
			if !ok {
				fmt.Fprintln(os.Stderr, "unknown profile", *prof)
				os.Exit(3)
			}
			p.events = p.events * *scale / 100
			run = func() { runDatum(h, r, p) }
		case "structs":
			sp, ok := sprofiles[*prof]
			if !ok {
				fmt.Fprintln(os.Stderr, "unknown profile", *prof)
				os.Exit(3)
			}
			sp.events = sp.events * *scale / 100
			run = func() { runStructs(h, r, sp) }
		case "public":
			sp, ok := sprofiles[*prof]
			if !ok {
				fmt.Fprintln(os.Stderr, "unknown profile", *prof)
				os.Exit(3)
			}
			sp.events = sp.events * *scale / 100
			run = func() { runPublic(h, r, sp) }
		case "index":
			run = func() { runIndex(h, r, *scale) }
		case "conc":
			run = func() { runConc(h, r, *scale, *prof == "eager") }
		case "pconc":
			run = func() { runPConc(h, r, *scale) }
		default:
			fmt.Fprintln(os.Stderr, "unknown mode", *mode)
			os.Exit(3)
		}
		return
	}
	for i := *from; i < *from+*n; i += *beside {
		var hs []*history
		var runs []func()
		for j := i; j < min(i+*beside, *from+*n); j++ {
			h, run := tell(j)
			hs, runs = append(hs, h), append(runs, run)
		}
		switch {
		case len(hs) == 1:
			atRest(hs[0], runs[0])
		case *parallel:
			together(runs)
		default:
			byTurns(newRng(*seed, uint64(i)), hs, runs)
		}
		for _, h := range hs {
			s.put(h)
		}
	}
	s.close()
}
