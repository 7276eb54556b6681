package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// ev is an event of a history.
type ev map[string]J

// history is a sequence of events, one line of the output.
type history struct {
	Mode   string `json:"mode"`
	Seed   string `json:"seed"`
	Events []ev   `json:"events"`
	hung   bool
	// panicked tells that the code under test did, at least once.
	panicked bool
	// past are parts of the latest responses, which are not to change any more.
	past []any
	// stops break off the selections that may still be under way at the end.
	stops []func()
	// turn, if there is one, lets the histories of other databases go on.
	turn func()
}

func (h *history) add(e ev) {
	h.Events = append(h.Events, e)
	if h.turn != nil {
		h.turn()
	}
}

type sink struct {
	f *os.File
	w *bufio.Writer
	n int
}

func newSink(path string) *sink {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &sink{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (s *sink) put(h *history) {
	b, err := json.Marshal(h)
	if err != nil {
		panic(err)
	}
	s.w.Write(b)
	s.w.WriteByte('\n')
	s.n++
	if h.hung {
		// The code under test does not come back: end here with what has been observed.
		s.close()
		os.Exit(0)
	}
}

func (s *sink) close() {
	s.w.Flush()
	s.f.Close()
}

const hangAfter = 30 * time.Second

// guard runs an operation of the code under test and reports its panic or hang, if any.
func (h *history) guard(op func()) (panicked string) {
	if h.hung {
		return "hang"
	}
	done := make(chan string, 1)
	go func() {
		msg := ""
		defer func() { done <- msg }()
		defer func() {
			if r := recover(); r != nil {
				msg = describePanic(r)
			}
		}()
		op()
	}()
	select {
	case panicked = <-done:
	case <-time.After(hangAfter):
		h.hung = true
		panicked = "hang"
	}
	h.panicked = h.panicked || panicked != ""
	return
}

// say has an error explain itself.
func say(err error) {
	if err != nil {
		_ = err.Error()
	}
}

// describePanic says where the code under test panicked. A panic of the harness itself is fatal.
func describePanic(r any) string {
	stack := string(debug.Stack())
	where := ""
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for _, line := range lines {
		if strings.HasPrefix(line, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic {
			continue
		}
		if strings.HasPrefix(line, "main.") {
			// The harness is above the code under test: the panic started in the harness.
			if where == "" {
				fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, stack)
				os.Exit(3)
			}
			break
		}
		if strings.HasPrefix(line, "github.com/dball/destructive/") && !strings.Contains(line, "verifharness") {
			where = line
			break
		}
	}
	if where == "" {
		fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, stack)
		os.Exit(3)
	}
	if i := strings.LastIndex(where, "("); i > 0 {
		where = where[:i]
	}
	return fmt.Sprintf("%v at %s", r, strings.TrimPrefix(where, "github.com/dball/destructive/"))
}

// rng is a source of choices.
type rng struct{ *rand.Rand }

func newRng(seed, stream uint64) rng { return rng{rand.New(rand.NewPCG(seed, stream))} }

func (r rng) chance(pct int) bool { return r.IntN(100) < pct }

func pick[T any](r rng, xs []T) T { return xs[r.IntN(len(xs))] }

// weighted picks an index according to the weights.
func (r rng) weighted(ws []int) int {
	total := 0
	for _, w := range ws {
		total += w
	}
	n := r.IntN(total)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return len(ws) - 1
}
