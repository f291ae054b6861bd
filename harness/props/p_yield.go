package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
	"pgregory.net/rapid"
)

// Schedules that are forced: a parse is stopped before any of its statements, another one runs, wholly
// or up to one of its own statements, and both go on. What the race detector cannot see, because every
// access is locked, shows here.

// atYield is what a goroutine that parses does before each statement.
var atYield atomic.Pointer[func()]

func yield() {
	if f := atYield.Load(); f != nil {
		(*f)()
	}
}

// jitter makes goroutines pause now and then. It shares nothing between them, which would hide races.
var jitter = func() {
	switch r := rand.Uint32() % 256; {
	case r < 4:
		time.Sleep(time.Duration(20+rand.Uint32()%100) * time.Microsecond)
	}
}

// Schedule is two parses: the first stops before its statement K (from 1), the second runs up to its
// statement M, or to its end if M is 0 or it has fewer, then the first to its end, then the second.
type Schedule struct {
	In   [2]B
	Kind [2]int
	K, M int
}

func plainReader(charset string, in io.Reader) (io.Reader, error) {
	p, err := io.ReadAll(in)
	if err != nil {
		return nil, err
	}
	v, _ := crValue(crTag, charset, string(p))
	return strings.NewReader(v), nil
}

// run gives the outcomes, and whether statement K was reached.
func (s *Schedule) run(patience time.Duration) (out [2]*Outcome, reached bool) {
	rfc5322.CharsetReader = plainReader
	defer func() { rfc5322.CharsetReader = nil; atYield.Store(nil) }()
	var stage atomic.Int32 // 0: the first runs; 1: the second; 2: both
	n := 0
	firstGoes, firstDone, secondDone := make(chan struct{}), make(chan struct{}), make(chan struct{})
	var goOnce sync.Once
	letFirst := func() { goOnce.Do(func() { stage.Store(2); close(firstGoes) }) }
	wait := func(c chan struct{}) {
		// What waits may hold a lock the other one needs: then both go on.
		t := time.NewTimer(patience)
		defer t.Stop()
		select {
		case <-c:
		case <-t.C:
		}
	}
	f := func() {
		switch stage.Load() {
		case 0:
			if n++; n < s.K {
				return
			}
			reached, n = true, 0
			stage.Store(1)
			go func() {
				defer close(secondDone)
				defer letFirst()
				out[1] = outcome(s.Kind[1] == 1, string(s.In[1]))
			}()
			wait(firstGoes)
			letFirst()
		case 1: // the first one waits
			if s.M == 0 {
				return
			}
			if n++; n == s.M {
				letFirst()
				wait(firstDone)
			}
		}
	}
	atYield.Store(&f)
	out[0] = outcome(s.Kind[0] == 1, string(s.In[0]))
	close(firstDone)
	if reached {
		<-secondDone
	} else {
		atYield.Store(nil)
		out[1] = outcome(s.Kind[1] == 1, string(s.In[1]))
	}
	return out, reached
}

// alone parses an input by itself; it counts the statements.
func alone(kind int, in B) (o *Outcome, statements int, took time.Duration) {
	rfc5322.CharsetReader = plainReader
	defer func() { rfc5322.CharsetReader = nil; atYield.Store(nil) }()
	f := func() { statements++ }
	atYield.Store(&f)
	start := time.Now()
	o = outcome(kind == 1, string(in))
	return o, statements, time.Since(start)
}

// firstuse runs a schedule as the first thing its process does.
func firstuse() {
	var s Schedule
	p, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(p, &s)
	}
	if err != nil {
		os.Exit(3)
	}
	out, _ := s.run(time.Second)
	json.NewEncoder(os.Stdout).Encode(out)
}

// A case: the two inputs in In; the kinds, then pairs in Ints, which are parts of ten thousand of the
// statements of each input, the second -1 for all.
func schedules(c *Case, each func(s *Schedule) ([2]*Outcome, error)) error {
	want := [2]*Outcome{}
	var statements [2]int
	for i := range want {
		want[i], statements[i], _ = alone(c.Ints[i], c.In[i])
	}
	c.Trivial = statements[0] == 0 || !want[0].OK && !want[1].OK
	if statements[0] == 0 {
		return nil // not instrumented
	}
	for k := 2; k+1 < len(c.Ints); k += 2 {
		s := &Schedule{In: [2]B{c.In[0], c.In[1]}, Kind: [2]int{c.Ints[0], c.Ints[1]}}
		s.K = 1 + c.Ints[k]*statements[0]/10000
		if c.Ints[k+1] >= 0 {
			s.M = 1 + c.Ints[k+1]*statements[1]/10000
		}
		out, err := each(s)
		if err != nil {
			return err
		}
		for i := range want {
			if !out[i].same(want[i]) {
				return fmt.Errorf("%+q stopped before its statement %d, %+q run up to its statement %d (0: to its end): parsing %+q gives %v, alone %v",
					string(c.In[0]), s.K, string(c.In[1]), s.M, string(c.In[i]), out[i], want[i])
			}
		}
	}
	return nil
}

func (g gen) scheduled(points int) *Case {
	c := &Case{}
	input := func() (string, int) {
		switch g.weighted(40, 35, 15, 10) {
		case 0:
			return g.short(), 0
		case 1:
			s, _ := g.wild(&Case{})
			return s, 1
		case 2:
			r, _ := g.encodedRaw(g.charset())
			return r + " <a@b>", 0
		}
		return clip(g.mutate(g.short()), 60), 0
	}
	a, ka := input()
	b, kb := input()
	if g.pct(35) { // alike
		b, kb = a, ka
		if g.bit() {
			b = strings.ToUpper(b)
		}
	}
	c.In, c.Ints = []B{B(a), B(b)}, []int{ka, kb}
	for ; points > 0; points-- {
		k, m := g.n(10000), g.n(10000)
		if g.bit() {
			m = -1
		}
		c.Ints = append(c.Ints, k, m)
	}
	c.labelIf(ka == 1 || kb == 1, "date")
	c.labelIf(ka == 0 || kb == 0, "address")
	return c
}

func addYield() {
	impatient := 0
	add("C03", Sub{Name: "preempted", Plain: true, Quick: 480, Thorough: 12000, Gen: func(t *rapid.T) *Case {
		return gen{t}.scheduled(6)
	}, Check: func(c *Case) error {
		return schedules(c, func(s *Schedule) ([2]*Outcome, error) {
			patience := time.Second
			if impatient > 4 { // it does hold locks while it parses
				patience = 2 * time.Millisecond
			}
			start := time.Now()
			out, _ := s.run(patience)
			if time.Since(start) >= patience {
				impatient++
			}
			return out, nil
		})
	}}, Sub{Name: "first-use", Plain: true, Quick: 1200, Thorough: 20000, Gen: func(t *rapid.T) *Case {
		g := gen{t}
		c := g.scheduled(1)
		if g.pct(30) { // near the start
			c.Ints[2] = g.n(1500)
		}
		return c
	}, Check: func(c *Case) error {
		return schedules(c, func(s *Schedule) ([2]*Outcome, error) {
			p, _ := json.Marshal(s)
			var last error
			for try := 0; try < 3; try++ {
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				bin := os.Getenv("VH_BIN")
				if bin == "" {
					bin = os.Args[0]
				}
				cmd := exec.CommandContext(ctx, bin)
				cmd.Env = append(os.Environ(), "VH_MODE=firstuse", "TZ=UTC")
				cmd.Stdin = bytes.NewReader(p)
				var stderr bytes.Buffer
				cmd.Stderr = &stderr
				b, err := cmd.Output()
				late := ctx.Err() != nil
				cancel()
				if late {
					return [2]*Outcome{}, fmt.Errorf("the first parses of a process do not end: %s", p)
				}
				if err == nil {
					var out [2]*Outcome
					if err = json.Unmarshal(b, &out); err == nil && out[0] != nil && out[1] != nil {
						return out, nil
					}
				}
				last = fmt.Errorf("%v: %.300s", err, stderr.String())
			}
			return [2]*Outcome{}, fmt.Errorf("the first parses of a process end it: %s: %v", p, last)
		})
	}})
}
