package props

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/metrics"
	"strconv"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// The driver (/verif/check) runs this test binary with these variables:
//
//	VH_MODE   list: print the properties; run: run a property; replay: decide a saved case;
//	          oneshot: serve the fresh-process baseline
//	VH_PROP   the property; VH_TIER quick or thorough
//	VH_SEED   seed of the run; VH_SHARD, VH_SHARDS this shard of how many; VH_ROUND the round
//	VH_OUT    directory for the results of this shard
//	VH_PLAIN  1: the subs that run without the race detector, of a property that asks for it
//	VH_CASE   the case to replay
//	VH_SCALE  multiplies the case counts (for development)
var (
	envOut   = os.Getenv("VH_OUT")
	envProp  = os.Getenv("VH_PROP")
	envTier  = os.Getenv("VH_TIER")
	envShard = envInt("VH_SHARD", 0)
)

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func mix(vals ...uint64) uint64 {
	x := uint64(0x9e3779b97f4a7c15)
	for _, v := range vals {
		x ^= v
		x += 0x9e3779b97f4a7c15
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		x ^= x >> 31
	}
	return x
}

// Stats is what a shard reports about a sub.
type Stats struct {
	Sub         string
	Evaluations int
	Nontrivial  int
	Enumerated  bool
	CPU         float64
	Labels      map[string]int
	Samples     []json.RawMessage
}

func write(name string, v any) {
	p, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(envOut, name), append(p, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// A case may use this much processor time before it counts as not terminating.
var cpuLimit = 180 * time.Second

func limit(p *Prop) {
	if p.Limit > 0 {
		cpuLimit = p.Limit
	}
}

var caseStart atomic.Int64 // processor time at the start of the case, 0 if none

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Memory the process may use before the case counts as not terminating.
const memLimit = 3 << 30

func memory() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// A case that makes no progress for this many seconds is blocked.
const blockedLimit = 90

// watch ends the process when a case uses too much processor time, or none for a long time; the
// current case is on disk.
func watch() {
	var last int64
	var cpu time.Duration
	idle := 0
	for {
		time.Sleep(time.Second)
		now, used := caseStart.Load(), cpuTime()
		if now == 0 || now != last || used-cpu > 300*time.Millisecond {
			last, cpu, idle = now, used, 0
		} else if idle++; idle >= blockedLimit {
			fmt.Fprintln(os.Stderr, "harness: case is blocked")
			os.Exit(8)
		}
		if s := caseStart.Load(); s != 0 && cpuTime()-time.Duration(s) > cpuLimit {
			fmt.Fprintln(os.Stderr, "harness: case exceeds its processor time")
			os.Exit(7)
		}
		if s := caseStart.Load(); s != 0 && memory() > memLimit {
			fmt.Fprintln(os.Stderr, "harness: case exceeds its memory")
			os.Exit(7)
		}
	}
}

// decide runs Check on a case, with the case on disk for the driver in case the process dies.
func decide(s *Sub, c *Case) (err error) {
	if envOut != "" {
		c.Msg = ""
		p, e := json.Marshal(c)
		if e != nil {
			panic(e)
		}
		if e := os.WriteFile(filepath.Join(envOut, "current.json"), p, 0o644); e != nil {
			panic(e)
		}
	}
	caseStart.Store(int64(cpuTime()) + 1)
	defer caseStart.Store(0)
	return s.Check(c)
}

func identity(c *Case) uint64 {
	d := *c
	d.Labels, d.Msg, d.Trivial = nil, "", false
	p, _ := json.Marshal(d)
	h := fnv.New64a()
	h.Write(p)
	return h.Sum64()
}

func TestMain(m *testing.M) {
	flag.Parse()
	switch os.Getenv("VH_MODE") {
	case "list":
		type sub struct {
			Name            string
			Quick, Thorough int
			Plain           bool
		}
		type prop struct {
			ID, Rule      string
			Race          bool
			Procs, Rounds int
			Subs          []sub
		}
		var out []prop
		for _, p := range Props {
			q := prop{ID: p.ID, Rule: p.Rule, Race: p.Race, Procs: max(p.Procs, 1), Rounds: max(p.Rounds, 1)}
			for _, s := range p.Subs {
				q.Subs = append(q.Subs, sub{s.Name, s.Quick, s.Thorough, s.Plain})
			}
			out = append(out, q)
		}
		json.NewEncoder(os.Stdout).Encode(out)
		os.Exit(0)
	case "firstuse":
		firstuse()
		os.Exit(0)
	case "oneshot":
		oneshot()
		os.Exit(0)
	case "run", "replay":
		os.Exit(m.Run())
	}
	os.Exit(0)
}

func TestReplay(t *testing.T) {
	if os.Getenv("VH_MODE") != "replay" {
		t.Skip()
	}
	outerT = t
	p, err := os.ReadFile(os.Getenv("VH_CASE"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	var c Case
	if err := json.Unmarshal(p, &c); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	prop := Find(c.Prop)
	if prop == nil {
		os.Exit(3)
	}
	limit(prop)
	go watch()
	for i := range prop.Subs {
		s := &prop.Subs[i]
		if s.Name == c.Sub {
			if err := decide(s, &c); err != nil {
				fmt.Println("REPLAY-FAILS:", err)
				os.Exit(1)
			}
			fmt.Println("REPLAY-PASSES")
			return
		}
	}
	os.Exit(3)
}

// outerT is the test that runs the checks (synctest needs one).
var outerT *testing.T

func TestProp(t *testing.T) {
	if os.Getenv("VH_MODE") != "run" {
		t.Skip()
	}
	prop := Find(envProp)
	if prop == nil {
		os.Exit(3)
	}
	outerT = t
	limit(prop)
	go watch()
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	seed := uint64(envInt("VH_SEED", 1))
	shards := envInt("VH_SHARDS", 1)
	rounds := envInt("VH_ROUNDS", 1)
	if prop.Race && os.Getenv("VH_PLAIN") == "" {
		atYield.Store(&jitter)
	}
	for i := range prop.Subs {
		s := &prop.Subs[i]
		if s.Plain != (os.Getenv("VH_PLAIN") == "1") {
			continue
		}
		n := s.Quick
		if envTier == "thorough" {
			n = s.Thorough
		}
		if v, err := strconv.ParseFloat(os.Getenv("VH_SCALE"), 64); err == nil {
			n = int(float64(n) * v)
		}
		n = (n + shards*rounds - 1) / (shards * rounds)
		if s.Item != nil {
			n = 0
			if !s.OnlyThorough || envTier == "thorough" {
				for s.Item(n) != nil {
					n++
				}
			}
		}
		if n == 0 {
			continue
		}
		r := mix(seed, uint64(envShard), uint64(envInt("VH_ROUND", 0)), uint64(i)) >> 1
		flag.Set("rapid.checks", "1")

		st := &Stats{Sub: s.Name, Labels: map[string]int{}, Enumerated: s.Item != nil}
		failed := false
		cpu0 := cpuTime()
		seen := map[uint64]bool{}
		one := func(c *Case) error {
			c.Prop, c.Sub = prop.ID, s.Name
			err := decide(s, c)
			if !failed {
				st.Evaluations++
				for _, l := range c.Labels {
					st.Labels[l]++
				}
				if c.Trivial {
					st.Labels["(trivial)"]++
				} else {
					seen[identity(c)] = true
					// Samples: a few, spread over the run.
					if len(st.Samples) < 4 && st.Evaluations >= 1+len(st.Samples)*n/4 {
						p, _ := json.Marshal(c)
						st.Samples = append(st.Samples, p)
					}
				}
			}
			if err != nil {
				failed = true
				c.Msg = err.Error()
				write("fail.json", c)
			}
			return err
		}
		ok := t.Run(s.Name, func(t *testing.T) {
			if s.Item != nil {
				k := shards * rounds
				for i := envShard + shards*envInt("VH_ROUND", 0); i < n; i += k {
					if one(s.Item(i)) != nil {
						t.FailNow()
					}
				}
				return
			}
			d := newDiverse(s)
			for i := 0; i < n; i++ {
				flag.Set("rapid.seed", strconv.FormatUint(d.pick(r, i), 10))
				rapid.Check(t, func(rt *rapid.T) {
					if err := one(s.Gen(rt)); err != nil {
						rt.Fatalf("%v", err)
					}
				})
			}
		})
		st.Nontrivial = len(seen)
		st.CPU = (cpuTime() - cpu0).Seconds()
		write(fmt.Sprintf("stats-%d.json", i), st)
		var ids []byte
		for id := range seen {
			ids = binary.LittleEndian.AppendUint64(ids, id)
		}
		if err := os.WriteFile(filepath.Join(envOut, fmt.Sprintf("ids-%d", i)), ids, 0o644); err != nil {
			os.Exit(3)
		}
		if !ok {
			if !failed { // rapid itself complains: an error of the harness
				fmt.Fprintln(os.Stderr, "harness: sub", s.Name, "could not run")
				os.Exit(3)
			}
			os.Exit(1)
		}
	}
	write("done.json", map[string]bool{"done": true})
}
