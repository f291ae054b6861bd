package props

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/mail"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
	"pgregory.net/rapid"
	"verifharness/spec"
)

// Outcome is everything a caller sees of a parse.
type Outcome struct {
	Err   B
	OK    bool
	Addrs []Addr
	Unix  int64
	Date  spec.Date
	Zone  B
}

func (o *Outcome) String() string {
	p, _ := json.Marshal(o)
	return string(p)
}

func outcome(dateTime bool, in string) *Outcome {
	o := &Outcome{}
	if dateTime {
		t, err := parseD(in)
		if err != nil {
			o.Err = B(err.Error())
			return o
		}
		name, _ := t.Zone()
		o.OK, o.Unix, o.Date, o.Zone = true, t.Unix(), date(t), B(name)
		return o
	}
	list, err := parseA(in)
	if err != nil {
		o.Err = B(err.Error())
		return o
	}
	as, err := addrs(list)
	if err != nil {
		o.Err = B(err.Error())
		return o
	}
	o.OK, o.Addrs = true, as
	return o
}

// same compares outcomes; what an error says is not compared.
func (o *Outcome) same(p *Outcome) bool {
	if o.OK != p.OK {
		return false
	}
	return !o.OK || sameAddrs(o.Addrs, p.Addrs) && o.Unix == p.Unix && o.Date == p.Date && o.Zone == p.Zone
}

type request struct {
	DateTime bool
	In       B
	Mode     int // the CharsetReader installed
}

// oneshot answers one request: it is the first and only parse of its process.
func oneshot() {
	var r request
	p, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(p, &r)
	}
	if err != nil {
		os.Exit(3)
	}
	rfc5322.CharsetReader = crReader(r.Mode, new([]crCall))
	json.NewEncoder(os.Stdout).Encode(outcome(r.DateTime, string(r.In)))
}

// fresh gives the outcome of a parse in a new process. A process that fails is an error of the
// harness, except that a parse which kills it is an outcome.
func fresh(r request) *Outcome {
	bin := os.Getenv("VH_BIN")
	if bin == "" {
		bin = os.Args[0]
	}
	p, _ := json.Marshal(r)
	var last error
	for try := 0; try < 3; try++ {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, bin)
		cmd.Env = append(os.Environ(), "VH_MODE=oneshot", "TZ=UTC")
		cmd.Stdin = bytes.NewReader(p)
		out, err := cmd.Output()
		late := ctx.Err() != nil
		cancel()
		if late {
			return &Outcome{Err: "does not return"}
		}
		if err == nil {
			o := &Outcome{}
			// The answer is the last line: the parser itself must not write, which is checked elsewhere.
			lines := bytes.Split(bytes.TrimSpace(out), []byte("\n"))
			if err = json.Unmarshal(lines[len(lines)-1], o); err == nil {
				return o
			}
		}
		last = err
	}
	fmt.Fprintln(os.Stderr, "harness: fresh process:", last)
	os.Exit(3)
	return nil
}

// Steps of a history.
const (
	opParse    = iota // parse and compare with the fresh process
	opScribble        // parse, compare, then overwrite the result
	opZone            // change time.Local first
	opLater           // let time pass first
	opHook            // install a CharsetReader, parse, remove it; then the step itself
	opPanic           // the same with a CharsetReader that panics
)

// silent runs f and fails if it writes to the standard output or error.
func silent(f func() error) error {
	tmp, err := os.CreateTemp("", "vh-out")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	var saved [2]int
	for fd := 1; fd <= 2; fd++ {
		if saved[fd-1], err = syscall.Dup(fd); err == nil {
			err = syscall.Dup3(int(tmp.Fd()), fd, 0)
		}
		if err != nil {
			os.Exit(3)
		}
	}
	restore := func() {
		for fd := 1; fd <= 2; fd++ {
			syscall.Dup3(saved[fd-1], fd, 0)
			syscall.Close(saved[fd-1])
		}
	}
	defer restore()
	err = f()
	if fi, e := tmp.Stat(); err == nil && e == nil && fi.Size() > 0 {
		b := make([]byte, 200)
		n, _ := tmp.ReadAt(b, 0)
		return fmt.Errorf("parsing writes to the standard output or error: %q", b[:n])
	}
	return err
}

// siblings are inputs that look alike: a parser that remembers something confuses those first.
func (g gen) siblings(c *Case) (ins []B, kinds []int) {
	var base string
	kind := g.weighted(32, 32, 14, 22)
	switch kind {
	case 3: // one long token in one place, and ones that differ from it in a character
		ins = g.tokenSiblings()
		return ins, make([]int, len(ins))
	case 0:
		base = clip(g.validAddresses(), 120)
	case 1:
		base, _ = g.wild(&Case{})
	case 2: // what the text is depends on the CharsetReader
		cs := g.charset()
		r, _ := g.encodedRaw(cs)
		base = r + " <" + g.plain(2) + "@b>"
		for n := g.rng(2, 3); n > 0; n-- {
			s := base
			switch g.n(4) {
			case 0:
				s = mixCase(g, r) + " <a@b>"
			case 1:
				s = "n " + base
			}
			ins, kinds = append(ins, B(s)), append(kinds, kind)
		}
		return ins, kinds
	}
	for n := g.rng(2, 4); n > 0; n-- {
		s := base
		switch g.n(7) {
		case 6: // the same but for white space, which may be quoted
			s = strings.Replace(s, g.pick(" ", "\t"), g.pick("  ", "\t", " \r\n ", ""), 1+g.n(2))
			if g.bit() {
				s = g.pick(" ", "") + s + g.pick(" ", "\t", "")
			}
		case 0:
			if kind == 0 {
				s = g.mutate(s)
			} else {
				s = g.mutateD(s)
			}
		case 1: // change one letter or digit, keeping the length
			r := []byte(s)
			for try := 0; try < 8; try++ {
				i := g.n(len(r) + 1)
				if i < len(r) && r[i] >= 'a' && r[i] <= 'z' && kind == 0 {
					r[i] = byte(g.runeOf(lower))
					break
				}
				if i < len(r) && r[i] >= '0' && r[i] <= '9' {
					r[i] = byte('0' + g.n(10))
					break
				}
			}
			s = string(r)
		case 2:
			s = strings.ToUpper(s)
		case 3:
			if kind == 0 {
				m, _ := g.simpleMailbox()
				s = m + ", " + s
			}
		case 4:
			s = s[:g.n(len(s)+1)] // often invalid
		}
		k := kind
		if g.pct(8) { // the other function on the same text
			k = 1 - k
		}
		ins, kinds = append(ins, B(s)), append(kinds, k)
	}
	return ins, kinds
}

// dateSpellings are dates which differ little, in spelling or in meaning.
func (g gen) dateSpellings() (all []string) {
	day, year := fmt.Sprint(g.rng(1, 28)), fmt.Sprint(g.rng(1950, 2049))
	h, m := g.n(24), g.n(60)
	month := monthText[g.n(12)]
	base := day + " " + month + " " + year
	at := fmt.Sprintf("%d:%02d", h, m)
	oh, om := g.n(14), []int{0, 0, 30, g.n(40)}[g.n(4)]
	off := fmt.Sprintf("%02d%02d", oh, om)
	name := zoneText[g.n(len(zoneText))]
	for _, z := range []string{"", "+" + off, "-" + off, off, fmt.Sprintf("+%02d%02d", max(0, oh-1), om+60), "+0000", "-0000", "0000",
		name, strings.ToLower(name), mixCase(g, name), "GMT", "gmt", "UT", "UTC", "EST", "CDT", "-0500", "MST", "PDT", "-0700", fmt.Sprintf("%+03d00", spec.ZoneOffsets[strings.ToLower(name)])} {
		if z != "" {
			z = " " + z
		}
		all = append(all, base+" "+at+z)
	}
	return append(all, base+" "+at+":00", base+" "+at+":00 "+name, fmt.Sprintf("%s %s %s %02d:%02d:00", day, month, year[2:], h, m),
		strings.ToUpper(base)+" "+at, "Mon, "+base+" "+at, "Tue, "+base+" "+at+" "+name, base+" "+at+" (x)", base+" "+at+" "+name+" (x)",
		base+" (EST) "+at, "0"+base+" "+at, base+" "+at+" +"+off+" ("+name+")")
}

// mailboxSpellings are mailboxes which differ little, in spelling or in meaning.
func (g gen) mailboxSpellings() (all []string) {
	l, d, n := g.plain(3), g.plain(3), g.plain(4)
	a := l + "@" + d
	for _, s := range []string{a, "<" + a + ">", strings.ToUpper(l) + "@" + d, l + "@" + strings.ToUpper(d), `"` + l + `"@` + d,
		l + " @ " + d, l + "@ " + d, a + ".", l + ".@" + d, l + "@[" + d + "]", l + "@[ " + d + "]", "<@" + d + ":" + a + ">", a + ":25", a + ":025",
		"(" + n + ") " + a, a + " (" + n + ")", "(" + n + ") <" + a + ">", n + ":" + a + ";", `"` + n + ":" + a + `";`, n + ":" + a, a + ",", "," + a,
		a + ", " + a, a + "," + a, a + "; " + a, `"` + l + ` "@` + d, `" ` + l + `"@` + d} {
		all = append(all, s)
	}
	b := base64.StdEncoding.EncodeToString([]byte(n))
	for _, s := range []string{n, `"` + n + `"`, strings.ToUpper(n), `"` + strings.ToUpper(n) + `"`, "=?utf-8?q?" + n + "?=", "=?UTF-8?Q?" + n + "?=", "=?utf-8?b?" + b + "?=",
		"=?us-ascii?q?" + n + "?=", "=?x?q?" + n + "?=", `"=?utf-8?q?` + n + `?="`, n + ".", n + " .", n + "(x)", n + " " + n, n + "  " + n, `"` + n + " " + n + `"`, `"` + n + "  " + n + `"`,
		`"` + n + `" "` + n + `"`, `"` + n + ` "`, `"\` + n + `"`, n + "@", "=?utf-8?q?" + n + "?= =?utf-8?q?" + n + "?=", "=?utf-8?q?" + n + "?= " + n, "=?utf-8?q?" + n + "_?="} {
		all = append(all, s+" <"+a+">")
	}
	return all
}

// checkRespelled parses all inputs in their order, then some in the order of Ints.
func checkRespelled(c *Case) error {
	date := c.Ints[0] == 1
	var want []*Outcome
	for _, in := range c.In {
		want = append(want, fresh(request{date, in, crNil}))
	}
	one := func(i int, before string) error {
		if got := outcome(date, string(c.In[i])); !got.same(want[i]) {
			return fmt.Errorf("parsing %+q after %s gives %v, in a fresh process %v", string(c.In[i]), before, got, want[i])
		}
		return nil
	}
	for i := range c.In {
		if err := one(i, fmt.Sprintf("%+q", c.In[:i])); err != nil {
			return err
		}
	}
	runtime.GC()
	for _, i := range c.Ints[1:] {
		if err := one(i%len(c.In), "all others"); err != nil {
			return err
		}
	}
	return nil
}

// tokenSiblings are mailboxes which differ in a character or two of one token.
func (g gen) tokenSiblings() (ins []B) {
	n := 1 + g.size(40)%40
	tok := make([]byte, n)
	for i := range tok {
		tok[i] = byte(g.runeOf(lower))
	}
	place := g.n(11)
	for k := g.rng(2, 4); k > 0; k-- {
		t := string(tok)
		b := []byte(t)
		i := g.n(n)
		switch g.n(6) {
		case 0, 1:
			b[i] = 'a' + (b[i]-'a'+1+byte(g.n(25)))%26
		case 2:
			b[i] -= 32
		case 3:
			j := g.n(n)
			b[i], b[j] = b[j], b[i]
		case 4:
			b = append(b[:i], b[i+1:]...)
			if len(b) == 0 {
				b = []byte("ab")
			}
		}
		t = string(b)
		s := ""
		switch place {
		case 0:
			s = "=?utf-8?q?" + t + "?= <a@b>"
		case 1:
			s = "=?utf-8?b?" + base64.StdEncoding.EncodeToString(b) + "?= <a@b>"
		case 2:
			s = "=?iso-8859-1?Q?" + t + "?= <a@b>"
		case 3:
			s = `"` + t + `" <a@b>`
		case 4:
			s = t + " <a@b>"
		case 5:
			s = t + "@b"
		case 6:
			s = "a@" + t
		case 7:
			s = "a@[" + t + "]"
		case 8:
			s = `"` + t + `"@b`
		case 9:
			s = "x(" + t + ") <a@b>"
		case 10:
			s = t + ": a@b, c <d@e>;"
		}
		ins = append(ins, B(s))
	}
	return ins
}

func init() {
	register(&Prop{
		ID: "C02",
		Rule: "A case is a history of 3 to 9 parses of both kinds, valid and invalid, of inputs that look alike, some repeated, some with the earlier result overwritten, time.Local and the environment changed, the clock moved or CharsetReaders used, removed or panicking in between; " +
			"each outcome must be the one a fresh process gives for that input and CharsetReader alone, and results must not change later. many, many-dates: 1200 address and 7000 date parses (30000 and 150000 in the thorough tier) of old and new inputs with known results, in one process. respelled: many spellings of one date or mailbox one after the other, twice. bursts: up to some hundred parses of one kind, then another, for each kind of input. Trivial: all outcomes are errors.",
		Subs: []Sub{
			{Name: "history", Quick: 360, Thorough: 8000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{}
				ins, kinds := g.siblings(c)
				more, mk := g.siblings(c)
				ins, kinds = append(ins, more...), append(kinds, mk...)
				for n := g.rng(3, 9); n > 0; n-- {
					i := g.n(len(ins))
					op := g.weighted(45, 22, 10, 10, 8, 5)
					mode := crNil
					if kinds[i] == 2 || kinds[i] == 0 && g.pct(15) {
						mode = []int{crNil, crHex, crTag, crErr, crRead, crLazy}[g.n(6)]
					}
					if op >= opHook && kinds[i] == 1 {
						op = opZone
					}
					c.label([]string{"parse", "overwrite-result", "time.Local", "clock", "CharsetReader", "CharsetReader-panics"}[op])
					c.labelIf(mode != crNil, "with-CharsetReader")
					c.In = append(c.In, ins[i])
					c.Ints = append(c.Ints, kinds[i]&1, op, mode)
				}
				return c
			}, Check: checkHistory},
			{Name: "many-dates", Quick: 8, Thorough: 16, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				n := 7000
				if envTier == "thorough" {
					n = 150000
				}
				return &Case{Ints: []int{n, g.n(1 << 30), g.pick2(50, 3)}}
			}, Check: checkManyDates},
			{Name: "many", Quick: 8, Thorough: 16, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				n := 1200
				if envTier == "thorough" {
					n = 30000
				}
				return &Case{Ints: []int{n, g.n(1 << 30)}}
			}, Check: checkMany},
			{Name: "respelled", Quick: 32, Thorough: 480, Gen: func(t *rapid.T) *Case {
				// Many spellings of one date or mailbox, twice in different orders: a parser that remembers
				// something may hold some for the same though not all their meaning is.
				// Ints: whether it is a date; then the order.
				g := gen{t}
				c := &Case{Ints: []int{g.n(2)}}
				var all []string
				if c.Ints[0] == 1 {
					all = g.dateSpellings()
				} else {
					all = g.mailboxSpellings()
				}
				for len(c.In) < 14 && len(all) > 0 {
					i := g.n(len(all))
					c.In = append(c.In, B(all[i]))
					all = append(all[:i], all[i+1:]...)
				}
				for range c.In {
					c.Ints = append(c.Ints, g.n(len(c.In)))
				}
				return c
			}, Check: checkRespelled},
			{Name: "bursts", Quick: 40, Thorough: 600, Gen: func(t *rapid.T) *Case {
				// Many parses of one kind without any other in between, then another input, of each kind in turn.
				// Ints: how many of which kind, then for each input after them whether it is a date.
				g := gen{t}
				k := g.n(len(burstKinds))
				c := &Case{Ints: []int{20 + g.size(250), k}}
				c.label(burstKinds[k])
				for first, n := g.n(5), 0; n < 5; n++ {
					date := 0
					s := ""
					switch (first + n) % 5 {
					case 0:
						date = 1
						s, _ = g.wild(&Case{})
					case 1:
						s = quote(g.chars(150+g.size(300), g.bit())) + " <a@b>"
					case 2:
						s = g.anyAddressText(&Case{})
					case 3:
						s = g.encoded(5).raw + " <a@b>"
					case 4:
						s = clip(g.validAddresses(), 120)
					}
					c.In = append(c.In, B(s))
					c.Ints = append(c.Ints, date)
				}
				return c
			}, Check: checkBursts},
		},
	})

	register(&Prop{
		ID:     "C03",
		Race:   true,
		Procs:  4,
		Rounds: 3,
		Rule: "A case is 2 to 4 inputs of both kinds parsed by 2 to 4 goroutines at once, each in its own order, under the race detector, writing to their results (crowd: up to 40 goroutines); the outcomes must be the ones of parsing alone. overlap: parses run while another one waits for its CharsetReader. preempted, first-use: a parse is stopped before one of its statements and another one runs wholly or in part, the latter as the first thing a process does. " +
			"Processes are short-lived, so that many cases race with the first use. Trivial: all inputs are rejected.",
		Subs: []Sub{
			{Name: "concurrent", Quick: 240, Thorough: 3000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{Ints: []int{g.rng(2, 4), 1}}
				for n := g.rng(2, 4); n > 0; n-- {
					kind := 0
					var s string
					switch g.weighted(40, 35, 15, 10) {
					case 0:
						s = g.short()
					case 1:
						s, _ = g.wild(&Case{})
						kind = 1
					case 2:
						s = g.mutate(g.short())
					case 3:
						r, _ := g.encodedRaw(g.charset())
						s = r + " <a@b>"
						c.label("charset-reader")
					}
					c.In = append(c.In, B(s))
					c.Ints = append(c.Ints, kind)
				}
				return c
			}, Check: checkConcurrent},
			{Name: "overlap", Quick: 56, Thorough: 1600, Gen: func(t *rapid.T) *Case {
				// A schedule that can be forced: parses during the CharsetReader of another one.
				g := gen{t}
				c := &Case{Ints: []int{0}}
				var parts []string
				for n := g.rng(1, 2); n > 0; n-- {
					r, _ := g.encodedRaw(g.charset())
					if g.bit() {
						r = g.plain(2) + " " + r
					}
					parts = append(parts, r+" <"+g.plain(1)+"@b>")
				}
				s := strings.Join(parts, ",")
				if g.pct(30) {
					s = "G:" + s + ";"
				}
				c.In = []B{B(s)}
				for n := g.rng(1, 2); n > 0; n-- {
					kind := 0
					switch g.n(4) {
					case 0:
						s = g.short()
					case 1:
						s, _ = g.wild(&Case{})
						kind = 1
					case 2:
						s = g.mutate(g.short())
					case 3:
						r, _ := g.encodedRaw(g.charset())
						s = r + " <x@y>"
					}
					c.In = append(c.In, B(s))
					c.Ints = append(c.Ints, kind)
				}
				return c
			}, Check: checkOverlap},
			{Name: "crowd", Quick: 16, Thorough: 240, Gen: func(t *rapid.T) *Case {
				// More goroutines at once than any pool holds.
				g := gen{t}
				c := &Case{Ints: []int{g.rng(16, 40), 1}}
				for n := g.rng(1, 2); n > 0; n-- {
					if g.bit() {
						s, _ := g.simpleMailbox()
						c.In, c.Ints = append(c.In, B(s)), append(c.Ints, 0)
					} else {
						s := fmt.Sprintf("%d %s %d %02d:00 %s", g.rng(1, 28), monthText[g.n(12)], g.rng(1980, 2040), g.n(24), zoneText[g.n(len(zoneText))])
						c.In, c.Ints = append(c.In, B(s)), append(c.Ints, 1)
					}
				}
				return c
			}, Check: checkConcurrent},
		},
	})
	addYield()
}

// short is a short address list of many kinds; parsing under the race detector is very slow.
func (g gen) short() string {
	c := &Case{}
	switch g.n(8) {
	case 0:
		return addressSeeds[g.n(len(addressSeeds))]
	case 1:
		raw, _ := g.quoted()
		return raw + " <a@b>"
	case 2:
		return g.encoded(3).raw + " <a@b>"
	case 3:
		return "G:" + g.plain(1) + "@b;"
	case 4:
		raw, _ := g.literal()
		return "a@" + raw
	case 5:
		return "n." + g.plain(2) + " <" + g.route(opts{}) + "a@b>"
	case 6:
		return g.comment(1) + g.addrSpec(opts{}, c).raw
	}
	s, _ := g.simpleMailbox()
	return s
}

func checkHistory(c *Case) error {
	base := map[request]*Outcome{}
	c.Trivial = true
	step := func(i int) (request, int) {
		return request{c.Ints[3*i] == 1, c.In[i], c.Ints[3*i+2]}, c.Ints[3*i+1]
	}
	for i := range c.In {
		r, _ := step(i)
		if base[r] == nil {
			base[r] = fresh(r)
		}
		if base[r].OK {
			c.Trivial = false
		}
	}
	local := time.Local
	defer func() {
		time.Local = local
		rfc5322.CharsetReader = nil
		for _, k := range []string{"TZ", "LANG", "LC_ALL", "LC_TIME", "LANGUAGE"} {
			os.Unsetenv(k)
		}
	}()
	type kept struct {
		list []*mail.Address
		req  request
	}
	goroutines := 0
	steps := func() error {
		var results []kept
		for i, in := range c.In {
			r, op := step(i)
			switch op {
			case opZone:
				// What the process is told about its place does not count either.
				for k, v := range []string{"Asia/Kolkata", "de_DE.UTF-8", "ja_JP.SJIS", "C", ""} {
					os.Setenv([]string{"TZ", "LANG", "LC_ALL", "LC_TIME", "LANGUAGE"}[(k+i)%5], v)
				}
				time.Local = time.FixedZone("XYZ", []int{3600, -18000, 45900, -43200, 0}[i%5])
			case opLater:
				time.Sleep(time.Duration(i*i+1) * 8766 * time.Hour)
				runtime.GC()
				runtime.GC() // empties pools
			case opHook:
				var calls []crCall
				rfc5322.CharsetReader = crReader(crHex, &calls)
				parseA(string(in))
				parseA("=?koi8-r?q?abc?= <a@b>")
			case opPanic:
				rfc5322.CharsetReader = func(string, io.Reader) (io.Reader, error) { panic("a CharsetReader") }
				parseA(string(in))
				parseA("=?koi8-r?q?abc?= <a@b>")
			}
			var calls []crCall
			reader := crReader(r.Mode, &calls)
			rfc5322.CharsetReader = reader
			here := time.Local
			got := outcome(r.DateTime, string(in))
			if !got.same(base[r]) {
				return fmt.Errorf("step %d (CharsetReader mode %d): parsing %+q gives %v, in a fresh process %v", i, r.Mode, string(in), got, base[r])
			}
			if time.Local != here {
				return fmt.Errorf("step %d: parsing %+q changes time.Local", i, string(in))
			}
			if (rfc5322.CharsetReader == nil) != (reader == nil) {
				return fmt.Errorf("step %d: parsing %+q changes CharsetReader", i, string(in))
			}
			if r.DateTime {
				rfc5322.CharsetReader = nil
				continue
			}
			list, err := parseA(string(in))
			if op != opScribble {
				rfc5322.CharsetReader = nil
				if err == nil {
					results = append(results, kept{list, r})
				}
				continue
			}
			if err == nil {
				for _, a := range list {
					a.Name, a.Address = "overwritten", "over@written"
				}
				if cap(list) > len(list) {
					list = append(list, &mail.Address{Name: "appended", Address: "app@ended"})
				}
				clear(list)
			}
			if got := outcome(false, string(in)); !got.same(base[r]) {
				return fmt.Errorf("step %d: after overwriting its result, parsing %+q gives %v, in a fresh process %v", i, string(in), got, base[r])
			}
			rfc5322.CharsetReader = nil
		}
		// Results do not change under what happens later; nor when others are appended to.
		for _, k := range results {
			more := k.list
			for n := 0; n < 64 && cap(more) > len(more); n++ {
				more = append(more, &mail.Address{Name: "appended", Address: "app@ended"})
			}
		}
		for _, k := range results {
			as, err := addrs(k.list)
			if err != nil || !sameAddrs(as, base[k.req].Addrs) {
				return fmt.Errorf("the result of parsing %+q is changed by later calls, or by changing other results: %v %v, want %v", string(k.req.In), as, err, base[k.req].Addrs)
			}
		}
		return nil
	}
	goroutines = runtime.NumGoroutine()
	err := silent(func() (err error) {
		// In the bubble the clock stands at the start of 2000 and moves only when a step sleeps.
		synctest.Test(outerT, func(*testing.T) { err = steps() })
		return err
	})
	if err != nil {
		return err
	}
	for try := 0; ; try++ {
		if runtime.NumGoroutine() <= goroutines {
			return nil
		}
		if try == 200 {
			return fmt.Errorf("parsing %v leaves %d goroutines running", c.In, runtime.NumGoroutine()-goroutines)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// checkMany parses many inputs made from a seed, old and new ones, each with a known outcome: what
// a parser keeps for later may fill up.
func checkMany(c *Case) error {
	n, x := c.Ints[0], uint64(c.Ints[1])
	rnd := func(k int) int {
		x = x*6364136223846793005 + 1442695040888963407
		return int(x>>33) % k
	}
	made := 0
	for i := 0; i < n; i++ {
		k := made
		if made > 0 && rnd(3) > 0 {
			k = rnd(made)
		} else {
			made++
		}
		var err error
		switch k % 6 {
		case 0, 1:
			err = expectA(B(fmt.Sprintf("u%d@h%d", k, k%7)), []Addr{{"", B(fmt.Sprintf("u%d@h%d", k, k%7))}})
		case 2:
			err = expectA(B(fmt.Sprintf("n%d <u%d@h>", k, k)), []Addr{{B(fmt.Sprintf("n%d", k)), B(fmt.Sprintf("u%d@h", k))}})
		case 3:
			d := spec.Date{Year: 1950 + k%100, Month: 1 + k%12, Day: 1 + k/7%28, Hour: k % 24, Min: k % 60, Off: (k%25 - 12) * 3600}
			off := fmt.Sprintf("%+03d00", k%25-12)
			err = expectD(B(fmt.Sprintf("%d %s %04d %02d:%02d %s", d.Day, monthText[d.Month-1], d.Year, d.Hour, d.Min, off)), d)
		case 4:
			if _, e := parseA(fmt.Sprintf("u%d@@h", k)); e == nil || isPanic(e) {
				err = fmt.Errorf("ParseAddressList(\"u%d@@h\"): error %v", k, e)
			}
		case 5:
			err = expectA(B(fmt.Sprintf("=?utf-8?q?%x?= <u@h>", k+16)), []Addr{{B(fmt.Sprintf("%x", k+16)), "u@h"}})
		}
		if err != nil {
			return fmt.Errorf("after %d other parses: %v", i, err)
		}
	}
	return nil
}

var burstKinds = []string{"rejected", "rejected-by-lexer", "different-rejected", "rejected-dates", "one-valid", "different-valid", "one-date", "different-dates", "undecodable", "failing-reader", "panicking-reader", "empty", "not-utf8"}

func checkBursts(c *Case) error {
	var want []*Outcome
	for i, in := range c.In {
		want = append(want, fresh(request{c.Ints[2+i] == 1, in, crNil}))
		c.Trivial = c.Trivial || !want[i].OK
	}
	burst := func(i int) {
		switch burstKinds[c.Ints[1]] {
		case "rejected":
			parseA("@")
		case "rejected-by-lexer":
			parseA("\x00")
		case "different-rejected":
			parseA(fmt.Sprintf("%d@", i))
		case "rejected-dates":
			parseD("1 Jan")
		case "one-valid":
			parseA("a@b")
		case "different-valid":
			parseA(fmt.Sprintf("x%d@b", i))
		case "one-date":
			parseD("1 Jan 2000 12:00")
		case "different-dates":
			parseD(fmt.Sprintf("%d Feb 20%02d %d:%02d EST", 1+i%28, i/28%100, i%24, i%60))
		case "undecodable":
			parseA("=?x?q?x?= <a@b>")
		case "failing-reader":
			rfc5322.CharsetReader = crReader(crErr, new([]crCall))
			parseA("=?x?q?x?= <a@b>")
			rfc5322.CharsetReader = nil
		case "panicking-reader":
			rfc5322.CharsetReader = func(string, io.Reader) (io.Reader, error) { panic("a CharsetReader") }
			parseA("=?x?q?x?= <a@b>")
			rfc5322.CharsetReader = nil
		case "empty":
			parseA("")
			parseD("")
		case "not-utf8":
			parseA("\xff@\xfe")
		}
	}
	for i, in := range c.In {
		for k := 0; k < c.Ints[0]; k++ {
			burst(k)
		}
		if got := outcome(c.Ints[2+i] == 1, string(in)); !got.same(want[i]) {
			return fmt.Errorf("after %d parses (%s), parsing %+q gives %v, in a fresh process %v", c.Ints[0], burstKinds[c.Ints[1]], string(in), got, want[i])
		}
	}
	return nil
}

// checkManyDates is checkMany for dates, which are cheaper: one in the number Ints[2] is new.
func checkManyDates(c *Case) error {
	n, x := c.Ints[0], uint64(c.Ints[1])
	rnd := func(k int) int {
		x = x*6364136223846793005 + 1442695040888963407
		return int(x>>33) % k
	}
	made := 0
	for i := 0; i < n; i++ {
		k := made
		if made > 0 && rnd(c.Ints[2]) > 0 {
			k = rnd(made)
		} else {
			made++
		}
		z := k % (len(zoneText) + 3)
		d := spec.Date{Year: 1950 + k/336%100, Month: 1 + k%12, Day: 1 + k/12%28, Hour: k * 7 % 24, Min: k * 11 % 60, Sec: k * 13 % 60}
		zone := ""
		switch {
		case z < len(zoneText):
			zone = " " + zoneText[z]
			d.Off = spec.ZoneOffsets[strings.ToLower(zoneText[z])] * 3600
		case z > len(zoneText):
			h, m := k%24, k/24%60
			zone, d.Off = fmt.Sprintf(" +%02d%02d", h, m), h*3600+m*60
			if k%2 == 1 {
				zone, d.Off = strings.Replace(zone, "+", "-", 1), -d.Off
			}
		}
		in := fmt.Sprintf("%d %s %04d %02d:%02d:%02d%s", d.Day, monthText[d.Month-1], d.Year, d.Hour, d.Min, d.Sec, zone)
		if k%5 == 4 {
			if _, e := parseD(in + " X"); e == nil || isPanic(e) {
				return fmt.Errorf("after %d other parses: ParseDateTime(%+q): error %v", i, in+" X", e)
			}
		}
		if err := expectD(B(in), d); err != nil {
			return fmt.Errorf("after %d other parses: %v", i, err)
		}
	}
	return nil
}

// checkOverlap decides a case of a parse during which, whenever it waits for its CharsetReader, the
// other inputs are parsed by another goroutine. Ints: a kind for each input; the first one is the
// parse that waits.
func checkOverlap(c *Case) error {
	defer func() { rfc5322.CharsetReader = nil }()
	convert := func(charset string, in io.Reader) (io.Reader, error) {
		p, err := io.ReadAll(in)
		if err != nil {
			return nil, err
		}
		v, _ := crValue(crTag, charset, string(p))
		return strings.NewReader(v), nil
	}
	rfc5322.CharsetReader = convert
	var want []*Outcome
	for i, in := range c.In {
		want = append(want, outcome(c.Ints[i] == 1, string(in)))
	}
	c.Trivial = !want[0].OK
	var mu sync.Mutex
	depth, next := 0, 0
	var failed error
	other := func() {
		mu.Lock()
		if depth > 0 || len(c.In) == 1 { // only the first parse waits
			mu.Unlock()
			return
		}
		depth++
		i := 1 + next%(len(c.In)-1)
		next++
		mu.Unlock()
		done := make(chan struct{})
		go func() {
			defer close(done)
			if got := outcome(c.Ints[i] == 1, string(c.In[i])); !got.same(want[i]) {
				mu.Lock()
				failed = fmt.Errorf("parsing %+q while %+q waits for its CharsetReader gives %v, alone %v", string(c.In[i]), string(c.In[0]), got, want[i])
				mu.Unlock()
			}
		}()
		<-done
		mu.Lock()
		depth--
		mu.Unlock()
	}
	rfc5322.CharsetReader = func(charset string, in io.Reader) (io.Reader, error) {
		other()
		r, err := convert(charset, in)
		other()
		return r, err
	}
	got := outcome(false, string(c.In[0]))
	if failed != nil {
		return failed
	}
	if !got.same(want[0]) {
		return fmt.Errorf("parsing %+q, with %+q parsed while it waits for its CharsetReader, gives %v, alone %v", string(c.In[0]), c.In[1:], got, want[0])
	}
	return nil
}

func checkConcurrent(c *Case) error {
	workers, rounds := c.Ints[0], c.Ints[1]
	kinds := c.Ints[2:]
	rfc5322.CharsetReader = func(charset string, in io.Reader) (io.Reader, error) {
		p, err := io.ReadAll(in)
		if err != nil {
			return nil, err
		}
		v, _ := crValue(crHex, charset, string(p))
		return strings.NewReader(v), nil
	}
	got := make([][]*Outcome, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		got[w] = make([]*Outcome, len(c.In))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for r := 0; r < rounds; r++ {
				for k := range c.In {
					i := (k*(1+w%2) + w + r) % len(c.In)
					in := string(c.In[i])
					if kinds[i] == 1 {
						got[w][i] = outcome(true, in)
						continue
					}
					list, err := parseA(in)
					o := &Outcome{}
					if err != nil {
						o.Err = B(err.Error())
					} else {
						as, err := addrs(list)
						if err != nil {
							o.Err = B(err.Error())
						} else {
							o.OK, o.Addrs = true, as
						}
						// The result is this goroutine's own.
						for j, a := range list {
							if a != nil {
								a.Name += "!"
								a.Address += "!"
							}
							list[j] = nil
						}
					}
					got[w][i] = o
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Trivial = true
	for i, in := range c.In {
		want := outcome(kinds[i] == 1, string(in))
		if want.OK {
			c.Trivial = false
		}
		for w := range got {
			if o := got[w][i]; o != nil && !o.same(want) {
				return fmt.Errorf("parsing %+q in goroutine %d of %d gives %v, alone %v", string(in), w, workers, o, want)
			}
		}
	}
	return nil
}
