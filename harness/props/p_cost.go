package props

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// family is a way to grow an input.
type family struct {
	name string
	date bool
	unit func(g gen) (pre, rep, post string)
	// start is the smallest number of repetitions measured.
	start int
}

var families = []family{
	{"comment-text", false, func(g gen) (string, string, string) { return "(", g.plain(2), ") a@b" }, 16},
	{"comment-nesting", false, func(g gen) (string, string, string) { return "", "(", "" }, 16}, // closed below
	{"comments-before", false, func(g gen) (string, string, string) { return "", "(" + g.plain(1) + ")", "a@b" }, 6},
	{"comments-after", false, func(g gen) (string, string, string) { return "a@b", " (" + g.plain(1) + ")", "" }, 6},
	{"comments-in-name", false, func(g gen) (string, string, string) { return "n ", "(" + g.plain(1) + ")", "<a@b>" }, 6},
	{"words", false, func(g gen) (string, string, string) { return "", g.plain(2) + " ", "<a@b>" }, 8},
	{"atom", false, func(g gen) (string, string, string) { return "", g.plain(2), "@b" }, 16},
	{"dots", false, func(g gen) (string, string, string) { return "", g.plain(1) + ".", "a@b" }, 12},
	{"domain", false, func(g gen) (string, string, string) { return "a@b", "." + g.plain(1), "" }, 12},
	{"quoted-text", false, func(g gen) (string, string, string) { return "\"", g.plain(2), "\" <a@b>" }, 16},
	{"quoted-pairs", false, func(g gen) (string, string, string) { return "\"", "\\" + g.pick("\"", "\\", "a"), "\"@b" }, 12},
	{"quoted-folds", false, func(g gen) (string, string, string) { return "\"", g.pick(" x", "\r\n x"), "\" <a@b>" }, 8},
	{"quoted-strings", false, func(g gen) (string, string, string) { return "", "\"" + g.plain(1) + "\"", " <a@b>" }, 6},
	{"encoded-words", false, func(g gen) (string, string, string) { return "", "=?utf-8?q?" + g.plain(1) + "?= ", "<a@b>" }, 4},
	{"encoded-text", false, func(g gen) (string, string, string) { return "=?utf-8?q?", g.plain(2), "?= <a@b>" }, 12},
	{"list", false, func(g gen) (string, string, string) { return "a@b", g.pick(",", ";") + g.plain(1) + "@b", "" }, 6},
	{"named-list", false, func(g gen) (string, string, string) { return "a@b", ", " + g.plain(1) + " <a@b>", "" }, 5},
	{"commas", false, func(g gen) (string, string, string) { return "", ",", "a@b" }, 12},
	{"commas-after", false, func(g gen) (string, string, string) { return "a@b", ",", "" }, 12},
	{"group-members", false, func(g gen) (string, string, string) { return "A:a@b", ",c@d", ";" }, 3},
	{"groups", false, func(g gen) (string, string, string) { return "", g.plain(1) + ":;,", "a@b" }, 4},
	{"route", false, func(g gen) (string, string, string) { return "<@a", ",@" + g.plain(1), ":a@b>" }, 6},
	{"literal", false, func(g gen) (string, string, string) { return "a@[", g.plain(2), "]" }, 12},
	{"unspaced", false, func(g gen) (string, string, string) { return "n", g.pick(".", "@", ".x"), " <a@b>" }, 8},
	{"white-space", false, func(g gen) (string, string, string) { return "", g.pick(" ", "\t"), "a@b" }, 12},
	{"unclosed-comment", false, func(g gen) (string, string, string) { return "a@b ", "(" + g.plain(1), "" }, 8},
	{"unclosed-quote", false, func(g gen) (string, string, string) { return "\"", g.plain(1) + " ", "" }, 8},
	{"unclosed-angle", false, func(g gen) (string, string, string) { return "", "a <", "" }, 8},
	{"quoted-locals", false, func(g gen) (string, string, string) { return "", "\"" + g.plain(1) + "\".", "a@b" }, 5},
	{"word-locals", false, func(g gen) (string, string, string) { return "", g.plain(1) + "." + g.pick("\"q\".", " "), "a@b" }, 5},
	{"dots-in-name", false, func(g gen) (string, string, string) { return "", g.plain(1) + ". ", "<a@b>" }, 6},
	{"nested-groups", false, func(g gen) (string, string, string) { return "", g.plain(1) + ":", "a@b" }, 6},
	{"date-comments", true, func(g gen) (string, string, string) { return "1 Jan 2006 15:04 +0000 ", "(" + g.plain(1) + ")", "" }, 8},
	{"date-comment-text", true, func(g gen) (string, string, string) { return "1 Jan 2006 15:04 +0000 (", g.plain(2), ")" }, 16},
	{"date-white-space", true, func(g gen) (string, string, string) { return "1 Jan 2006", " ", "15:04" }, 16},
	{"date-comments-front", true, func(g gen) (string, string, string) { return "", "(" + g.plain(1) + ")", "1 Jan 2006 15:04" }, 8},
}

// work measures what a parse allocates and the processor time it takes, after one that warms the
// parser's caches.
func work(date bool, in string) (bytes, cpu float64) {
	run := func() {
		if date {
			parseD(in)
		} else {
			parseA(in)
		}
	}
	run()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	start := cpuTime()
	run()
	cpu = (cpuTime() - start).Seconds()
	runtime.ReadMemStats(&b)
	return float64(b.TotalAlloc - a.TotalAlloc), cpu
}

// Doubling the repeated part must not multiply the memory traffic by more than this, plus a
// constant. The steepest growth of the current parser is about 4 (quadratic).
const maxGrowth = 6

// The processor time, which is noisy, is allowed more: it counts only if it grows more steeply in
// three measurements of the same pair.
const maxGrowthCPU = 9

// costTokens are what units are made of, frames where they stand.
var costTokens = []string{"a", "\"q\"", "=?utf-8?q?w?=", ".", "@", "(c)", " ", ",", ";", "<", ">", ":", "[x]", "\\", "\""}

var frames = []string{"_@b", "a@_", "_<a@b>", "n <_a@b>", "g:_;", "a@b_", "<_:a@b>"}

func init() {
	p := &Prop{
		ID:    "C20",
		Limit: 60 * time.Second,
		Rule:  "A case grows an input three times by doubling a repeated part (one of the listed families with generated units) and measures what the parse allocates. Every case is non-trivial.",
	}
	for _, f := range families {
		p.Subs = append(p.Subs, Sub{Name: f.name, Quick: 8, Thorough: 96, Check: checkGrowth, Gen: func(t *rapid.T) *Case {
			g := gen{t}
			pre, rep, post := f.unit(g)
			c := &Case{Strs: []B{B(pre), B(rep), B(post)}}
			n := f.start + g.n(f.start/2+1)
			date := 0
			if f.date {
				date = 1
			}
			c.Ints = []int{date, n}
			for i := 0; i <= 3; i++ {
				s := pre + strings.Repeat(rep, n<<i) + post
				if f.name == "comment-nesting" {
					s = strings.Repeat("(", n<<i) + strings.Repeat(")", n<<i) + "a@b"
				}
				c.In = append(c.In, B(s))
			}
			return c
		}})
	}
	p.Subs = append(p.Subs,
		Sub{Name: "places", Check: checkGrowth, Item: items(func(add func(c *Case)) {
			// Comments and white space of several shapes in every place that may hold some.
			for _, place := range cfwsPlaces {
				date := 0
				if strings.Contains(place, "Jan") {
					date = 1
				}
				pre, post, _ := strings.Cut(place, "_")
				for _, shape := range [][3]string{
					{"", "(x)", ""}, {"(", "x", ")"}, {"(x ", "", ")"}, {" ", "", ""}, {"(a\\)\r\n ", "", ""}, {"(x(y)z", "", ")"},
				} {
					c := &Case{Ints: []int{date, 6}, Strs: []B{B(pre), B(shape[0] + shape[1] + shape[2]), B(post)}}
					most := 24
					if shape[2] != "" { // nested
						most = 48
					}
					for n := 6; n <= most; n *= 2 {
						m := strings.Repeat(shape[0], n) + shape[1] + strings.Repeat(shape[2], n)
						if shape[0] == "" {
							m = strings.Repeat(shape[1], n)
						}
						c.In = append(c.In, B(pre+m+post))
					}
					add(c)
				}
			}
		})},
		Sub{Name: "units", Check: checkGrowth, Item: items(func(add func(c *Case)) {
			// Every unit of one or two tokens, repeated, in every frame.
			tokens := costTokens
			for _, a := range tokens[:12] {
				for _, b := range tokens[:12] {
					for _, d := range tokens[:12] {
						if a != b && b != d {
							tripled(add, a+b+d)
						}
					}
				}
			}
			for _, frame := range frames {
				pre, post, _ := strings.Cut(frame, "_")
				for _, a := range tokens {
					for _, b := range append([]string{""}, tokens...) {
						if a == b {
							continue
						}
						c := &Case{Ints: []int{0, 4}, Strs: []B{B(pre), B(a + b), B(post)}}
						for n := 4; n <= 64; n *= 2 {
							c.In = append(c.In, B(pre+strings.Repeat(a+b, n)+post))
						}
						add(c)
					}
				}
			}
		})},
		Sub{Name: "tails", Check: checkGrowth, Item: items(func(add func(c *Case)) {
			// A repeated part and then something else: what goes forward may look ahead for it.
			grow := func(pre, rep, post string, from, to int) {
				c := &Case{Ints: []int{0, from}, Strs: []B{B(pre), B(rep), B(post)}}
				for n := from; n <= to; n *= 2 {
					c.In = append(c.In, B(pre+strings.Repeat(rep, n)+post))
				}
				add(c)
			}
			for _, frame := range frames {
				pre, post, _ := strings.Cut(frame, "_")
				for _, a := range costTokens {
					for _, tail := range costTokens {
						if a != tail {
							grow(pre, a, tail+post, 12, 48)
						}
					}
				}
			}
			elements := []string{"a@b", "n <a@b>", "", "g:;", "g:a@b;", "<>", "n <@r:a@b>", "\"q\"@b"}
			for _, frame := range []string{"_", "g:_;"} {
				pre, post, _ := strings.Cut(frame, "_")
				for _, a := range elements {
					for _, b := range append([]string{"-"}, elements...) {
						rep := a + ","
						if b != "-" {
							rep += b + ","
						}
						if a == b || len(pre) > 0 && strings.Contains(rep, ":;") {
							continue
						}
						for _, tail := range []string{"", ",", "x <", "n <c@d>"} {
							to := 32
							if b != "-" {
								to = 16
							}
							grow(pre, rep, tail+post, 8, to)
						}
					}
				}
			}
		})},
		Sub{Name: "pumped", Choose: 3, Quick: 480, Thorough: 8000, Check: checkGrowth, Gen: func(t *rapid.T) *Case {
			// Any part of any input, valid or not, repeated, with nesting now and then.
			g := gen{t}
			var s string
			date := g.n(4) / 3
			c := &Case{Ints: []int{date, 4}}
			switch {
			case date == 1:
				s, _ = g.wild(&Case{})
				if g.bit() {
					s = g.mutateD(s)
				}
			case g.pct(20):
				s = g.soup(8)
			default:
				s = g.validAddresses()
				if g.bit() {
					s = g.mutate(s)
				}
			}
			r := []rune(clip(s, 40))
			i := g.n(len(r) + 1)
			j := min(len(r), i+g.rng(1, 4))
			open, shut := string(r[i:j]), ""
			switch {
			case g.pct(25) || open == "":
				open, j = g.token(), i
				if date == 1 {
					open = dateTokens[g.n(len(dateTokens))]
				}
				c.label("token")
			case g.pct(25):
				open, shut = g.pick("(", "(x", "(\\(", "<", "[", "\"", "a:", "("), ""
				switch open[0] {
				case '(':
					shut = ")"
				case '<':
					shut = ">"
				case '[':
					shut = "]"
				case '"':
					shut = "\""
				default:
					shut = ";"
				}
				c.label("nesting")
			default:
				c.label("span")
			}
			pre, mid, post := string(r[:i]), "", string(r[j:])
			if shut != "" {
				mid = string(r[i:j])
			}
			c.Strs = []B{B(pre), B(open + shut), B(post)}
			for n := 4; n <= 64; n *= 2 {
				s := pre + strings.Repeat(open, n) + mid + strings.Repeat(shut, n) + post
				if len(s) > 400 {
					break
				}
				c.In = append(c.In, B(s))
			}
			return c
		}})
	register(p)
}

func tripled(add func(c *Case), unit string) {
	for _, post := range []string{"@b", "<a@b>"} {
		c := &Case{Ints: []int{0, 3}, Strs: []B{"", B(unit), B(post)}}
		for n := 3; n <= 24; n *= 2 {
			c.In = append(c.In, B(strings.Repeat(unit, n)+post))
		}
		add(c)
	}
}

// cfwsPlaces are inputs with a place for comments and white space.
var cfwsPlaces = []string{
	"_a@b", "a_@b", "a@_b", "a@b_", "a_.b@c", "a._b@c", "_n <a@b>", "n_<a@b>", "n _m <a@b>", "n <_a@b>", "n <a_@b>", "n <a@_b>", "n <a@b_>", "n <a@b>_",
	"\"q\"_<a@b>", "\"q\"_@b", "\"q\"_.\"r\"@b", "=?utf-8?q?w?=_<a@b>", "=?utf-8?q?w?=_=?utf-8?q?v?= <a@b>", "n._m <a@b>", "n@_m <a@b>", "<@_r:a@b>", "<_@r:a@b>", "<@r,_@s:a@b>",
	"<@r:_a@b>", "_<>", "<>_", "_G:a@b;", "G_:a@b;", "G:_;", "G:_,a@b;", "G:a@b_;", "G:a@b;_", "_,a@b", "a@b,_,c@d", "a@b,_", "a@b;_c@d", "a@_[1.2.3.4]", "a@[1.2.3.4]_", "a@b:25_",
	"_Mon, 1 Jan 2006 15:04 +0000", "Mon_, 1 Jan 2006 15:04 +0000", "Mon,_1 Jan 2006 15:04 +0000", "1_Jan 2006 15:04 +0000", "1 Jan 2006_15:04 +0000", "1 Jan_06 15:04 GMT", "1 Jan 06_15:04 GMT",
	"1 Jan 2006 15_:04 +0000", "1 Jan 2006 15:_04 +0000", "1 Jan 2006 15:04_:05 +0000", "1 Jan 2006 15:04_+0000", "1 Jan 2006 15:04 +0000_", "1 Jan 2006 15:04_GMT",
	"1 Jan 2006 15:04_", "1 Jan 2006 15:04:05_", "1 Jan 06 15:04 GMT_", "_1 Jan 2006 15:04",
}

func checkGrowth(c *Case) error {
	date := c.Ints[0] == 1
	var used, cpu []float64
	for i, in := range c.In {
		b, t := work(date, string(in))
		used, cpu = append(used, b), append(cpu, t)
		if i == 0 {
			continue
		}
		big, small := string(c.In[i]), string(c.In[i-1])
		if used[i] > used[i-1]*maxGrowth+(4<<20) {
			return fmt.Errorf("parsing %+q with the repeated part %+q %d times allocates %.0f bytes, with %d times %.0f",
				clip(big, 60), string(c.Strs[1]), c.Ints[1]<<i, used[i], c.Ints[1]<<(i-1), used[i-1])
		}
		steep := func(t1, t0 float64) bool { return t1 > t0*maxGrowthCPU+0.5 }
		for n := 0; steep(cpu[i], cpu[i-1]); n++ {
			if n == 3 {
				return fmt.Errorf("parsing %+q with the repeated part %+q %d times takes %.1f s of processor time, with %d times %.1f s",
					clip(big, 60), string(c.Strs[1]), c.Ints[1]<<i, cpu[i], c.Ints[1]<<(i-1), cpu[i-1])
			}
			_, cpu[i-1] = work(date, small)
			_, cpu[i] = work(date, big)
		}
		if t > 3 { // the next one could take very long without any steep growth
			break
		}
	}
	return nil
}
