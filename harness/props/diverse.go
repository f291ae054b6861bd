package props

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verifharness/spec"
)

// Deciding a case costs far more than generating one, so of several generated cases the one is
// decided that brings the most combinations of two features which no case had before, for its size.
// That is combinatorial coverage of the input space: a change that needs two unusual things at once is
// met much earlier. Features are taken from the input and its derivation by the reference grammar;
// nothing is run for them. Every fourth case is as it comes, and so are all after a shard's first 1500.

// diverse chooses seeds for rapid.
type diverse struct {
	gen  *rapid.Generator[*Case]
	k    int
	seen []uint8
	feat map[uint64]bool
	list []uint64
}

func newDiverse(s *Sub) *diverse {
	return &diverse{
		gen:  rapid.Custom(func(t *rapid.T) *Case { return s.Gen(t) }),
		k:    s.candidates(),
		seen: make([]uint8, 1<<22),
		feat: map[uint64]bool{},
	}
}

// candidates is the number of cases one is chosen from.
func (s *Sub) candidates() int {
	switch {
	case s.Choose != 0:
		return s.Choose
	case strings.HasPrefix(s.Name, "large"):
		return 4
	}
	return 12
}

// pick gives the seed of the i-th case.
func (d *diverse) pick(seed uint64, i int) uint64 {
	at := func(j int) uint64 { return mix(seed, uint64(i), uint64(j))>>1 | 1 }
	if i%4 == 3 || i >= 1500 || d.k <= 1 {
		return at(0)
	}
	best, score := 0, -1.0
	var chosen []uint64
	for j := 0; j < d.k; j++ {
		c := d.example(at(j))
		if c == nil {
			continue
		}
		size := 40
		for _, in := range c.In {
			size += len(in)
		}
		f := d.features(c)
		var s float64
		d.pairs(f, func(h uint32) {
			switch d.seen[h] {
			case 0:
				s++
			case 1:
				s += 0.1
			}
		})
		if s /= float64(size); s > score {
			best, score, chosen = j, s, append(chosen[:0], f...)
		}
	}
	d.pairs(chosen, func(h uint32) {
		if d.seen[h] < 255 {
			d.seen[h]++
		}
	})
	return at(best)
}

// example is nil if the generator gives up.
func (d *diverse) example(seed uint64) (c *Case) {
	defer func() {
		if recover() != nil {
			c = nil
		}
	}()
	return d.gen.Example(int(seed))
}

func (d *diverse) pairs(f []uint64, each func(h uint32)) {
	for i, a := range f {
		for _, b := range f[i:] {
			lo, hi := a, b
			if lo > hi {
				lo, hi = hi, lo
			}
			each(uint32((lo*0x9e3779b97f4a7c15+hi)*0xbf58476d1ce4e5b9>>42) & (1<<22 - 1))
		}
	}
}

// features are hashes of what a case has; at most 150.
func (d *diverse) features(c *Case) []uint64 {
	clear(d.feat)
	d.list = d.list[:0]
	add := func(parts ...string) {
		h := uint64(14695981039346656037)
		for _, p := range parts {
			for i := 0; i < len(p); i++ {
				h = (h ^ uint64(p[i])) * 1099511628211
			}
			h = (h ^ 255) * 1099511628211
		}
		h = mix(h)
		if !d.feat[h] && len(d.list) < 150 {
			d.feat[h] = true
			d.list = append(d.list, h)
		}
	}
	for _, l := range c.Labels {
		add("label", l)
	}
	for i, v := range c.Ints {
		if i < 8 {
			add("int", strconv.Itoa(i), bucket(v))
		}
	}
	for i, in := range c.In {
		if i >= 6 || len(in) > 600 {
			break
		}
		s := string(in)
		tree, rule := (*spec.Tree)(nil), ""
		if utf8.ValidString(s) {
			rule = "addressList"
			if !strings.Contains(s, "@") && strings.Contains(s, ":") && strings.ContainsAny(s, "0123456789") {
				rule = "dateTime"
			}
			tree, _ = spec.DeriveWithin(rule, s, 60_000)
		}
		if tree == nil {
			last := ""
			for _, r := range s {
				k := class(r)
				add("text", k)
				if k != last {
					add("text", last, k)
				}
				last = k
			}
			continue
		}
		runes := []rune(s)
		before := map[string]bool{}
		walkTree(tree, nil, func(t, p *spec.Tree) {
			switch t.Rule {
			case rule, "atext", "vchar", "wsp", "qtext", "quotedChar", "ctext", "dtext", "tokenChar", "encodedChar", "alpha", "crlf":
				return
			}
			text := runes[t.Start:t.End]
			up := ""
			if p != nil {
				up = p.Rule
			}
			first, end := "", ""
			if len(text) > 0 {
				first, end = class(text[0]), class(text[len(text)-1])
			}
			add("node", up, t.Rule)
			add("size", t.Rule, bucket(len(text)))
			add("ends", t.Rule, first, end)
			kids := ""
			for i, k := range t.Kids {
				if i < 5 {
					kids += k.Rule + " "
				}
			}
			add("kids", t.Rule, kids, bucket(len(t.Kids)))
			switch t.Rule {
			case "atom", "quotedString", "encodedWord", "comment", "domainLiteral", "dotAtom", "port", "zone", "year", "day", "hour", "minute", "second", "month", "dayName", "displayName", "unspaced":
				for i, r := range text {
					if i < 40 {
						add("in", t.Rule, class(r))
					}
				}
				fallthrough
			case "addrSpec", "localPart", "domain", "mailbox", "group", "nameAddr":
				key := t.Rule + " " + strings.ToLower(strings.TrimSpace(string(text)))
				if before[key] {
					add("again", t.Rule)
				}
				before[key] = true
			}
		})
	}
	return d.list
}

func walkTree(t, p *spec.Tree, f func(t, p *spec.Tree)) {
	f(t, p)
	for _, k := range t.Kids {
		walkTree(k, t, f)
	}
}

// class is what matters of a character: letters and digits are alike.
func class(r rune) string {
	switch {
	case r >= 'a' && r <= 'z':
		return "a"
	case r >= 'A' && r <= 'Z':
		return "A"
	case r >= '1' && r <= '9':
		return "1"
	case r < 128:
		return string(r)
	case unicode.IsSpace(r):
		return "wide space"
	case unicode.IsLetter(r):
		return "wide letter" + strconv.Itoa(utf8.RuneLen(r))
	}
	return "wide" + strconv.Itoa(utf8.RuneLen(r))
}

func bucket(n int) string {
	switch {
	case n < 0:
		return "-" + bucket(-n)
	case n < 5:
		return strconv.Itoa(n)
	}
	b := 0
	for ; n > 1; n /= 2 {
		b++
	}
	return "2^" + strconv.Itoa(b)
}
