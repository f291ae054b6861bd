package props

import (
	"encoding/base64"
	"fmt"
	"net/mail"
	"strings"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
	"pgregory.net/rapid"
	"verifharness/spec"
)

// Large cases: what holds for a short text holds for one of any size. Sizes are spread evenly over
// the powers of two, so that every limit up to the largest size has cases on both sides.

// size picks a size from 8..max.
func (g gen) size(max int) int {
	top := 3
	for 2<<top <= max {
		top++
	}
	lo := 1 << g.rng(3, top)
	return g.rng(lo, min(2*lo-1, max))
}

// run gives n items joined by sep.
func (g gen) run(n int, sep string, item func() string) string {
	var parts []string
	for ; n > 0; n-- {
		parts = append(parts, item())
	}
	return strings.Join(parts, sep)
}

// chars gives n characters of atoms; "=?" does not come up.
func (g gen) chars(n int, wide bool) string {
	var b []rune
	for ; n > 0; n-- {
		if wide && g.pct(30) {
			b = append(b, g.wide())
		} else {
			b = append(b, g.runeOf(alnum))
		}
	}
	return string(b)
}

func (c *Case) sized(n int) {
	for k := 3; ; k++ {
		if n < 2<<k {
			c.label(fmt.Sprintf("size:%d-%d", 1<<k, 2<<k-1))
			return
		}
	}
}

// text is folding white space, or a comment, with about n characters.
func (g gen) longCFWS(n int) string {
	switch g.n(4) {
	case 0: // white space only, one line break at most
		k := g.n(n)
		s := strings.Repeat(g.pick(" ", "\t"), k)
		if g.bit() {
			s += "\r\n"
		}
		return s + strings.Repeat(g.pick(" ", "\t"), n-k)
	case 1: // many comments
		return g.run(n/4, g.pick("", " ", "\r\n "), func() string { return "(" + g.chars(g.n(3), false) + ")" })
	case 2: // deep ones
		k := n / 2
		return strings.Repeat("(", k) + g.pick("", "x", "\\)", ",") + strings.Repeat(")", k)
	}
	var b strings.Builder
	b.WriteString("(")
	for ; n > 0; n-- {
		switch g.n(8) {
		case 0:
			b.WriteString(" ")
		case 1:
			b.WriteString(g.pick("\\(", "\\)", "\\\\", "\\ "))
		default:
			b.WriteRune(g.runeOf(ctextASCII))
		}
	}
	return b.String() + ")"
}

// longQuoted is the inside of a quoted string of about n characters, and its value.
func (g gen) longQuoted(n int) (string, string) {
	var b, v strings.Builder
	mode := g.n(4)
	for i := 0; i < n; i++ {
		switch {
		case mode == 0 || mode == 1 && g.pct(70): // plain
			r := g.runeOf(qtextASCII)
			b.WriteRune(r)
			v.WriteRune(r)
		case mode == 2: // pairs
			r := g.runeOf([]rune("\"\\a ,"))
			b.WriteString("\\" + string(r))
			v.WriteRune(r)
		case mode == 1 || g.bit():
			s := g.pick(" ", "\t", "\r\n ", "\\\"")
			b.WriteString(s + "x")
			v.WriteString(strings.NewReplacer("\r\n", "", "\\\"", "\"").Replace(s) + "x")
		default:
			r := g.wide()
			b.WriteRune(r)
			v.WriteRune(r)
		}
	}
	return b.String(), v.String()
}

func init() {
	add("C04", Sub{Name: "large", Quick: 32, Thorough: 320, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		// Some of the mailboxes come again and again.
		n := g.size(240)
		c.sized(n)
		var parts []string
		var want []Addr
		again := g.n(2) * g.n(60)
		groups := g.bit()
		for len(want) < n {
			switch {
			case len(want) > 0 && g.pct(again):
				k := g.n(len(parts))
				if a, err := plainAddrs(parts[k]); err == nil {
					parts, want = append(parts, parts[k]), append(want, a...)
				}
			case groups && g.pct(4):
				m, as := g.group(opts{}, &Case{}, 2, true)
				parts, want = append(parts, m), append(want, as...)
			default:
				m, a := g.simpleMailbox()
				parts, want = append(parts, m), append(want, a)
			}
		}
		semicolons := g.pct(40)
		return g.list(parts, opts{}, semicolons, !semicolons && g.bit()), want
	})}, Sub{Name: "large-elements", Quick: 72, Thorough: 720, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		// Long mailboxes next to short ones, or many empty elements.
		n := g.size(400)
		c.sized(n)
		var parts []string
		var want []Addr
		for k := g.rng(2, 4); k > 0; k-- {
			if g.bit() {
				m, a := g.simpleMailbox()
				parts, want = append(parts, m), append(want, a)
				continue
			}
			l, d := g.chars(n/3+1, false), g.plain(2)
			parts, want = append(parts, l+"@"+d), append(want, Addr{"", B(l + "@" + d)})
		}
		if g.bit() {
			return strings.Repeat(",", g.n(n/4)) + strings.Join(parts, strings.Repeat(",", n/4+1)) + strings.Repeat(",", g.n(n/4)), want
		}
		return g.list(parts, opts{}, g.bit(), false), want
	})})

	add("C05", Sub{Name: "large", Quick: 40, Thorough: 400, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		n := g.size(28)
		c.sized(n)
		members := func(n int) (string, []Addr) {
			var parts []string
			var want []Addr
			for ; n > 0; n-- {
				m, a := g.simpleMailbox()
				parts, want = append(parts, m), append(want, a)
			}
			return g.list(parts, opts{}, false, g.pct(30)), want
		}
		switch g.n(3) {
		case 0: // many groups
			var parts []string
			var want []Addr
			for i := 0; i < n; i++ {
				s, as := members(g.n(2))
				parts, want = append(parts, g.plain(2)+":"+s+";"), append(want, as...)
			}
			return g.list(parts, opts{}, false, false), want
		case 1: // a long name
			s, want := members(g.rng(0, 3))
			return g.run(n, " ", func() string { return g.plain(6) }) + ":" + s + ";", want
		}
		s, want := members(n)
		return g.plain(3) + ":" + s + g.pick(";", ""), want
	})}, Sub{Name: "large-quoted", Quick: 24, Thorough: 240, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		n := g.size(16)
		c.sized(n)
		var want []Addr
		s := g.run(n, g.pick(",", ", "), func() string {
			m, a := g.simpleMailbox()
			want = append(want, a)
			return m
		})
		return "\"" + g.plain(3) + ":" + s + "\";", want
	})})

	add("C06", Sub{Name: "large", Quick: 56, Thorough: 560, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		// net/mail writes a long name as many encoded words or as one quoted string.
		n := g.size(500)
		c.sized(n)
		var name string
		switch g.n(4) {
		case 0:
			name = g.chars(n, true)
		case 1:
			name = g.run(n/4+1, " ", func() string { return g.chars(g.rng(1, 5), false) })
		case 2:
			name = g.run(n, "", func() string { return string(rune(g.rng(0x20, 0x7e))) })
		case 3:
			name = g.run(n/2+1, "", func() string { return string(rune(g.n(128))) + string(g.runeOf(alnum)) })
		}
		local := g.plain(3)
		if g.pct(30) {
			local = g.run(g.size(200), "", func() string { return string(rune(g.rng(0x20, 0x7e))) })
		}
		a := &mail.Address{Name: name, Address: local + "@" + g.plain(3)}
		return a.String(), []Addr{{B(a.Name), B(a.Address)}}
	})}, Sub{Name: "large-list", Quick: 16, Thorough: 160, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		n := g.size(60)
		c.sized(n)
		var want []Addr
		return g.run(n, ", ", func() string {
			a := &mail.Address{Name: g.anyText(4), Address: g.plain(2) + "@" + g.plain(2)}
			want = append(want, Addr{B(a.Name), B(a.Address)})
			return a.String()
		}), want
	})})

	add("C07", Sub{Name: "large", Quick: 64, Thorough: 640, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		n := g.size(300)
		c.sized(n)
		x := g.longCFWS(n)
		w, l, d := g.plain(2), g.plain(2), g.plain(2)
		a := l + "@" + d
		one := []Addr{{"", B(a)}}
		named := []Addr{{B(w), B(a)}}
		switch g.n(9) {
		case 0:
			return x + a, one
		case 1:
			return a + x, one
		case 2:
			return l + x + "@" + d, one
		case 3:
			return "<" + l + "@" + x + d + ">", one
		case 4:
			return w + x + "<" + a + ">", named
		case 5:
			return w + " <" + a + ">" + x, named
		case 6:
			return a + "," + x + a, append(one, one...)
		case 7:
			return w + ":" + x + a + x + ";", one
		}
		return w + x + d + " <" + a + ">", []Addr{{B(w + " " + d), B(a)}}
	})})

	add("C08", Sub{Name: "large", Quick: 144, Thorough: 1440, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		n := g.size(600)
		c.sized(n)
		q, v := g.longQuoted(n)
		w, d := g.plain(2), g.plain(2)
		switch g.n(4) {
		case 0:
			return "\"" + q + "\"@" + d, []Addr{{"", B(v + "@" + d)}}
		case 1:
			return w + " \"" + q + "\" <" + w + "@" + d + ">", []Addr{{B(w + " " + v), B(w + "@" + d)}}
		case 2:
			return "\"" + q + "\"." + w + "@" + d, []Addr{{"", B(v + "." + w + "@" + d)}}
		}
		return "\"" + q + "\" <" + w + "@" + d + ">", []Addr{{B(v), B(w + "@" + d)}}
	})})

	add("C09", Sub{Name: "large", Quick: 80, Thorough: 800, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		a := g.plain(2) + "@" + g.plain(2)
		if g.pct(40) {
			// Many encoded words, alone or with others among them.
			n := g.size(28)
			c.sized(n)
			var raw, v string
			others := g.n(2) * g.n(40)
			last := true
			for i := 0; i < n; i++ {
				enc := !g.pct(others)
				if i > 0 {
					raw += g.pick(" ", "\r\n ", "\t")
					if !(enc && last) {
						v += " "
					}
				}
				if enc {
					e := g.encoded(4)
					raw, v = raw+e.raw, v+e.value
				} else {
					w := g.plain(3)
					raw, v = raw+w, v+w
				}
				last = enc
			}
			// An empty text has no space next to it; texts here are never empty.
			return raw + " <" + a + ">", []Addr{{B(v), B(a)}}
		}
		// A long encoded word.
		n := g.size(500)
		c.sized(n)
		var p []byte
		var v string
		charset := g.pick("utf-8", "iso-8859-1", "us-ascii")
		for len(p) < n {
			switch {
			case charset == "utf-8" && g.pct(40):
				r := g.wide()
				p = append(p, string(r)...)
				v += string(r)
			case charset == "iso-8859-1" && g.pct(40):
				r := rune(g.rng(0xa0, 0xff))
				p = append(p, byte(r))
				v += string(r)
			default:
				r := g.pick("a", "b", "C", "9", " ", "\"", "=", "?", "_", "\r\n", ",")
				p = append(p, r...)
				v += r
			}
		}
		var raw string
		if g.pct(70) {
			raw = "=?" + charset + "?" + g.pick("b", "B") + "?" + base64.StdEncoding.EncodeToString(p) + "?="
		} else {
			p, v = p[:0], ""
			for i := n/2 + 1; i > 0; i-- {
				r := g.pick("a", "Z", "0", " ", "=", "~")
				p = append(p, r...)
				v += r
			}
			raw = g.encodeBytes(charset, p, true)
		}
		c.label(charset)
		return raw + " <" + a + ">", []Addr{{B(v), B(a)}}
	})})

	add("C10", Sub{Name: "large", Quick: 40, Thorough: 400, Gen: func(t *rapid.T) *Case {
		// A long word, or many words, in a custom charset. Strs: charset, then bytes and raw of the words.
		g := gen{t}
		c := &Case{Ints: []int{[]int{crHex, crTag, crBytes, crErr, crRead, crNil, crSome, crText}[g.n(8)]}}
		cs := g.charset()
		c.Strs = []B{B(strings.ToLower(cs))}
		var raws []string
		k := 1
		if g.bit() {
			k = g.size(16)
			c.label("words")
			c.sized(k)
		}
		for i := 0; i < k; i++ {
			n := g.rng(1, 4)
			if k == 1 {
				n = g.size(400)
				c.sized(n)
			}
			var p []byte
			for ; n > 0; n-- {
				p = append(p, byte(g.n(256)))
			}
			raw := "=?" + cs + "?b?" + base64.StdEncoding.EncodeToString(p) + "?="
			raws = append(raws, raw)
			c.Strs = append(c.Strs, B(p), B(raw))
		}
		c.In = []B{B(strings.Join(raws, g.pick(" ", "\t", "\r\n ")) + " <a@b>")}
		return c
	}, Check: func(c *Case) error {
		defer func() { rfc5322.CharsetReader = nil }()
		var calls []crCall
		rfc5322.CharsetReader = crReader(c.Ints[0], &calls)
		var name string
		for w := c.Strs[1:]; len(w) > 0; w = w[2:] {
			if v, ok := crValue(c.Ints[0], string(c.Strs[0]), string(w[0])); ok {
				name += v
			} else {
				name += string(w[1])
			}
		}
		return expectA(c.In[0], []Addr{{B(name), "a@b"}})
	}})

	add("C11", Sub{Name: "large", Quick: 200, Thorough: 2000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		n := g.size(500)
		c.sized(n)
		l, d := g.plain(2), g.plain(2)
		label := func() string { return g.chars(g.rng(1, 6), g.pct(20)) }
		route := ""
		switch k := g.n(8); k {
		case 0:
			l = g.chars(n, g.bit())
			c.label("local")
		case 1:
			l = g.run(n/4+1, ".", label)
			c.label("local-periods")
		case 2:
			d = g.chars(n, g.bit())
			c.label("label")
		case 3:
			d = g.run(n/4+1, ".", label)
			c.label("labels")
		case 4:
			d = "[" + g.run(n, "", func() string { return string(g.runeOf(dtextASCII)) }) + "]"
			c.label("literal")
		case 5:
			d += ":" + g.run(n, "", func() string { return string(rune('0' + g.n(10))) })
			c.label("port")
		case 6:
			route = "@" + g.run(n/6+1, ",@", label) + ":"
			c.label("route")
		case 7: // the limits SMTP has for local parts, labels and domains are not the parser's
			l, d = g.chars(g.rng(60, 70), false), g.chars(g.rng(60, 66), false)+"."+g.run(g.rng(1, 60), ".", label)
			c.label("smtp-limits")
		}
		a := l + "@" + d
		if route == "" && g.bit() {
			return a, []Addr{{"", B(a)}}
		}
		return "<" + route + a + ">", []Addr{{"", B(a)}}
	})})

	add("C12", Sub{Name: "large", Quick: 48, Thorough: 480, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
		var raw, v string
		if g.bit() { // many words
			n := g.size(64)
			c.sized(n)
			for i := 0; i < n; i++ {
				w := g.plain(3)
				q := w
				if g.pct(15) {
					q = "\"" + w + "\""
				}
				if i > 0 {
					raw += g.pick(" ", " ", "  ", "\t", "\r\n ", "(c)")
					v += " "
				}
				raw, v = raw+q, v+w
			}
		} else { // a long word, among others
			n := g.size(500)
			post := g.pick("", " y", ".", "@z", ". y")
			if strings.Contains(post, ".") {
				n = g.size(80) // the time is quadratic here
			}
			c.sized(n)
			raw = g.pick("", "x ") + g.chars(n, g.bit()) + post
			v = strings.ReplaceAll(raw, ". y", ".y")
		}
		a := g.plain(2) + "@" + g.plain(2)
		return raw + " <" + a + ">", []Addr{{B(v), B(a)}}
	})})

	large := func(g gen, c *Case) string {
		var s string
		n := g.size(250)
		switch g.n(4) {
		case 0:
			s = spec.Random(g.pick("addressList", "obsAddrList", "mailbox"), g.n, n)
		case 1:
			for len(s) < n {
				if s != "" {
					s += g.pick(",", ",", ";")
				}
				s += g.validAddresses()
			}
		case 2:
			m, _ := g.simpleMailbox()
			s = g.longCFWS(n) + m
		case 3:
			q, _ := g.longQuoted(n)
			s = "\"" + q + "\"" + g.pick("@b", " <a@b>", " x <a@b>", ".y@z")
		}
		if g.pct(60) {
			s = g.mutate(s)
			c.label("mutated")
		}
		s = clip(s, 250)
		c.sized(len(s))
		return s
	}
	gen1 := func(f func(g gen, c *Case) string) func(t *rapid.T) *Case {
		return func(t *rapid.T) *Case {
			c := &Case{}
			c.In = []B{B(f(gen{t}, c))}
			return c
		}
	}
	add("C13", Sub{Name: "large", Quick: 240, Thorough: 2400, Gen: gen1(large), Check: func(c *Case) error { return reading(c, true) }})
	add("C21", Sub{Name: "large", Quick: 240, Thorough: 2400, Gen: gen1(large), Check: func(c *Case) error { return reading(c, false) }})
	add("C01", Sub{Name: "large", Quick: 240, Thorough: 2400, Gen: gen1(func(g gen, c *Case) string {
		if g.pct(30) {
			n := g.size(300) // the time may be quadratic
			c.sized(n)
			var b strings.Builder
			for b.Len() < n {
				if g.bit() {
					b.WriteString(g.token())
				} else {
					b.WriteByte(byte(g.n(256)))
				}
			}
			return b.String()
		}
		return large(g, c)
	}), Check: checkTotalA},
		Sub{Name: "large-dates", Quick: 400, Thorough: 6000, Gen: gen1(func(g gen, c *Case) string {
			s := g.largeDate(c)
			if g.pct(70) {
				s = g.mutateD(s)
			}
			return s
		}), Check: checkTotalD})

	add("C14", Sub{Name: "large", Quick: 24, Thorough: 240, Gen: func(t *rapid.T) *Case {
		g := gen{t}
		n := g.size(40)
		c := &Case{}
		c.sized(n)
		s := g.run(n, g.pick(",", ", "), func() string { return string(genStrict(t).In[0]) })
		c.In = []B{B(clip(s, 500))}
		if i := strings.LastIndex(s[:len(c.In[0])], ", "); i > 0 && len(s) > len(c.In[0]) {
			c.In[0] = c.In[0][:i]
		}
		return c
	}, Check: Find("C14").Subs[0].Check})

	wildLarge := dated(func(g gen, c *Case) (string, spec.Date) {
		d := g.day(1950, 2049)
		d.Hour, d.Min = g.n(24), g.n(60)
		n := g.size(400)
		c.sized(n)
		p := []string{"", weekday(d) + ",", " ", fmt.Sprint(d.Day), " ", monthText[d.Month-1], " ", fmt.Sprintf("%04d", d.Year), " ", fmt.Sprintf("%02d", d.Hour), "", ":", "", fmt.Sprintf("%02d", d.Min), " ", "+0000", ""}
		i := []int{0, 2, 4, 10, 12, 16}[g.n(6)]
		if g.pct(30) { // white space only, where no comment may stand
			i = []int{6, 8, 14}[g.n(3)]
			p[i] = strings.Repeat(g.pick(" ", "\t"), n)
			if g.bit() {
				p[i] += "\r\n" + strings.Repeat(" ", g.rng(1, n))
			}
		} else {
			p[i] = g.longCFWS(n)
		}
		return strings.Join(p, ""), d
	})
	add("C17", Sub{Name: "large", Quick: 200, Thorough: 4000, Check: checkD, Gen: wildLarge})
	add("C18", Sub{Name: "large", Quick: 200, Thorough: 4000, Check: checkDateLanguage, Gen: gen1(func(g gen, c *Case) string {
		s := g.largeDate(c)
		if g.pct(70) {
			s = g.mutateD(s)
		}
		return s
	})})
}

func (g gen) largeDate(c *Case) string {
	n := g.size(300)
	c.sized(n)
	s, _ := g.wild(&Case{})
	i := strings.LastIndexAny(s, " ,:")
	if i < 0 || g.pct(30) {
		i = len(s)
	} else if g.bit() {
		i = max(0, strings.IndexAny(s, " ,:"))
	}
	return s[:i] + g.longCFWS(n) + s[i:]
}

// plainAddrs reads back what simpleMailbox wrote.
func plainAddrs(s string) ([]Addr, error) {
	if s == "<>" {
		return []Addr{{}}, nil
	}
	if strings.ContainsAny(s, ":;\"(") {
		return nil, fmt.Errorf("not a simple mailbox")
	}
	if i := strings.Index(s, " <"); i >= 0 {
		return []Addr{{B(s[:i]), B(strings.Trim(s[i+2:], "<>"))}}, nil
	}
	return []Addr{{"", B(s)}}, nil
}
