package props

import (
	"fmt"
	"net/mail"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// checkA decides a case which has one input and the mailboxes it stands for.
func checkA(c *Case) error { return expectA(c.In[0], c.Addrs) }

// constructed makes a generator of a case with one input built together with its meaning.
func constructed(f func(g gen, c *Case) (string, []Addr)) func(t *rapid.T) *Case {
	return func(t *rapid.T) *Case {
		c := &Case{}
		s, list := f(gen{t}, c)
		c.In, c.Addrs = []B{B(s)}, list
		if c.Addrs == nil {
			c.Addrs = []Addr{}
		}
		return c
	}
}

// listSep joins addresses into a list. Empty elements, which stand for nothing, appear only in
// lists separated by commas.
func (g gen) list(parts []string, o opts, semicolons, empties bool) string {
	var s string
	for i, p := range parts {
		switch {
		case i == 0:
			if empties {
				for n := g.geo(0, 2, 35); n > 0; n-- {
					s += g.at(o) + ","
				}
			}
		case semicolons && g.bit():
			s += ";"
		default:
			s += ","
			if empties {
				for n := g.geo(0, 2, 35); n > 0; n-- {
					s += g.at(o) + ","
				}
			}
		}
		if s != "" && !spaced(p) && g.bit() {
			s += " "
		}
		s += p
	}
	if empties {
		for n := g.geo(0, 2, 30); n > 0; n-- {
			s += "," + g.at(o)
		}
	}
	return s
}

func init() {
	register(&Prop{
		ID: "C04",
		Rule: "A case is a list of 2 to 6 addresses (now and then 20 to 50), mailboxes and groups, each built together with its meaning and joined by " +
			"commas or semicolons, with empty elements between commas. Every case is non-trivial.",
		Subs: []Sub{
			{Name: "list", Quick: 1440, Thorough: 14000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				o := opts{cfws: g.n(2) * g.n(30)}
				semicolons := g.pct(40)
				empties := !semicolons && g.pct(50)
				c.labelIf(semicolons, "semicolons")
				c.labelIf(empties, "empty-elements")
				var parts []string
				var want []Addr
				n := g.rng(2, 6)
				for i := 0; i < n; i++ {
					switch g.weighted(60, 25, 15) {
					case 0:
						m, a := g.simpleMailbox()
						parts, want = append(parts, m), append(want, a)
					case 1:
						m, a := g.mailbox(o, c)
						parts, want = append(parts, m), append(want, a)
					case 2:
						// In a list separated by semicolons a group's own one may be left out;
						// between commas what follows it would be a member, with the same result.
						m, as := g.group(opts{}, c, 3, g.pct(75))
						parts, want = append(parts, m), append(want, as...)
						c.label("group")
					}
				}
				return g.list(parts, o, semicolons, empties), want
			})},
			{Name: "long-list", Quick: 104, Thorough: 2000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				semicolons := g.bit()
				var parts []string
				var want []Addr
				n := g.rng(20, 50)
				for i := 0; i < n; i++ {
					m, a := g.simpleMailbox()
					parts, want = append(parts, m), append(want, a)
				}
				return g.list(parts, opts{}, semicolons, !semicolons && g.bit()), want
			})},
			{Name: "duplicates", Quick: 1000, Thorough: 8000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// The same mailbox several times stays several mailboxes, in place.
				m1, a1 := g.simpleMailbox()
				m2, a2 := g.simpleMailbox()
				if g.bit() && a1.Address != "" { // differ in the name only
					m2, a2 = g.plain(2)+" <"+string(a1.Address)+">", Addr{}
					a2 = Addr{B(m2[:strings.IndexByte(m2, ' ')]), a1.Address}
				}
				if g.pct(30) { // differ in case only
					m2, a2 = strings.ToUpper(m1), Addr{B(strings.ToUpper(string(a1.Name))), B(strings.ToUpper(string(a1.Address)))}
				}
				var parts []string
				var want []Addr
				for n := g.rng(2, 5); n > 0; n-- {
					if g.bit() {
						parts, want = append(parts, m1), append(want, a1)
					} else {
						parts, want = append(parts, m2), append(want, a2)
					}
				}
				// Some of them in a group, which may hold empty elements.
				if len(parts) <= 4 && g.pct(35) {
					i := g.n(len(parts))
					j := i + 1 + g.n(len(parts)-i)
					member := g.plain(2) + ":" + g.list(parts[i:j], opts{}, false, g.bit()) + ";"
					parts = append(append(append([]string{}, parts[:i]...), member), parts[j:]...)
					c.label("in-group")
				}
				semicolons := g.pct(30)
				return g.list(parts, opts{}, semicolons, !semicolons && g.pct(40)), want
			})},
			{Name: "metamorphic", Quick: 400, Thorough: 4000, Gen: func(t *rapid.T) *Case {
				// Mailboxes with any decoration, parsed alone and together.
				g := gen{t}
				c := &Case{}
				o := opts{cfws: g.n(40)}
				var parts []string
				for n := g.rng(2, 3); n > 0; n-- {
					m, _ := g.mailbox(o, c)
					parts = append(parts, m)
					c.In = append(c.In, B(m))
				}
				c.In = append(c.In, B(g.list(parts, opts{}, g.bit(), false)))
				return c
			}, Check: func(c *Case) error {
				want := []Addr{}
				n := len(c.In) - 1
				for _, in := range c.In[:n] {
					a, err := mustA(in)
					if err != nil {
						return err
					}
					if len(a) != 1 {
						return fmt.Errorf("ParseAddressList(%+q) gives %d mailboxes, want 1", string(in), len(a))
					}
					want = append(want, a...)
				}
				return expectA(c.In[n], want)
			}},
		},
	})

	register(&Prop{
		ID: "C05",
		Rule: "A case is an address list with at least one group, built together with its members in order: names of all kinds, 0 to 5 members, " +
			"with or without the final semicolon, alone or among other addresses, empty elements, or the whole group in quotes. Every case is non-trivial.",
		Subs: []Sub{
			{Name: "group", Quick: 800, Thorough: 8000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				o := opts{cfws: g.n(2) * g.n(35)}
				semicolon := g.pct(65)
				c.labelIf(!semicolon, "no-semicolon")
				return g.group(o, c, 4, semicolon)
			})},
			{Name: "among-others", Quick: 400, Thorough: 4000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				var parts []string
				var want []Addr
				n := g.rng(2, 5)
				at := g.n(n)
				for i := 0; i < n; i++ {
					if i == at || g.pct(35) {
						m, as := g.group(opts{}, c, 3, g.pct(80))
						parts, want = append(parts, m), append(want, as...)
					} else {
						m, a := g.simpleMailbox()
						parts, want = append(parts, m), append(want, a)
					}
				}
				return g.list(parts, opts{cfws: 20}, g.pct(40), false), want
			})},
			{Name: "quoted-group", Quick: 800, Thorough: 8000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// The whole group in quotes, as some senders write it; no quotes inside.
				s := "\"" + g.plain(5)
				for n := g.n(2); n > 0; n-- {
					s += " " + g.plain(4)
				}
				s += ":"
				var want []Addr
				for i, n := 0, g.rng(0, 3); i < n; i++ {
					if i > 0 {
						s += ","
					}
					if g.bit() {
						s += " "
					}
					m, a := g.simpleMailbox()
					s += m
					want = append(want, a)
				}
				if g.pct(80) {
					s += "\""
				} else {
					c.label("opening-quote-only")
				}
				if g.bit() {
					s += ";"
				}
				if g.pct(30) && strings.HasSuffix(strings.TrimSuffix(s, ";"), "\"") {
					m, a := g.plain(3)+"@"+g.plain(3), Addr{}
					a.Address = B(m)
					s += g.pick(", ", ",", ";", "; ") + m
					want = append(want, a)
					c.label("then-mailbox")
				}
				return s, want
			})},
			{Name: "empties", Quick: 800, Thorough: 8000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// Empty elements among the members, or nothing but empty elements.
				o := opts{cfws: 25}
				s := g.plain(5) + ":"
				var want []Addr
				if g.pct(40) {
					for n := g.rng(1, 3); n > 0; n-- {
						s += g.at(o) + ","
					}
					s += g.at(o)
					c.label("only-commas")
				} else {
					var parts []string
					for n := g.rng(1, 4); n > 0; n-- {
						m, a := g.simpleMailbox()
						if len(want) > 0 && g.pct(25) { // the same member again
							k := g.n(len(want))
							m, a = parts[k], want[k]
							c.label("repeated")
						}
						parts, want = append(parts, m), append(want, a)
					}
					s += g.list(parts, o, false, true)
				}
				return s + ";", want
			})},
			{Name: "quoted-name-is-not-a-group", Quick: 400, Thorough: 4000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// A quoted display name may look like a group.
				q := g.plain(3) + ": " + g.plain(3) + "@" + g.plain(2) + g.pick("", ";", ", x@y")
				a := g.plain(3) + "@" + g.plain(3)
				return "\"" + q + "\" <" + a + ">", []Addr{{B(q), B(a)}}
			})},
		},
	})

	register(&Prop{
		ID: "C06",
		Rule: "round-trip: a list of 1 to 4 mailboxes with arbitrary UTF-8 names and local parts is written with net/mail's Address.String and parsed. " +
			"fixpoint: an accepted input of any shape is parsed, written and parsed again. Trivial: an ASCII-alphanumeric name and local part, or (fixpoint) an input " +
			"that is rejected or whose result net/mail cannot write.",
		Subs: []Sub{
			{Name: "round-trip", Quick: 3200, Thorough: 30000, Gen: genRoundTrip, Check: checkA},
			{Name: "fixpoint", Quick: 1600, Thorough: 15000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{}
				var s string
				if g.pct(60) {
					s, _ = g.mailbox(opts{cfws: g.n(30)}, c)
				} else {
					s, _ = g.group(opts{}, c, 3, true)
				}
				if g.pct(15) {
					s = g.mutate(s)
				}
				c.In = []B{B(s)}
				return c
			}, Check: func(c *Case) error {
				list, err := parseA(string(c.In[0]))
				if isPanic(err) {
					return err
				}
				ws := writable(list)
				c.Trivial = len(ws) == 0
				for _, a := range ws {
					if err := expectA(B(a.String()), []Addr{{B(a.Name), B(a.Address)}}); err != nil {
						return fmt.Errorf("mailbox %+q of %+q, written by net/mail: %v", a, string(c.In[0]), err)
					}
				}
				return nil
			}},
		},
	})

	register(&Prop{
		ID: "C07",
		Rule: "A case is a mailbox, group or list with comments and folding white space at a large share of the places the grammar has CFWS, " +
			"built together with what it stands for without them. Trivial: no comment and no line break came up.",
		Subs: []Sub{
			{Name: "mailbox", Quick: 2000, Thorough: 18000, Check: checkA, Gen: decorated(func(g gen, c *Case, o opts) (string, []Addr) {
				s, a := g.mailbox(o, c)
				return s, []Addr{a}
			})},
			{Name: "simple", Quick: 2400, Thorough: 22000, Check: checkA, Gen: decorated(func(g gen, c *Case, o opts) (string, []Addr) {
				// Everyday addresses, heavily decorated.
				n1, n2, l, d := g.plain(3), g.plain(3), g.plain(3), g.plain(3)
				a := l + "@" + d
				core := g.at(o) + l + g.at(o) + "@" + g.at(o) + d + g.at(o)
				switch g.n(4) {
				case 0:
					return core, []Addr{{"", B(a)}}
				case 1:
					return g.at(o) + "<" + core + ">" + g.at(o), []Addr{{"", B(a)}}
				case 2:
					return g.at(o) + n1 + g.at(o) + "<" + core + ">" + g.at(o), []Addr{{B(n1), B(a)}}
				}
				return g.at(o) + n1 + g.cfws() + n2 + g.at(o) + "<" + core + ">" + g.at(o), []Addr{{B(n1 + " " + n2), B(a)}}
			})},
			{Name: "list-and-group", Quick: 960, Thorough: 9000, Check: checkA, Gen: decorated(func(g gen, c *Case, o opts) (string, []Addr) {
				var parts []string
				var want []Addr
				for n := g.rng(1, 3); n > 0; n-- {
					a := g.plain(2) + "@" + g.plain(2)
					parts = append(parts, g.at(o)+a+g.at(o))
					want = append(want, Addr{"", B(a)})
				}
				s := strings.Join(parts, ",")
				if g.bit() {
					c.label("group")
					s = g.at(o) + g.plain(3) + g.at(o) + ":" + s + ";" + g.at(o)
				}
				return s, want
			})},
			{Name: "long-comment", Quick: 100, Thorough: 2000, Check: checkA, Gen: decorated(func(g gen, c *Case, o opts) (string, []Addr) {
				com := "("
				depth := 1
				for n := g.rng(20, 80); n > 0; n-- {
					switch g.n(8) {
					case 0:
						com += "("
						depth++
					case 1:
						if depth > 1 {
							com += ")"
							depth--
						}
					case 2:
						com += g.pick("\\(", "\\)", "\\\\")
					default:
						com += string(g.runeOf(ctextASCII))
					}
				}
				com += strings.Repeat(")", depth)
				a := g.plain(3) + "@" + g.plain(3)
				if g.bit() {
					return com + " " + a, []Addr{{"", B(a)}}
				}
				return a + com, []Addr{{"", B(a)}}
			})},
		},
	})

	register(&Prop{
		ID: "C08",
		Rule: "A case has a quoted string with generated content (qtext, all kinds of quoted pairs, folding white space, non-ASCII, delimiters), " +
			"built together with its value, used as a display name, a word of one, a local part, or a word of an obsolete local part. Trivial: only letters and digits inside.",
		Subs: []Sub{
			{Name: "quoted", Quick: 9600, Thorough: 80000, Check: checkA, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{}
				raw, v := g.quoted()
				q := raw[1 : len(raw)-1]
				c.Trivial = strings.Trim(q, string(alnum)) == ""
				c.labelIf(strings.Contains(q, "\\"), "quoted-pair")
				c.labelIf(strings.Contains(q, "\r\n"), "fold")
				c.labelIf(strings.ContainsAny(q, " \t"), "white-space")
				c.labelIf(q == "", "empty")
				c.labelIf(!ascii(q), "non-ascii")
				l, d, w := g.plain(3), g.plain(3), g.plain(3)
				a := l + "@" + d
				var s string
				var want Addr
				switch k := g.weighted(30, 20, 10, 20, 10, 10); k {
				case 0:
					s, want = raw+g.pick("", " ")+"<"+a+">", Addr{B(v), B(a)}
					c.label("name")
				case 1:
					s, want = w+" "+raw+" <"+a+">", Addr{B(w + " " + v), B(a)}
					c.label("word")
				case 2:
					if v == "" {
						want = Addr{B(w), B(a)}
					} else {
						want = Addr{B(v + " " + w), B(a)}
					}
					s = raw + " " + w + " <" + a + ">"
					c.label("word")
				case 3:
					s, want = raw+"@"+d, Addr{"", B(v + "@" + d)}
					c.label("local-part")
				case 4:
					s, want = "<"+raw+"@"+d+">", Addr{"", B(v + "@" + d)}
					c.label("local-part")
				case 5:
					s, want = w+"."+raw+"@"+d, Addr{"", B(w + "." + v + "@" + d)}
					c.label("local-part-word")
				}
				c.In, c.Addrs = []B{B(s)}, []Addr{want}
				return c
			}},
			{Name: "two-strings", Quick: 2400, Thorough: 15000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				r1, v1 := g.quoted()
				r2, v2 := g.quoted()
				d := g.plain(3)
				name := v1
				return r1 + " <" + r2 + "@" + d + ">", []Addr{{B(name), B(v2 + "@" + d)}}
			})},
		},
	})

	register(&Prop{
		ID: "C11",
		Rule: "A case is an addr-spec (dot-atom, quoted or obsolete local part; dot-atom or literal domain; trailing periods, ports, non-ASCII), built " +
			"together with its value, written bare, in angle brackets, with a name, with a source route and as a group member: each form must give the same address. Trivial: letters and digits only.",
		Subs: []Sub{
			{Name: "forms", Quick: 1280, Thorough: 12000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{}
				a := g.addrSpec(opts{}, c)
				n := g.plain(3)
				c.In = []B{B(a.raw), B("<" + a.raw + ">"), B(n + " <" + a.raw + ">"), B("<" + g.route(opts{cfws: 10}) + a.raw + ">"), B(n + ": " + a.raw + ";")}
				c.Strs = []B{B(n), B(a.value)}
				c.Trivial = strings.Trim(a.value, string(alnum)) == "@"
				c.labelIf(!ascii(a.value), "non-ascii")
				c.labelIf(astral(a.value), "non-bmp")
				c.labelIf(strings.HasSuffix(a.value, "."), "trailing-period")
				return c
			}, Check: func(c *Case) error {
				for i, in := range c.In {
					want := Addr{"", c.Strs[1]}
					if i == 2 {
						want.Name = c.Strs[0]
					}
					if err := expectA(in, []Addr{want}); err != nil {
						return err
					}
				}
				return nil
			}},
			{Name: "addr-spec", Quick: 4400, Thorough: 40000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				a := g.addrSpec(opts{cfws: g.n(2) * g.n(30)}, c)
				c.Trivial = strings.Trim(a.value, string(alnum)) == "@"
				c.labelIf(!ascii(a.value), "non-ascii")
				c.labelIf(strings.HasSuffix(a.value, "."), "trailing-period")
				return a.raw, []Addr{{"", B(a.value)}}
			})},
			{Name: "route", Quick: 1000, Thorough: 8000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				a := g.addrSpec(opts{}, c)
				return g.plain(2) + " <" + g.route(opts{cfws: 15}) + a.raw + ">", nil
			}) /* set below */},
			{Name: "encoded-local", Quick: 800, Thorough: 6000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// RFC 2047 5: an encoded word has no meaning in an addr-spec.
				var raw string
				for i, n := 0, g.rng(1, 3); i < n; i++ {
					if i > 0 {
						raw += "."
					}
					if g.pct(65) {
						raw += g.encoded(4).raw
					} else {
						raw += g.plain(3)
					}
				}
				v := raw + "@" + g.plain(3)
				if g.bit() {
					return "<" + v + ">", []Addr{{"", B(v)}}
				}
				return v, []Addr{{"", B(v)}}
			})},
		},
	})
	for i := range Find("C11").Subs {
		if s := &Find("C11").Subs[i]; s.Name == "route" {
			s.Gen = constructed(func(g gen, c *Case) (string, []Addr) {
				a := g.addrSpec(opts{}, c)
				n := g.plain(2)
				return n + " <" + g.route(opts{cfws: 15}) + a.raw + ">", []Addr{{B(n), B(a.value)}}
			})
		}
	}

	register(&Prop{
		ID: "C12",
		Rule: "A case is a mailbox with a display name of 1 to 7 words (atoms, quoted strings, encoded words), periods and at signs, with varying white space and comments, built " +
			"together with the name it stands for. Trivial: a single ASCII-alphanumeric word.",
		Subs: []Sub{
			{Name: "name", Quick: 2880, Thorough: 26000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				n := g.name(opts{cfws: g.n(2) * g.n(60)}, c)
				c.Trivial = strings.Trim(n.raw, string(alnum)) == ""
				a := g.plain(3) + "@" + g.plain(3)
				return n.raw + g.pick(" ", "", "  ", "\t") + "<" + a + ">", []Addr{{B(n.value), B(a)}}
			})},
			{Name: "unspaced", Quick: 1760, Thorough: 18000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// Initials and addresses in names: J. R. Doe, doe@example.com.
				raw, v := g.plain(3), ""
				v = raw
				glue := false
				for n := g.rng(1, 6); n > 0; n-- {
					if g.pct(55) {
						u := g.pick(".", "@")
						if g.pct(30) {
							raw += " "
						}
						raw += u
						v += u
						glue = true
					} else {
						w := g.plain(3)
						q := w
						switch g.n(6) { // words which look like what they stand next to
						case 0:
							w = g.pick("", ".", "@", " ", ",") + w + g.pick("", ".", "@", " ", ",", ". ")
							q = "\"" + w + "\""
						case 1:
							w = g.pick(".", "@", " ", "..", "a.", ".a", "@.", "")
							q = "\"" + w + "\""
						}
						if !glue {
							raw += g.pick(" ", "  ", "\t", " \r\n ", "(c)", " (c) ")
							v += " "
						} else if g.bit() {
							raw += g.pick(" ", "  ", "\r\n\t", "(.)")
						}
						raw += q
						v += w
						glue = false
					}
				}
				a := g.plain(2) + "@" + g.plain(2)
				return raw + " <" + a + ">", []Addr{{B(v), B(a)}}
			})},
			{Name: "spacing", Quick: 1440, Thorough: 13000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// However words are separated, one space separates them in the name.
				var raw string
				var words []string
				for i, n := 0, g.rng(2, 7); i < n; i++ {
					if i > 0 {
						if g.bit() {
							raw += g.cfws()
						} else {
							raw += g.pick(" ", "  ", "\t", "\r\n ")
						}
					}
					w := g.atom(4)
					raw += w
					words = append(words, w)
				}
				a := g.plain(2) + "@" + g.plain(2)
				return raw + " <" + a + ">", []Addr{{B(strings.Join(words, " ")), B(a)}}
			})},
		},
	})
}

func decorated(f func(g gen, c *Case, o opts) (string, []Addr)) func(t *rapid.T) *Case {
	return constructed(func(g gen, c *Case) (string, []Addr) {
		s, want := f(g, c, opts{cfws: g.rng(20, 60)})
		c.labelIf(strings.Contains(s, "("), "comment")
		c.labelIf(strings.Contains(s, "\r\n"), "fold")
		c.Trivial = !strings.Contains(s, "(") && !strings.Contains(s, "\r\n")
		return s, want
	})
}

// anyText is text of any kind, for names and local parts.
func (g gen) anyText(max int) string {
	switch g.weighted(25, 40, 35, 8) {
	case 3:
		return g.shaped()
	case 0:
		return g.plain(max)
	case 1:
		var b []rune
		for n := g.geo(0, max, 80); n > 0; n-- {
			if g.pct(20) {
				b = append(b, ' ')
			} else {
				b = append(b, rune(g.rng(0x20, 0x7e)))
			}
		}
		return string(b)
	}
	var b []rune
	for n := g.geo(0, max, 80); n > 0; n-- {
		switch g.weighted(40, 40, 10, 10) {
		case 0:
			b = append(b, g.runeOf(alnum))
		case 1:
			b = append(b, g.wide())
		case 2:
			b = append(b, rune(g.n(128)))
		case 3:
			b = append(b, ' ')
		}
	}
	return string(b)
}

func genRoundTrip(t *rapid.T) *Case {
	g := gen{t}
	c := &Case{Trivial: true}
	var parts []string
	for n := g.geo(1, 4, 30); n > 0; n-- {
		max := 8
		if g.pct(15) {
			max = 60 // several encoded words
			c.label("long-name")
		}
		name := g.anyText(max)
		local := g.anyText(8)
		// net/mail drops what it cannot put into a quoted string.
		local = strings.Map(func(r rune) rune {
			if r < 0x20 && r != '\t' || r == 0x7f {
				return -1
			}
			return r
		}, local)
		if local == "" { // nothing writes an empty local part
			local = g.plain(2)
		}
		dom := strings.TrimSuffix(g.dotAtom(), ".")
		if g.pct(15) {
			dom = g.pick("[1.2.3.4]", "[IPv6:::1]", "[x]")
		}
		if strings.Trim(name+local, string(alnum)) != "" {
			c.Trivial = false
		}
		a := &mail.Address{Name: name, Address: local + "@" + dom}
		s := a.String()
		c.labelIf(strings.Contains(s, "=?utf-8?"), "encoded")
		c.labelIf(strings.Contains(s, "\\"), "quoted-pair")
		c.labelIf(astral(s) || astral(name), "non-bmp")
		parts = append(parts, s)
		c.Addrs = append(c.Addrs, Addr{B(name), B(local + "@" + dom)})
	}
	c.In = []B{B(strings.Join(parts, g.pick(", ", ",", ",\r\n ")))}
	return c
}

// writable are the mailboxes net/mail can write without losing anything.
func writable(list []*mail.Address) (out []*mail.Address) {
	for _, a := range list {
		if a == nil || !utf8.ValidString(a.Name) || !utf8.ValidString(a.Address) {
			continue
		}
		i := strings.LastIndexByte(a.Address, '@')
		if i <= 0 {
			continue
		}
		ok := true
		for _, r := range a.Address[:i] {
			if r < 0x20 && r != '\t' || r == 0x7f {
				ok = false
			}
		}
		// A period at the end of a name or local part, or a literal with an at sign, is beyond what
		// net/mail splits correctly.
		if ok && !strings.ContainsAny(a.Address[i:], "[]") {
			out = append(out, a)
		}
	}
	return out
}
