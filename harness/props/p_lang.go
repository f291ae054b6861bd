package props

import (
	"fmt"
	"net/mail"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verifharness/spec"
)

// validAddresses is a valid address list in one of many shapes.
func (g gen) validAddresses() string {
	c := &Case{}
	o := opts{cfws: g.n(2) * g.n(40)}
	switch g.weighted(30, 30, 15, 15, 10) {
	case 0:
		return addressSeeds[g.n(len(addressSeeds))]
	case 1:
		s, _ := g.mailbox(o, c)
		return s
	case 2:
		s, _ := g.group(opts{}, c, 2, g.pct(70))
		return s
	case 3:
		var parts []string
		for n := g.rng(1, 4); n > 0; n-- {
			s, _ := g.simpleMailbox()
			parts = append(parts, s)
		}
		return g.list(parts, o, g.pct(30), g.pct(30))
	}
	a := g.addrSpec(o, c)
	return a.raw
}

// anyAddressText is a candidate address list, valid or not.
func (g gen) anyAddressText(c *Case) string {
	switch g.weighted(15, 40, 20, 20, 5) {
	case 0:
		c.label("source:valid")
		return g.validAddresses()
	case 1:
		c.label("source:mutated")
		return g.mutate(g.validAddresses())
	case 2:
		c.label("source:grammar")
		return spec.Random(g.pick("addressList", "addressList", "mailbox", "group", "obsAddrList", "nameAddr", "addrSpec"), g.n, g.rng(6, 40))
	case 3:
		c.label("source:soup")
		return g.soup(10)
	}
	c.label("source:bytes")
	return g.bytes(16)
}

// clip bounds a candidate; parsing is slow.
func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	for n > 0 && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n]
}

// reading compares the parser with the reference on any input. accept also requires that both
// accept the same inputs.
func reading(c *Case, accept bool) error {
	in := string(c.In[0])
	if in == "" {
		c.Trivial = true
		return nil
	}
	want, ok, err := spec.Addresses(in, nil)
	if err != nil {
		c.Trivial = true
		c.label("reference-limit")
		return nil
	}
	list, gerr := parseA(in)
	if isPanic(gerr) {
		return fmt.Errorf("ParseAddressList(%+q): %v", in, gerr)
	}
	if accept {
		switch {
		case ok && gerr != nil:
			return fmt.Errorf("ParseAddressList(%+q) fails: %v; it is in the grammar", in, gerr)
		case !ok && gerr == nil:
			got, _ := addrs(list)
			return fmt.Errorf("ParseAddressList(%+q) = %v; it is not in the grammar", in, got)
		}
	}
	if !ok || gerr != nil {
		c.label("rejected")
		if !accept {
			c.Trivial = true
		}
		return nil
	}
	c.label("accepted")
	if accept {
		return nil
	}
	return expectA(c.In[0], fromSpec(want))
}

// invented checks that every character of a result comes from the input: without encoded words,
// each name and address is a subsequence of it, apart from the spaces between words.
func invented(in string, list []Addr) error {
	for _, a := range list {
		for _, s := range []string{strings.ReplaceAll(string(a.Name), " ", ""), strings.ReplaceAll(string(a.Address), " ", "")} {
			rest := []rune(in)
			for _, r := range s {
				i := 0
				for i < len(rest) && rest[i] != r {
					i++
				}
				if i == len(rest) {
					return fmt.Errorf("ParseAddressList(%+q) gives %v, which is not written there", in, a)
				}
				rest = rest[i+1:]
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "A case is a string given to one of the two functions: arbitrary bytes, token soup, random strings of the grammar, valid inputs and mutations of them, cut-off inputs. " +
			"Trivial: the empty string.",
		Subs: []Sub{
			{Name: "addresses", Quick: 8000, Thorough: 80000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{}
				s := g.anyAddressText(c)
				switch g.weighted(70, 15, 15) {
				case 1:
					s = s[:g.n(len(s)+1)]
					c.label("cut-off")
				case 2:
					p := []byte(s)
					for n := g.geo(1, 3, 40); n > 0 && len(p) > 0; n-- {
						p[g.n(len(p))] = byte(g.n(256))
					}
					s = string(p)
					c.label("bytes-changed")
				}
				c.labelIf(!utf8.ValidString(s), "ill-formed-utf8")
				c.In = []B{B(clip(s, 300))}
				return c
			}, Check: checkTotalA},
			{Name: "repeats", Quick: 600, Thorough: 5000, Gen: func(t *rapid.T) *Case {
				// The same few elements again and again, alone, in groups and next to each other.
				g := gen{t}
				pool := []string{g.pick("x <>", "<>", "\"\" <>"), g.pick("a@b", "<a@b>", "n <a@b>"), g.short()}
				elems := func(n int) string {
					var parts []string
					for ; n > 0; n-- {
						if p := pool[g.n(3)]; g.pct(85) {
							parts = append(parts, p)
						} else {
							parts = append(parts, "")
						}
					}
					return strings.Join(parts, g.pick(",", ", "))
				}
				s := elems(g.n(4))
				for n := g.rng(0, 3); n > 0; n-- {
					if s != "" {
						s += ","
					}
					s += g.pick("g:", "", "G: ") + elems(g.rng(1, 4))
					s += g.pick(";", "")
				}
				return &Case{In: []B{B(clip(s, 200))}}
			}, Check: checkTotalA},
			{Name: "dates", Quick: 24000, Thorough: 250000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{}
				s := g.anyDateText(c)
				switch g.weighted(70, 15, 15) {
				case 1:
					s = s[:g.n(len(s)+1)]
					c.label("cut-off")
				case 2:
					p := []byte(s)
					for n := g.geo(1, 3, 40); n > 0 && len(p) > 0; n-- {
						p[g.n(len(p))] = byte(g.n(256))
					}
					s = string(p)
					c.label("bytes-changed")
				}
				c.labelIf(!utf8.ValidString(s), "ill-formed-utf8")
				c.In = []B{B(s)}
				return c
			}, Check: checkTotalD},
			{Name: "crossed", Quick: 3000, Thorough: 30000, Gen: func(t *rapid.T) *Case {
				// Each function on the other one's inputs.
				g := gen{t}
				c := &Case{Ints: []int{g.n(2)}}
				if c.Ints[0] == 0 {
					c.In = []B{B(g.anyDateText(c))}
				} else {
					c.In = []B{B(clip(g.anyAddressText(c), 200))}
				}
				return c
			}, Check: func(c *Case) error {
				if c.Ints[0] == 0 {
					return checkTotalA(c)
				}
				return checkTotalD(c)
			}},
			{Name: "long-runs", Quick: 600, Thorough: 5000, Gen: func(t *rapid.T) *Case {
				// The same token many times, alone and inside an address.
				g := gen{t}
				c := &Case{}
				s := strings.Repeat(g.token(), g.rng(5, 40))
				switch g.n(5) {
				case 0:
					s = s + "a@b"
				case 1:
					s = "a@b" + s
				case 2:
					s = "a " + s + " <a@b>"
				case 3:
					s = s + strings.Repeat(g.token(), g.rng(5, 40))
				}
				c.In = []B{B(clip(s, 240))}
				return c
			}, Check: checkTotalA},
		},
	})

	register(&Prop{
		ID:   "C13",
		Rule: "A case is a candidate address list: valid ones, mutations of them, random strings of the grammar, token soup, bytes; the reference recogniser says whether it is in the published grammar. Trivial: the empty string, or the recogniser gave up.",
		Subs: []Sub{
			{Name: "language", Quick: 8960, Thorough: 90000, Gen: func(t *rapid.T) *Case {
				c := &Case{}
				c.In = []B{B(clip(gen{t}.anyAddressText(c), 160))}
				return c
			}, Check: func(c *Case) error { return reading(c, true) }},
			{Name: "one-character", Quick: 6400, Thorough: 60000, Gen: func(t *rapid.T) *Case {
				// Which characters may stand in which place: any one character of any kind put
				// somewhere into a short address.
				g := gen{t}
				c := &Case{}
				base := []rune(g.pick("a@b", "<a@b>", "n <a@b>", "\"q\" <a@b>", "a@[l]", "G:a@b;", "(c)a@b", "\"q\"@b", "=?utf-8?q?w?= <a@b>", "n m <@r:a@b>", "a.b@c.d", "a@b,c@d", "a@b:25", "\"\\q\"@b", "(\\c)a@b"))
				var r rune
				switch g.n(3) {
				case 0:
					r = rune(g.n(128))
				case 1:
					r = rune(g.rng(0x20, 0x7e))
				case 2:
					r = g.wide()
				}
				i := g.n(len(base) + 1)
				s := append(append(append([]rune{}, base[:i]...), r), base[i:]...)
				if i < len(base) && g.bit() {
					s = append(s[:i+1], base[i+1:]...)
				}
				c.In = []B{B(string(s))}
				return c
			}, Check: func(c *Case) error { return reading(c, true) }},
		},
	})

	register(&Prop{
		ID: "C14",
		Rule: "A case is an address list in the strict part of RFC 5322 which net/mail also implements, written with random atoms, quoted strings, encoded words, groups and white space; " +
			"the oracle is net/mail.ParseAddressList. Trivial: net/mail rejects it, so there is nothing to agree with.",
		Subs: []Sub{
			{Name: "agree", Quick: 3520, Thorough: 32000, Gen: genStrict, Check: func(c *Case) error {
				want, err := mail.ParseAddressList(string(c.In[0]))
				if err != nil {
					c.Trivial = true
					c.label("net/mail-rejects")
					return nil
				}
				list, _ := addrs(want)
				return expectA(c.In[0], list)
			}},
		},
	})

	register(&Prop{
		ID: "C21",
		Rule: "reading: a case is an input of any kind, and what the parser makes of it is compared with the reference reading (the grammar's first alternatives, evaluated by RFC 5322 and 2047). " +
			"not-invented: every character of the result is written in the input. Trivial: the input is rejected.",
		Subs: []Sub{
			{Name: "reading", Quick: 3520, Thorough: 36000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{}
				s := ""
				switch g.weighted(35, 30, 35) {
				case 0:
					s = g.mutate(g.validAddresses())
					c.label("source:mutated")
				case 1:
					s = g.validAddresses()
					c.label("source:valid")
				case 2:
					s = spec.Random(g.pick("addressList", "mailbox", "group", "obsAddrList", "nameAddr"), g.n, g.rng(10, 50))
					c.label("source:grammar")
				}
				c.In = []B{B(clip(s, 160))}
				return c
			}, Check: func(c *Case) error { return reading(c, false) }},
			{Name: "not-invented", Quick: 1920, Thorough: 20000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{}
				s := g.validAddresses()
				if g.bit() {
					s = g.mutate(s)
				}
				c.In = []B{B(clip(strings.ReplaceAll(s, "=?", "=!"), 160))}
				return c
			}, Check: func(c *Case) error {
				list, err := parseA(string(c.In[0]))
				if isPanic(err) {
					return err
				}
				if err != nil {
					c.Trivial = true
					return nil
				}
				got, err := addrs(list)
				if err != nil {
					return err
				}
				return invented(string(c.In[0]), got)
			}},
			{Name: "framed-soup", Quick: 3600, Thorough: 40000, Gen: func(t *rapid.T) *Case {
				// Tokens in the places where most of them may stand.
				g := gen{t}
				c := &Case{}
				soup := g.soup(5)
				switch g.n(9) {
				case 0:
					soup = "n" + soup + "<a@b>"
				case 1:
					soup = "\"" + soup + "\"@b"
				case 2:
					soup = "\"" + soup + "\" <a@b>"
				case 3:
					soup = "G:" + soup + ";"
				case 4:
					soup = "a@b" + soup
				case 5:
					soup = soup + "a@b"
				case 6:
					soup = "<@r" + soup + "a@b>"
				case 7:
					soup = "a@[" + soup + "]"
				case 8:
					soup = "(" + soup + ")a@b"
				}
				c.In = []B{B(soup)}
				return c
			}, Check: func(c *Case) error { return reading(c, false) }},
		},
	})
}

func checkTotalA(c *Case) error {
	in := string(c.In[0])
	c.Trivial = in == ""
	list, err := parseA(in)
	if isPanic(err) {
		return fmt.Errorf("ParseAddressList(%+q): %v", in, err)
	}
	if err != nil {
		c.label("rejected")
		if len(list) != 0 {
			return fmt.Errorf("ParseAddressList(%+q) fails (%v) and gives %d mailboxes", in, err, len(list))
		}
		if err.Error() == "" {
			return fmt.Errorf("ParseAddressList(%+q) fails without saying why", in)
		}
		return nil
	}
	c.label("accepted")
	if in == "" && len(list) != 0 {
		return fmt.Errorf("the empty string gives %d mailboxes", len(list))
	}
	seen := map[*mail.Address]bool{}
	for i, a := range list {
		switch {
		case a == nil:
			return fmt.Errorf("ParseAddressList(%+q): entry %d is nil", in, i)
		case seen[a]:
			return fmt.Errorf("ParseAddressList(%+q): entry %d is the same object as an earlier one", in, i)
		// The bytes of an encoded word are the sender's.
		case !strings.Contains(in, "=?") && (!utf8.ValidString(a.Name) || !utf8.ValidString(a.Address)):
			return fmt.Errorf("ParseAddressList(%+q): entry %d is not UTF-8: %+q", in, i, *a)
		case a.Address != "" && !strings.Contains(a.Address, "@"):
			return fmt.Errorf("ParseAddressList(%+q): entry %d is no address: %+q", in, i, *a)
		case strings.HasSuffix(a.Address, "@"):
			return fmt.Errorf("ParseAddressList(%+q): entry %d has no domain: %+q", in, i, *a)
		}
		seen[a] = true
	}
	return nil
}

func checkTotalD(c *Case) error {
	in := string(c.In[0])
	c.Trivial = in == ""
	t, err := parseD(in)
	if isPanic(err) {
		return fmt.Errorf("ParseDateTime(%+q): %v", in, err)
	}
	if err != nil {
		c.label("rejected")
		if !t.IsZero() {
			return fmt.Errorf("ParseDateTime(%+q) fails (%v) and gives %v", in, err, t)
		}
		if err.Error() == "" {
			return fmt.Errorf("ParseDateTime(%+q) fails without saying why", in)
		}
		return nil
	}
	c.label("accepted")
	if in == "" && !t.IsZero() {
		return fmt.Errorf("the empty string gives %v", t)
	}
	if t.Nanosecond() != 0 {
		return fmt.Errorf("ParseDateTime(%+q) has a fraction of a second: %v", in, t)
	}
	// The result is usable.
	if t.Location() == nil || t.String() == "" {
		return fmt.Errorf("ParseDateTime(%+q): unusable result", in)
	}
	return nil
}

// genStrict writes address lists in the strict syntax.
func genStrict(t *rapid.T) *Case {
	g := gen{t}
	c := &Case{}
	atom := func() string {
		if g.pct(60) {
			return g.plain(5)
		}
		return g.atom(5)
	}
	dot := func() string {
		s := atom()
		for n := g.geo(0, 2, 40); n > 0; n-- {
			s += "." + atom()
		}
		return s
	}
	qs := func() string {
		var b strings.Builder
		b.WriteByte('"')
		for n := g.rng(1, 6); n > 0; n-- {
			switch g.n(5) {
			case 0:
				b.WriteString("\\" + string(rune(g.rng(0x21, 0x7e))))
			case 1:
				b.WriteByte(' ')
			case 2:
				b.WriteRune(g.wide())
			default:
				b.WriteRune(g.runeOf(qtextASCII))
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	sp := func() string { return g.pick("", " ", "  ", "\t") }
	spec := func() string {
		l := dot()
		if g.pct(20) {
			l = qs()
			c.label("quoted-local")
		}
		d := dot()
		if g.pct(15) {
			d = fmt.Sprintf("[%d.%d.%d.%d]", g.n(256), g.n(256), g.n(256), g.n(256))
			c.label("literal")
		}
		return l + "@" + d
	}
	mailbox := func() string {
		if g.pct(35) {
			return spec()
		}
		var words []string
		enc := false
		for n := g.rng(0, 4); n > 0; n-- {
			switch g.weighted(50, 25, 25) {
			case 0:
				words = append(words, atom())
			case 1:
				words = append(words, qs())
				c.label("quoted")
			case 2:
				words = append(words, g.encoded(4).raw)
				enc = true
			}
		}
		c.labelIf(enc, "encoded")
		return strings.Join(words, g.pick(" ", "  ", "\t")) + g.pick(" ", "") + "<" + spec() + ">"
	}
	var parts []string
	for n := g.geo(1, 4, 40); n > 0; n-- {
		if g.pct(15) {
			var ms []string
			for k := g.n(3); k > 0; k-- {
				ms = append(ms, mailbox())
			}
			parts = append(parts, atom()+":"+sp()+strings.Join(ms, ","+sp())+";")
			c.label("group")
		} else {
			parts = append(parts, mailbox())
		}
	}
	c.In = []B{B(strings.Join(parts, g.pick(",", ", ")))}
	return c
}
