package props

import (
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"verifharness/spec"
)

// Enumerations: small domains, and all short inputs over an alphabet of tokens, are not sampled but
// gone through completely.

func add(id string, subs ...Sub) {
	p := Find(id)
	p.Subs = append(p.Subs, subs...)
}

// items makes an enumeration of a list that is built when it is first needed.
func items(build func(add func(c *Case))) func(int) *Case {
	var list []*Case
	return func(i int) *Case {
		if list == nil {
			build(func(c *Case) { list = append(list, c) })
		}
		if i >= len(list) {
			return nil
		}
		return list[i]
	}
}

// checkEach decides a case in which each input stands for one mailbox.
func checkEach(c *Case) error {
	for i, in := range c.In {
		if err := expectA(in, []Addr{c.Addrs[i]}); err != nil {
			c.In, c.Addrs = []B{in}, []Addr{c.Addrs[i]}
			return err
		}
	}
	return nil
}

func (c *Case) each(in string, a Addr) {
	c.In, c.Addrs = append(c.In, B(in)), append(c.Addrs, a)
}

// checkEachD decides a case of dates: each input with the seven fields that follow in Ints.
func checkEachD(c *Case) error {
	for i, in := range c.In {
		f := c.Ints[7*i:]
		if err := expectD(in, spec.Date{Year: f[0], Month: f[1], Day: f[2], Hour: f[3], Min: f[4], Sec: f[5], Off: f[6]}); err != nil {
			c.In, c.Ints = []B{in}, f[:7]
			return err
		}
	}
	return nil
}

func (c *Case) eachD(in string, d spec.Date) {
	c.In = append(c.In, B(in))
	c.Ints = append(c.Ints, d.Year, d.Month, d.Day, d.Hour, d.Min, d.Sec, d.Off)
}

// cases gives a word in all combinations of letter cases.
func cases(s string) (out []string) {
	out = []string{""}
	for _, r := range s {
		l, u := strings.ToLower(string(r)), strings.ToUpper(string(r))
		var next []string
		for _, p := range out {
			next = append(next, p+l)
			if u != l {
				next = append(next, p+u)
			}
		}
		out = next
	}
	return out
}

func isAtext(r rune) bool {
	return r >= 0x80 || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune(string(atextSpec), r)
}

// characters are all ASCII characters and the ones worth trying outside ASCII.
func characters() (out []rune) {
	for r := rune(0); r < 0x80; r++ {
		out = append(out, r)
	}
	for _, r := range spec.NonASCII {
		if r >= 0x80 {
			out = append(out, r)
		}
	}
	return out
}

// tokenStrings are all strings of n tokens, as one case for each choice of all but the last one.
func tokenStrings(alphabet []string, n int) func(int) *Case {
	total := 1
	for i := 1; i < n; i++ {
		total *= len(alphabet)
	}
	return func(i int) *Case {
		if i >= total {
			return nil
		}
		var pre string
		for k := 1; k < n; k++ {
			pre += alphabet[i%len(alphabet)]
			i /= len(alphabet)
		}
		c := &Case{}
		for _, t := range alphabet {
			c.In = append(c.In, B(pre+t))
		}
		return c
	}
}

// every decides each input of a case by itself; the case of a violation is left with that input.
func every(check func(c *Case) error) func(c *Case) error {
	return func(c *Case) error {
		all := c.In
		labels := map[string]bool{}
		for _, in := range all {
			d := &Case{In: []B{in}}
			if err := check(d); err != nil {
				c.In = d.In
				return err
			}
			for _, l := range d.Labels {
				labels[l] = true
			}
		}
		for _, l := range []string{"accepted", "rejected", "out-of-range", "reference-limit"} {
			c.labelIf(labels[l], "some-"+l)
		}
		return nil
	}
}

var addressAlphabet = []string{
	"a", "1", "@", ",", ";", ":", "<", ">", "(", ")", "[", "]", "\"", "\\", ".", " ", "\t", "\r\n ", "\r\n", "=?", "?=", "é", "\x00", "\x01",
	"a@b", "<a@b>", "g:", "(c)", "\"q\"",
}

// neighbours are all strings which differ from a text in one place by one ASCII character put there,
// instead of a character or before it; one case for each place.
func neighbours(templates []string) func(int) *Case {
	return items(func(add func(*Case)) {
		for _, s := range templates {
			for i := 0; i <= len(s); i++ {
				c := &Case{}
				for r := 0; r < 0x80; r++ {
					c.In = append(c.In, B(s[:i]+string(rune(r))+s[i:]))
					if i < len(s) {
						c.In = append(c.In, B(s[:i]+string(rune(r))+s[i+1:]))
					}
				}
				for _, w := range []string{"é", "ſ", "K", "\u2028", "\ufeff", "😀", "\x80", "\u00a0"} {
					c.In = append(c.In, B(s[:i]+w+s[i:]))
				}
				if i < len(s) {
					c.In = append(c.In, B(s[:i]+s[i+1:]), B(s[:i]))
				}
				add(c)
			}
		}
	})
}

func init() {
	add("C04", Sub{Name: "small-lists", Check: checkA, Item: items(smallLists(3))},
		Sub{Name: "small-lists-4", Check: checkA, Item: items(smallLists(4)), OnlyThorough: true})
	add("C08", Sub{Name: "characters", Check: checkEach, Item: items(func(add func(*Case)) {
		for _, r := range characters() {
			s := string(r)
			c := &Case{}
			raw := "\"x\\" + s + "y\""
			c.each(raw+" <a@b>", Addr{B("x" + s + "y"), "a@b"})
			c.each(raw+"@b", Addr{"", B("x" + s + "y@b")})
			c.each("\"\\"+s+"\"<a@b>", Addr{B(s), "a@b"})
			c.each("m.\"\\"+s+"\"@b", Addr{"", B("m." + s + "@b")})
			if !strings.ContainsRune("\x00\r\n\"\\", r) {
				raw = "\"x" + s + "y\""
				c.each(raw+" <a@b>", Addr{B("x" + s + "y"), "a@b"})
				c.each("n "+raw+" <a@b>", Addr{B("n x" + s + "y"), "a@b"})
				c.each(raw+"@b", Addr{"", B("x" + s + "y@b")})
				c.each("\""+s+"\"@b", Addr{"", B(s + "@b")})
			}
			add(c)
		}
	})})
	add("C09", Sub{Name: "bytes", Check: checkEach, Item: items(func(add func(*Case)) {
		for _, charset := range []string{"us-ascii", "utf-8", "iso-8859-1"} {
			for lo := 0; lo < 256 && (lo < 128 || charset == "iso-8859-1"); lo += 8 {
				var p []byte
				var q, v string
				for b := lo; b < lo+8; b++ {
					p = append(p, byte(b))
					q += fmt.Sprintf("=%02X", b)
					v += string(rune(b))
				}
				c := &Case{}
				c.label(charset)
				c.each("=?"+charset+"?q?"+q+"?= <a@b>", Addr{B(v), "a@b"})
				c.each("=?"+charset+"?Q?"+strings.ToLower(q)+"?= <a@b>", Addr{B(v), "a@b"})
				c.each("=?"+charset+"?b?"+base64.StdEncoding.EncodeToString(p)+"?= <a@b>", Addr{B(v), "a@b"})
				add(c)
			}
		}
		// All letter cases of the charsets and encodings.
		for _, charset := range []string{"utf-8", "iso-8859-1"} {
			for _, cs := range cases(charset) {
				c := &Case{}
				for _, e := range []string{"q", "Q", "b", "B"} {
					text := "eA=="
					if e == "q" || e == "Q" {
						text = "x"
					}
					c.each("=?"+cs+"?"+e+"?"+text+"?= <a@b>", Addr{"x", "a@b"})
				}
				c.label("letter-case")
				add(c)
			}
		}
		for _, cs := range cases("us-ascii") {
			c := &Case{}
			c.each("=?"+cs+"?q?x?= <a@b>", Addr{"x", "a@b"})
			c.label("letter-case")
			add(c)
		}
	})})
	add("C11", Sub{Name: "characters", Check: checkEach, Item: items(func(add func(*Case)) {
		for _, r := range characters() {
			s := string(r)
			c := &Case{}
			if isAtext(r) {
				for _, a := range []string{"x" + s + "y@d", s + "@d", "l@x" + s + "y", "l@" + s, "x." + s + "@d", "l@x." + s + "."} {
					c.each(a, Addr{"", B(a)})
				}
				c.each("<@r:x"+s+"@y"+s+">", Addr{"", B("x" + s + "@y" + s)})
			}
			if r > 0x20 && r != 0x7f && !strings.ContainsRune("[]\\", r) {
				a := "l@[x" + s + "y]"
				c.each(a, Addr{"", B(a)})
				c.each("n <"+a+">", Addr{"n", B(a)})
			}
			if len(c.In) > 0 {
				add(c)
			}
		}
	})})
	add("C12", Sub{Name: "characters", Check: checkEach, Item: items(func(add func(*Case)) {
		for _, r := range characters() {
			if s := string(r); isAtext(r) {
				c := &Case{}
				c.each(s+" <a@b>", Addr{B(s), "a@b"})
				c.each("x"+s+"y<a@b>", Addr{B("x" + s + "y"), "a@b"})
				c.each("x "+s+" \""+s+"\" y <a@b>", Addr{B("x " + s + " " + s + " y"), "a@b"})
				c.each("x."+s+" y <a@b>", Addr{B("x." + s + " y"), "a@b"})
				add(c)
			}
		}
	})})
	add("C12", Sub{Name: "shapes", Check: checkEach, Item: items(func(add func(*Case)) {
		// All names of up to four elements, among them words that look like periods and at signs.
		type word struct{ raw, value string }
		words := []word{{"a", "a"}, {"\"b.\"", "b."}, {"\"@c\"", "@c"}, {"=?utf-8?q?d.?=", "d."}}
		for n := 1; n <= 4; n++ {
			shape := make([]int, n)
			for {
				c := &Case{}
				var raw, v string
				glue, encoded := true, false
				for _, k := range shape {
					if k >= len(words) {
						u := []string{".", "@"}[k-len(words)]
						raw, v, glue, encoded = raw+u, v+u, true, false
						continue
					}
					if raw != "" {
						raw += " "
					}
					enc := strings.HasPrefix(words[k].raw, "=?")
					if !glue && !(enc && encoded) {
						v += " "
					}
					raw, v, glue, encoded = raw+words[k].raw, v+words[k].value, false, enc
				}
				c.each(raw+" <x@y>", Addr{B(v), "x@y"})
				add(c)
				i := n - 1
				for ; i >= 0; i-- {
					top := len(words) + 2
					if i == 0 {
						top = len(words)
					}
					if shape[i]++; shape[i] < top {
						break
					}
					shape[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
	})})
	add("C13", Sub{Name: "all-of-2-tokens", Check: every(func(c *Case) error { return reading(c, true) }), Item: tokenStrings(addressAlphabet, 2)},
		Sub{Name: "all-of-3-tokens", Check: every(func(c *Case) error { return reading(c, true) }), Item: tokenStrings(addressAlphabet, 3)},
		Sub{Name: "all-of-4-tokens", Check: every(func(c *Case) error { return reading(c, true) }), Item: tokenStrings(addressAlphabet, 4), OnlyThorough: true},
		Sub{Name: "all-neighbours", Check: every(func(c *Case) error { return reading(c, true) }), OnlyThorough: true, Item: neighbours([]string{
			"a.b@c.d", "n m <a@b>", "\"q\\q\" <\"s\"@[l]>", "(c\\c) a@b", "G:a@b,;", "=?utf-8?q?w?= <a@b>", "<@r,@s:a@b>", "a@b,c@d;e@f", "a@b:25"})})
	add("C21", Sub{Name: "all-of-3-tokens", Check: every(func(c *Case) error { return reading(c, false) }), Item: tokenStrings(addressAlphabet, 3)},
		Sub{Name: "all-of-4-tokens", Check: every(func(c *Case) error { return reading(c, false) }), Item: tokenStrings(addressAlphabet, 4), OnlyThorough: true},
		Sub{Name: "all-neighbours", Check: every(func(c *Case) error { return reading(c, false) }), OnlyThorough: true, Item: neighbours([]string{
			"a.b@c.d", "n m <a@b>", "\"q\\q\" <\"s\"@[l]>", "(c\\c) a@b", "G:a@b,;", "=?utf-8?q?w?= <a@b>", "<@r,@s:a@b>", "a@b,c@d;e@f", "n.m@o p <a@b>"})})

	add("C15", Sub{Name: "every-year", Check: checkEachD, Item: items(func(add func(*Case)) {
		for lo := 0; lo < 10000; lo += 50 {
			c := &Case{}
			for y := lo; y < lo+50; y++ {
				d := spec.Date{Year: y, Month: 1 + y*7%12, Day: 1 + y*11%28, Hour: y % 24, Min: y % 60, Sec: y % 59}
				c.eachD(fmt.Sprintf("%s, %02d %s %04d %02d:%02d:%02d +0000", weekday(d), d.Day, monthText[d.Month-1], y, d.Hour, d.Min, d.Sec), d)
			}
			add(c)
		}
	})}, Sub{Name: "every-day", Check: checkEachD, Item: items(func(add func(*Case)) {
		for _, y := range []int{0, 1600, 1900, 1970, 2000, 2023, 2024, 2100} {
			for m := 1; m <= 12; m++ {
				c := &Case{}
				for day := 1; time.Date(y, time.Month(m), day, 0, 0, 0, 0, time.UTC).Day() == day; day++ {
					d := spec.Date{Year: y, Month: m, Day: day, Hour: 23, Min: 30, Sec: 1, Off: -5400}
					c.eachD(fmt.Sprintf("%d %s %04d 23:30:01 -0130", day, monthText[m-1], y), d)
				}
				add(c)
			}
		}
	})}, Sub{Name: "every-time-of-day", Check: checkEachD, Item: items(func(add func(*Case)) {
		for h := 0; h < 24; h++ {
			c := &Case{}
			for m := 0; m < 60; m++ {
				d := spec.Date{Year: 2024, Month: 2, Day: 29, Hour: h, Min: m, Sec: (h*7 + m) % 60, Off: 3600}
				c.eachD(fmt.Sprintf("29 Feb 2024 %02d:%02d:%02d +0100", h, m, d.Sec), d)
				d.Sec = 0
				c.eachD(fmt.Sprintf("29 Feb 2024 %02d:%02d +0100", h, m), d)
			}
			add(c)
		}
		for _, at := range [][4]int{{2016, 12, 31, 23}, {2015, 6, 30, 23}, {2024, 2, 28, 23}, {2023, 2, 28, 23}, {2000, 1, 1, 0}} {
			c := &Case{}
			for s := 0; s <= 60; s++ {
				d := spec.Date{Year: at[0], Month: at[1], Day: at[2], Hour: at[3], Min: 59, Sec: s}
				c.eachD(fmt.Sprintf("%d %s %04d %02d:59:%02d +0000", at[2], monthText[at[1]-1], at[0], at[3], s), d)
			}
			add(c)
		}
	})})
	add("C16", Sub{Name: "every-offset", Check: checkEachD, Item: items(func(add func(*Case)) {
		for h := 0; h < 100; h++ {
			for _, sign := range []string{"+", "-", ""} {
				c := &Case{}
				for m := 0; m < 60; m++ {
					d := spec.Date{Year: 2020, Month: 7, Day: 1, Hour: 12, Off: h*3600 + m*60}
					if sign == "-" {
						d.Off = -d.Off
					}
					c.eachD(fmt.Sprintf("1 Jul 2020 12:00:00 %s%02d%02d", sign, h, m), d)
				}
				add(c)
			}
		}
	})}, Sub{Name: "every-name", Check: checkEachD, Item: items(func(add func(*Case)) {
		for _, z := range zoneText {
			for _, n := range cases(z) {
				c := &Case{}
				d := spec.Date{Year: 2020, Month: 7, Day: 1, Hour: 1, Off: spec.ZoneOffsets[strings.ToLower(z)] * 3600}
				for _, f := range []string{"1 Jul 2020 01:00:00 %s", "1 Jul 2020 01:00 %s", "Wed, 01 Jul 20 1:00:00 %s", "1 Jul 2020 01:00:00%s", "1 Jul 2020 01:00:00 (x) %s (EST)", "1 Jul 2020 01:00:00\r\n %s "} {
					c.eachD(fmt.Sprintf(f, n), d)
				}
				add(c)
			}
		}
	})})
	add("C17", Sub{Name: "every-name", Check: checkEachD, Item: items(func(add func(*Case)) {
		for m, name := range monthText {
			for _, n := range cases(name) {
				c := &Case{}
				d := spec.Date{Year: 2021, Month: m + 1, Day: 3, Hour: 4, Min: 5}
				for _, f := range []string{"3 %s 2021 04:05", "03 %s 21 4:05", "3%s 2021 04:05:00", "Tue,3(x)%s(y)21(z)4:05 GMT"} {
					c.eachD(fmt.Sprintf(f, n), d)
				}
				add(c)
			}
		}
		for _, name := range dayText {
			for _, n := range cases(name) {
				c := &Case{}
				d := spec.Date{Year: 2021, Month: 12, Day: 9, Hour: 14, Min: 5, Sec: 6}
				for _, f := range []string{"%s, 9 Dec 2021 14:05:06 +0000", "%s,09 Dec 2021 14:05:06", " %s , 9 Dec 21 14:05:06 UT"} {
					c.eachD(fmt.Sprintf(f, n), d)
				}
				add(c)
			}
		}
	})}, Sub{Name: "every-short-form", Check: checkEachD, Item: items(func(add func(*Case)) {
		for y := 0; y < 100; y++ {
			d := spec.Date{Year: 2000 + y, Month: 1 + y%12, Day: 1 + y%28, Hour: y % 10, Min: y % 60}
			if y >= 50 {
				d.Year = 1900 + y
			}
			mon := monthText[d.Month-1]
			c := &Case{}
			c.eachD(fmt.Sprintf("%d %s %02d %02d:%02d", d.Day, mon, y, d.Hour, d.Min), d)
			c.eachD(fmt.Sprintf("%02d %s %02d %d:%02d:00 +0000", d.Day, mon, y, d.Hour, d.Min), d)
			c.eachD(fmt.Sprintf("%d%s%02d %d:%02d(x)", d.Day, mon, y, d.Hour, d.Min), d)
			c.eachD(fmt.Sprintf("%d %s %04d %d:%02d", d.Day, mon, d.Year, d.Hour, d.Min), d)
			add(c)
		}
	})})
	add("C18", Sub{Name: "all-neighbours", Check: every(checkDateLanguage), Item: neighbours([]string{
		"Mon, 02 Jan 2006 15:04:05 -0700", "2 Feb 96 1:04 EST", "1(c)May 2006 15:04"})},
		Sub{Name: "all-neighbours-more", Check: every(checkDateLanguage), OnlyThorough: true, Item: neighbours([]string{
			"\r\n Tue ,3 Jun 2006\t15 : 04 : 05 0100 (x(y\\)))", "1DEC99 9:59utc", "31 Oct 0000 00:00 PDT\r\n "})},
		Sub{Name: "all-of-4-tokens", Check: every(checkDateLanguage), OnlyThorough: true, Item: tokenStrings(dateTokens[:20], 4)})
}

// smallLists are all lists of up to n elements: mailboxes, groups, and empty elements in lists
// separated by commas.
func smallLists(n int) func(add func(*Case)) {
	kinds := []struct {
		raw  string
		want []Addr
	}{
		{"a@b", []Addr{{"", "a@b"}}},
		{"n <c@d>", []Addr{{"n", "c@d"}}},
		{"g:;", nil},
		{"g:e@f;", []Addr{{"", "e@f"}}},
		{"g:n <c@d>, a@b;", []Addr{{"n", "c@d"}, {"", "a@b"}}},
		{"", nil},
	}
	return func(add func(*Case)) {
		var walk func(left int, raw string, want []Addr, first, full, semi, empty bool)
		walk = func(left int, raw string, want []Addr, first, full, semi, empty bool) {
			if left == 0 {
				if full && !(semi && empty) {
					add(&Case{In: []B{B(raw)}, Addrs: append([]Addr{}, want...)})
				}
				return
			}
			for _, k := range kinds {
				for _, sep := range []string{",", ";"} {
					if first && sep == ";" {
						continue
					}
					s := raw + sep + k.raw
					if first {
						s = k.raw
					}
					walk(left-1, s, append(append([]Addr{}, want...), k.want...), false, full || k.raw != "", semi || sep == ";", empty || k.raw == "")
				}
			}
		}
		if n == 4 {
			walk(4, "", nil, true, false, false, false)
			return
		}
		for k := 1; k <= n; k++ {
			walk(k, "", nil, true, false, false, false)
		}
	}
}
