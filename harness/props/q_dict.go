package props

import (
	"encoding/base64"
	"fmt"
	"net/mail"
	"strings"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
	"verifharness/spec"
)

// Enumerations over the dictionary: each of its texts in each place. The literals of the parser's
// source are among them.

// shapes are the texts of the dictionary, and texts wrapped in pairs of characters.
func shapes() []string {
	out := append([]string{}, dictionary...)
	for _, w := range wraps {
		out = append(out, w[0]+"x"+w[1], w[0]+"Doe, J"+w[1], "x "+w[0]+"a@b"+w[1], w[0]+"y"+w[1]+" x")
	}
	for _, p := range []string{"via", "on behalf of", "at", "-", ",", "(", "/", ":", "and"} {
		out = append(out, "x "+p+" y", "x "+p+" a@b")
	}
	return out
}

// tiny are texts of one or two unusual characters.
func tiny() (out []string) {
	list := []string{"\r", "\n", "\x00", "\t", " ", "\x01", "\x1f", "\x7f", "\u0080", "\u00a0", "\u2028", "\ufeff", "\ufffd", "é", "😀", "x", "\"", "\\", ".", "@", ",", ";", ":", "(", ")", "<", ">", "[", "]", "=", "?", "'", "_", "-", "0"}
	for i, a := range list {
		out = append(out, a)
		if i < 6 || strings.Contains("x\".@=?'", a) {
			for _, b := range []string{"\r", "\n", "\x00", "\t", " ", "\x01", "x", "é", "\"", ".", "'"} {
				out = append(out, a+b)
			}
		}
	}
	return
}

// texted makes an enumeration of the dictionary; each text is a case.
func texted(f func(s string, c *Case)) func(int) *Case {
	return items(func(add func(*Case)) {
		for _, s := range shapes() {
			c := &Case{}
			f(s, c)
			if len(c.In) > 0 {
				add(c)
			}
		}
	})
}

// A case of lists: each input with as many mailboxes as Ints says.
func (c *Case) eachList(in string, list ...Addr) {
	c.In, c.Addrs, c.Ints = append(c.In, B(in)), append(c.Addrs, list...), append(c.Ints, len(list))
}

func checkEachList(c *Case) error {
	rest := c.Addrs
	for i, in := range c.In {
		n := c.Ints[i]
		if err := expectA(in, append([]Addr{}, rest[:n]...)); err != nil {
			c.In, c.Addrs, c.Ints = []B{in}, rest[:n], []int{n}
			return err
		}
		rest = rest[n:]
	}
	return nil
}

// numbers are the numbers of the source and their neighbours, within limits.
func numbers(lo, hi int) (out []int) {
	seen := map[int]bool{}
	for _, v := range minedNums {
		for n := v - 1; n <= v+2; n++ {
			if n >= lo && n <= hi && !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return
}

func init() {
	// Each text in each place, as it is, quoted, commented and encoded; control characters and other
	// small things too, singly and in pairs, for what they might leave when something strips them.
	add("C01", Sub{Name: "dictionary", Check: every(checkTotalA), Item: items(func(add func(*Case)) {
		for _, s := range append(tiny(), shapes()...) {
			c := &Case{}
			q, e, k := quote(s), qEncoded(s), commented(s)
			b := "=?utf-8?B?" + base64.StdEncoding.EncodeToString([]byte(s)) + "?="
			for _, in := range []string{
				s, s + "@b", "a@" + s, s + " <a@b>", "<" + s + ">", "a@[" + s + "]", s + ":a@b;", "g:" + s + ";", "a@b," + s, "<@" + s + ":a@b>", "a@b:" + s,
				q + "<a@b>", "n " + q + " m <a@b>", q + "@b", "a." + q + "@b", q + ":a@b;", "g:" + q + "<>;", q,
				e + " <a@b>", b + "<a@b>", e + " " + b + " <a@b>", "n " + e + " m <a@b>", e + ":a@b;", e + "@b", e + " <>", "n." + e + " @ " + b + " <a@b>",
				k + "a@b", "a@b" + k, k, "n" + k + "<a@b" + k + ">",
			} {
				c.In = append(c.In, B(in))
			}
			add(c)
		}
	})}, Sub{Name: "dictionary-dates", Check: every(checkTotalD), Item: items(func(add func(*Case)) {
		for _, s := range append(tiny(), dictionary...) {
			c := &Case{}
			k := commented(s)
			for _, in := range []string{
				s, s + ", 1 Jan 2006 15:04", s + " Jan 2006 15:04", "1 " + s + " 2006 15:04", "1 Jan " + s + " 15:04", "1 Jan 2006 " + s + ":04", "1 Jan 2006 15:" + s, "1 Jan 2006 15:04:" + s,
				"1 Jan 2006 15:04 " + s, "1 Jan 2006 15:04 +" + s, "1 Jan 2006 15:04 GMT" + s, s + " 1 Jan 2006 15:04", "1 Jan 2006 " + s + " 15:04",
				k + "1 Jan 2006 15:04", "1" + k + "Jan 06 15" + k + ":04", "1 Jan 2006 15:04 +0000 " + k, k,
			} {
				c.In = append(c.In, B(in))
			}
			add(c)
		}
	})})

	x := Addr{"", "x@y"}
	z := Addr{"n", "z@z"}
	add("C04", Sub{Name: "dictionary", Check: checkEachList, Item: texted(func(s string, c *Case) {
		q := quote(s)
		c.eachList("x@y,"+q+" <a@b>, n <z@z>", x, Addr{B(s), "a@b"}, z)
		c.eachList("x@y;"+q+"@b; n <z@z>", x, Addr{"", B(s + "@b")}, z)
		if at := atomized(s); len(at) > 0 {
			w := B(strings.Join(at, " "))
			c.eachList(string(w)+" <a@b>,x@y,"+string(w)+" <a@b>", Addr{w, "a@b"}, x, Addr{w, "a@b"})
			c.eachList("x@y;"+at[0]+"@"+at[0]+";n <z@z>", x, Addr{"", B(at[0] + "@" + at[0])}, z)
			c.eachList(string(w)+":x@y;,n <z@z>", x, z)
			c.eachList("x@y, "+string(w)+":;; n <z@z>", x, z)
		}
		c.eachList("x@y "+commented(s)+",n <z@z> "+commented(s), x, z)
	})})

	add("C05", Sub{Name: "dictionary", Check: checkEachList, Item: texted(func(s string, c *Case) {
		// Every third name is tried with several members, every third one without any.
		names := []string{"g " + quote(s), qEncoded(s), "g " + commented(s)}
		if !strings.Contains(s, ":") {
			names = append(names, quote(s))
		}
		if at := atomized(s); len(at) > 0 {
			w := strings.Join(at, " ")
			names = append(names, w, w+" g", "g "+w, "g "+w+" h")
		}
		for i, n := range names {
			c.eachList(n+": x@y;", x)
			if i%3 == 0 {
				c.eachList(n+":n <z@z>, x@y;", z, x)
			}
			if i%3 == 1 {
				c.eachList(n + ":;")
			}
		}
		n := names[0]
		c.eachList("x@y, "+n+":n <z@z>", x, z)
		c.eachList("g: "+quote(s)+" <a@b>,"+quote(s)+"@b;", Addr{B(s), "a@b"}, Addr{"", B(s + "@b")})
		c.eachList("g: "+qEncoded(s)+" <a@b>;", Addr{B(s), "a@b"})
	})}, Sub{Name: "small-groups", Check: checkEachList, Item: items(func(add func(*Case)) {
		members := []struct {
			raw  string
			want []Addr
		}{
			{"a@b", []Addr{{"", "a@b"}}},
			{"n <c@d>", []Addr{{"n", "c@d"}}},
			{"<>", []Addr{{}}},
			{"n <>", []Addr{{Name: "n"}}},
			{"", nil},
			{"<@r:e@f>", []Addr{{"", "e@f"}}},
			{"\"q,\" <g@h>", []Addr{{"q,", "g@h"}}},
		}
		for n := 0; n <= 3; n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= len(members)
			}
			for k := 0; k < total; k++ {
				var parts []string
				var want []Addr
				for i, v := 0, k; i < n; i, v = i+1, v/len(members) {
					m := members[v%len(members)]
					parts, want = append(parts, m.raw), append(want, m.want...)
				}
				c := &Case{}
				s := "g:" + strings.Join(parts, ",")
				c.eachList(s+";", want...)
				if n == 0 || parts[n-1] != "" {
					c.eachList(s, want...)
				}
				if n < 3 {
					c.eachList("x@y,"+s+";, n <z@z>", append(append([]Addr{x}, want...), z)...)
				}
				add(c)
			}
		}
	})})

	add("C06", Sub{Name: "dictionary", Check: checkEach, Item: texted(func(s string, c *Case) {
		for _, name := range []string{s, "x " + s, s + " x", " " + s, s + "é"} {
			a := &mail.Address{Name: name, Address: "a@b"}
			c.each(a.String(), Addr{B(name), "a@b"})
		}
		local := strings.Map(func(r rune) rune {
			if r < 0x20 && r != '\t' || r == 0x7f {
				return -1
			}
			return r
		}, s)
		if local != "" {
			a := &mail.Address{Name: "n", Address: local + "@b"}
			c.each(a.String(), Addr{"n", B(local + "@b")})
		}
	})})

	add("C07", Sub{Name: "dictionary", Check: checkEachList, Item: texted(func(s string, c *Case) {
		k := commented(s)
		a, b, n := Addr{"", "a@b"}, Addr{"", "c@d"}, Addr{"n", "a@b"}
		for _, in := range []string{k + "a@b", "a@b" + k, "a" + k + "@b", "a@" + k + "b", "<a@b>" + k, "<" + k + "a@b>", "<a@b" + k + ">", k + " <a@b>"} {
			c.eachList(in, a)
		}
		for _, in := range []string{"n" + k + "<a@b>", k + "n <a@b>", "n <a@b> " + k, "n <a" + k + "@" + k + "b>"} {
			c.eachList(in, n)
		}
		c.eachList("n "+k+" m <a@b>", Addr{"n m", "a@b"})
		c.eachList("\"n\""+k+"m <a@b>", Addr{"n m", "a@b"})
		c.eachList("=?utf-8?q?n?="+k+"=?utf-8?q?m?= <a@b>", Addr{"nm", "a@b"})
		c.eachList("a@b "+k+", "+k+"c@d", a, b)
		c.eachList("a@b "+k+"; "+k+"c@d", a, b)
		c.eachList("g"+k+":"+k+"a@b,"+k+";"+k, a)
		c.eachList("g: " + k + ";")
	})})

	add("C08", Sub{Name: "dictionary", Check: checkEach, Item: texted(func(s string, c *Case) {
		q := quote(s)
		v := B(s)
		c.each(q+" <a@b>", Addr{v, "a@b"})
		c.each("n "+q+" <a@b>", Addr{"n " + v, "a@b"})
		c.each("n "+q+" m<a@b>", Addr{"n " + v + " m", "a@b"})
		c.each(q+"@b", Addr{"", v + "@b"})
		c.each("<"+q+"@b>", Addr{"", v + "@b"})
		c.each("l."+q+"@b", Addr{"", "l." + v + "@b"})
		c.each(q+"."+q+"@b", Addr{"", v + "." + v + "@b"})
		c.each(q+" <"+q+"@b>", Addr{v, v + "@b"})
		// Every character as a quoted pair.
		var all strings.Builder
		for _, r := range s {
			all.WriteString("\\" + string(r))
		}
		c.each("\""+all.String()+"\"<a@b>", Addr{v, "a@b"})
		c.each("\""+all.String()+"\"@b", Addr{"", v + "@b"})
	})}, Sub{Name: "local-part-words", Check: checkEach, Item: items(func(add func(*Case)) {
		// Obsolete local parts of up to four words.
		list := []struct{ raw, value string }{{"a", "a"}, {"\"b\"", "b"}, {"\" c \"", " c "}, {"\"\"", ""}, {"\"\\\"\"", "\""}, {"\"d.\"", "d."}, {"(k)e ", "e"}}
		for n := 2; n <= 4; n++ {
			k := len(list)
			if n == 4 {
				k = 4
			}
			total := 1
			for i := 0; i < n; i++ {
				total *= k
			}
			for i := 0; i < total; i++ {
				var raw, v []string
				for j, d := 0, i; j < n; j, d = j+1, d/k {
					raw, v = append(raw, list[d%k].raw), append(v, list[d%k].value)
				}
				c := &Case{}
				l, val := strings.Join(raw, "."), B(strings.Join(v, "."))
				c.each(l+"@h", Addr{"", val + "@h"})
				if n < 4 {
					c.each("n <"+l+"@h>", Addr{"n", val + "@h"})
				}
				add(c)
			}
		}
	})})

	add("C09", Sub{Name: "dictionary", Check: checkEach, Item: texted(func(s string, c *Case) {
		q := qEncoded(s)
		b := "=?UTF-8?B?" + base64.StdEncoding.EncodeToString([]byte(s)) + "?="
		v := B(s)
		c.each(q+" <a@b>", Addr{v, "a@b"})
		c.each(b+"<a@b>", Addr{v, "a@b"})
		c.each(q+" "+b+" <a@b>", Addr{v + v, "a@b"})
		c.each("n "+b+" m <a@b>", Addr{"n " + v + " m", "a@b"})
		c.each("\"n\" "+q+" \"m\" <a@b>", Addr{"n " + v + " m", "a@b"})
		if ascii(s) {
			c.each(strings.Replace(q, "utf-8", "ISO-8859-1", 1)+" "+strings.Replace(b, "UTF-8", "us-ascii", 1)+" <a@b>", Addr{v + v, "a@b"})
		}
		if cs := charsetToken(s); cs != "" {
			// A charset nothing is known of.
			w := "=?" + cs + "?q?x=41_?="
			c.each(w+" <a@b>", Addr{B(w), "a@b"})
			w = "=?utf-8?" + cs + "?x?="
			if len(cs) > 1 {
				c.each(w+" <a@b>", Addr{B(w), "a@b"})
			}
		}
	})})

	add("C10", Sub{Name: "dictionary", Item: texted(func(s string, c *Case) {
		cs := charsetToken(s)
		if cs == "" {
			cs = "x"
		}
		b64 := base64.StdEncoding.EncodeToString([]byte(s))
		v, _ := crValue(crHex, cs, s)
		c.each("=?"+strings.ToUpper(cs)+"?b?"+b64+"?= <a@b>", Addr{B(v), "a@b"})
		c.each("n =?"+cs+"?B?"+b64+"?= m <a@b>", Addr{B("n " + v + " m"), "a@b"})
		c.each("=?"+cs+"?b?"+b64+"?= =?"+cs+"?b?"+b64+"?= <a@b>", Addr{B(v + v), "a@b"})
	}), Check: func(c *Case) error {
		defer func() { rfc5322.CharsetReader = nil }()
		var calls []crCall
		rfc5322.CharsetReader = crReader(crHex, &calls)
		return checkEach(c)
	}})

	add("C11", Sub{Name: "dictionary", Check: checkEach, Item: texted(func(s string, c *Case) {
		at := atomized(s)
		if len(at) > 0 {
			w := at[0]
			j := strings.Join(at, ".")
			for _, a := range []string{w + "@b", "a@" + w, w + "." + w + "@" + w + "." + w, "x." + j + "@x." + j, j + ".y@" + j + ".", "x" + w + "@x" + w, w + "x@" + w + "x", "a@" + w + ":25", "a@b." + w} {
				c.each(a, Addr{"", B(a)})
				c.each("<"+a+">", Addr{"", B(a)})
			}
			c.each("n <@"+w+",@"+j+":"+w+"@"+j+">", Addr{"n", B(w + "@" + j)})
		}
		lit := strings.Map(func(r rune) rune {
			if r < 0x21 || r == 0x7f || strings.ContainsRune("[]\\", r) {
				return -1
			}
			return r
		}, s)
		for _, a := range []string{"a@[" + lit + "]", "a@[x" + lit + "y]", "\"a\"@[IPv6:" + lit + "]"} {
			c.each(a, Addr{"", B(strings.ReplaceAll(a, "\"a\"", "a"))})
		}
	})})

	add("C12", Sub{Name: "dictionary", Check: checkEach, Item: texted(func(s string, c *Case) {
		q := quote(s)
		v := B(s)
		c.each(q+" x <a@b>", Addr{v + " x", "a@b"})
		c.each("x "+q+" <a@b>", Addr{"x " + v, "a@b"})
		c.each(q+" "+q+" <a@b>", Addr{v + " " + v, "a@b"})
		c.each("x . "+q+" y <a@b>", Addr{"x." + v + " y", "a@b"})
		c.each(q+" <"+q+"@"+"b>", Addr{v, v + "@b"})
		if at := atomized(s); len(at) > 0 {
			w := B(strings.Join(at, " "))
			r := string(w)
			c.each(r+" <a@b>", Addr{w, "a@b"})
			c.each("x "+r+" <a@b>", Addr{"x " + w, "a@b"})
			c.each(r+" x <a@b>", Addr{w + " x", "a@b"})
			c.each(r+".x\t "+r+" <a@b>", Addr{w + ".x " + w, "a@b"})
			c.each("x @ "+r+"(k)y <a@b>", Addr{"x@" + w + " y", "a@b"})
			c.each("\"x\" "+r+" =?utf-8?q?y?= <a@b>", Addr{"x " + w + " y", "a@b"})
		}
	})}, Sub{Name: "name-and-address", Check: checkEach, Item: items(func(add func(*Case)) {
		// Names related to the address they stand before.
		for _, a := range []string{"ann@b.c", "a.b@b", "\"x y\"@b", "a@[1.2.3.4]", "b@b:25", "é@é"} {
			c := &Case{}
			v := strings.ReplaceAll(a, "\"", "")
			l, d, _ := strings.Cut(v, "@")
			for _, n := range []string{v, l, d, "<" + v + ">", "x <" + v + ">", "x [" + v + "]", "x (" + v + ")", "'" + v + "'", strings.ToUpper(v), l + " " + d, v + " " + v, l + " at " + d, "@" + d, l + "@", a, "mailto:" + v, v + ",", l + " (" + d + ")"} {
				c.each(quote(n)+" <"+a+">", Addr{B(n), B(v)})
				c.each(qEncoded(n)+" <"+a+">", Addr{B(n), B(v)})
				if at := atomized(n); len(at) > 0 {
					w := strings.Join(at, " ")
					c.each(w+" <"+a+">", Addr{B(w), B(v)})
				}
			}
			if !strings.ContainsAny(a, "[:\"") {
				c.each(a+" <"+a+">", Addr{B(v), B(v)})
			}
			add(c)
		}
	})})

	around := func(templates []string) func(int) *Case {
		return items(func(add func(*Case)) {
			for _, s := range dictionary {
				c := &Case{}
				for _, t := range templates {
					c.In = append(c.In, B(strings.ReplaceAll(t, "%", s)))
				}
				add(c)
			}
		})
	}
	// Lists of elements, in groups and outside.
	elements := func(kinds []string, frames []string, n int) func(int) *Case {
		return items(func(add func(*Case)) {
			for k := 1; k <= n; k++ {
				total := 1
				for i := 0; i < k; i++ {
					total *= len(kinds)
				}
				for v := 0; v < total; v++ {
					var parts []string
					for i, d := 0, v; i < k; i, d = i+1, d/len(kinds) {
						parts = append(parts, kinds[d%len(kinds)])
					}
					c := &Case{}
					for _, f := range frames {
						c.In = append(c.In, B(strings.Replace(f, "%", strings.Join(parts, ","), 1)))
					}
					add(c)
				}
			}
		})
	}
	kinds := []string{"a@b", "<>", "n <c@d>", "", "<@r:e@f>", "g:"}
	frames := []string{"%", "g:%;", "g:%", "x@y,g: %;,<z@z>", "\"g:%\";"}
	add("C21", Sub{Name: "elements", Check: every(func(c *Case) error { return reading(c, false) }), Item: elements(kinds, frames, 3)},
		Sub{Name: "elements-4", Check: every(func(c *Case) error { return reading(c, false) }), Item: elements(kinds[:4], frames, 4), OnlyThorough: true})
	add("C13", Sub{Name: "elements", Check: every(func(c *Case) error { return reading(c, true) }), Item: elements(append(kinds, ";", "n"), frames, 2)})

	places := []string{"%", "%@b", "a@%", "% <a@b>", "n % <a@b>", "n <a@b> %", "\"%\" <a@b>", "(%)a@b", "g%:a@b;", "g:%;", "a@b,%", "a@b;%", "<@%:a@b>", "a@[%]", "=?utf-8?q?%?= <a@b>", "=?%?q?x?= <a@b>", "=?utf-8?%?x?= <a@b>", "\\%", "a@b:%", "<%>", "%,%", "a.%@b", "n.% <a@b>"}
	add("C13", Sub{Name: "dictionary", Check: every(func(c *Case) error { return reading(c, true) }), Item: around(places)})
	add("C21", Sub{Name: "dictionary", Check: every(func(c *Case) error { return reading(c, false) }), Item: around(places)})

	add("C14", Sub{Name: "dictionary", Check: every(Find("C14").Subs[0].Check), Item: texted(func(s string, c *Case) {
		q := quote(strings.Map(func(r rune) rune {
			if r < 0x20 && r != '\t' || r == 0x7f {
				return -1
			}
			return r
		}, s))
		c.In = append(c.In, B(q+" <a@b>"), B(q+"@b"), B("n "+q+" <a@b>, "+q+" <c@d>"), B(qEncoded(s)+" <a@b>"), B("g: "+q+" <a@b>;"), B(q+":a@b, c@d;"))
		if at := atomized(s); len(at) > 0 {
			w := strings.Join(at, " ")
			c.In = append(c.In, B(w+" <a@b>"), B(at[0]+"@"+at[0]), B("n "+w+" <"+at[0]+"@b>"), B(w+":a@b;"), B("x@y, "+w+" m <a@b>"))
		}
	})})

	// Dates: each text as a comment in each place where one may stand.
	type form struct {
		parts []string
		d     spec.Date
	}
	base := spec.Date{Year: 2021, Month: 12, Day: 9, Hour: 4, Min: 5, Sec: 6}
	noSec := base
	noSec.Sec = 0
	est := base
	est.Off = -5 * 3600
	east := base
	east.Off, east.Hour = 5400, 11
	forms := []form{
		{[]string{"", "9", "Dec ", "2021", " ", "4", ":", "05", ":", "06", ""}, base},
		{[]string{"", "Thu", ",", "09", "Dec 2021 ", "04", ":", "05", ""}, noSec},
		{[]string{"", "9", "Dec", "21 ", "4", ":", "05", ":", "06", "EST", ""}, est},
		{[]string{"", "Thu,", " 9 ", "dec", " 2021 ", "11", ":", "05", ":", "06", " +0130", ""}, east},
	}
	// Where a comment may stand in each form: before part i.
	holes := [][]int{{1, 2, 5, 6, 7, 8, 9, 11}, {1, 2, 3, 4, 5, 6, 7, 9}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 11}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 12}}
	add("C17", Sub{Name: "dictionary", Check: checkEachD, Item: texted(func(s string, c *Case) {
		k := commented(s)
		for fi, f := range forms {
			for _, h := range holes[fi] {
				for _, k := range []string{k, " " + k} {
					in := strings.Join(f.parts[:min(h, len(f.parts))], "") + k + strings.Join(f.parts[min(h, len(f.parts)):], "")
					if _, ok, err := spec.Time(in); err == nil && ok {
						c.eachD(in, f.d)
					}
				}
			}
		}
	})})
	dates := []string{"%9 Dec 2021 04:05", "9 Dec 2021 04:05:06 %", "9 Dec 2021 04:05:06%", "9 Dec 2021 4:05 +%", "%, 9 Dec 2021 04:05", "9 % 2021 04:05", "9 Dec % 04:05", "% Dec 2021 04:05", "9 Dec 2021 %:05", "9 Dec 2021 04:%", "9 Dec 2021 04:05:%", "%", "9 Dec 2021 04:05 (%)", "9%Dec 2021 04:05", "9 Dec%2021 04:05", "9 Dec 2021%04:05", "9 Dec 2021 04%05"}
	add("C18", Sub{Name: "dictionary", Check: every(checkDateLanguage), Item: around(dates)})

	// The numbers of the source, as the numbers of dates and as sizes.
	add("C15", Sub{Name: "numbers", Check: checkEachD, Item: items(func(add func(*Case)) {
		var years []int
		for _, n := range numbers(0, 9999) {
			years = append(years, n)
			if n < 100 {
				years = append(years, 1900+n, 2000+n, 2100+n)
			}
		}
		for _, y := range years {
			for m := 1; m <= 12; m++ {
				c := &Case{}
				for _, day := range []int{1, 28, 29, 30, 31} {
					for _, h := range []int{0, 12, 23} {
						d := spec.Date{Year: y, Month: m, Day: day, Hour: h, Min: 59, Sec: 59, Off: 3600}
						if valid(d) {
							c.eachD(fmt.Sprintf("%s, %d %s %04d %02d:59:59 +0100", weekday(d), day, monthText[m-1], y, h), d)
						}
					}
				}
				add(c)
			}
		}
	})})
	sized := func(limit int, f func(n int, c *Case)) func(int) *Case {
		return items(func(add func(*Case)) {
			for _, n := range numbers(1, limit) {
				c := &Case{}
				f(n, c)
				add(c)
			}
		})
	}
	rep := strings.Repeat
	times := func(n int, list ...Addr) (out []Addr) {
		for ; n > 0; n-- {
			out = append(out, list...)
		}
		return
	}
	a := Addr{"", "a@b"}
	add("C01", Sub{Name: "numbers", Check: every(checkTotalA), Item: sized(300, func(n int, c *Case) {
		// Characters of two and three bytes across every boundary.
		in := func(list ...string) {
			for _, s := range list {
				c.In = append(c.In, B(s))
			}
		}
		for k := 0; k < 2; k++ {
			t := rep("x", k) + rep("é", (n-k)/2+1)
			in(t+" <a@b>", "\""+t+"\"<a@b>", t+"@b", "a@"+t)
		}
		for k := 0; k < 3; k++ {
			in(rep("x", k) + rep("あ", n/3+1) + " <a@b>")
		}
		if n <= 60 {
			in(rep("a@b,", n), rep("\"\"", n), rep("<", n), rep("(", n), "a@"+rep("[", n), rep("a:", n), rep("=?x?q??=", n)+"<a@b>")
		}
	})}, Sub{Name: "numbers-large", Check: every(checkTotalA), Item: items(func(add func(*Case)) {
		seen := map[int]bool{}
		for _, n := range minedNums {
			if n <= 300 || n > 2100 || seen[n] {
				continue
			}
			seen[n] = true
			for _, s := range []string{"\"" + rep("x ", n/2+2) + "\"<a@b>", rep("xé", n/3+2) + "<a@b>", "\"" + rep("\\\"", n+2) + "\"@b", "a@[" + rep("x ", n/2+2) + "]", rep("x ", n/2+2) + "<a@b>", "a@" + rep("x.", n/2+2) + "y", "=?utf-8?q?" + rep("x", n+2) + "?=<a@b>"} {
				add(&Case{In: []B{B(s)}})
			}
		}
	})}, Sub{Name: "numbers-dates", Check: every(checkTotalD), Item: sized(300, func(n int, c *Case) {
		for _, s := range []string{rep("1", n) + " Jan 2000 12:00", "1 Jan " + rep("2", n) + " 12:00", "1 Jan 2000 12:" + rep("0", n), "1 Jan 2000 12:00 +" + rep("9", n), "1 Jan 2000 12:00 " + rep("(", n), "1 Jan 2000 12:00 " + rep("(", min(n, 60)) + rep(")", min(n, 60)), rep("Mon,", n)} {
			c.In = append(c.In, B(s))
		}
	})})
	lists := func(n int) (out []string) {
		x := rep("x", n)
		out = []string{x + "@b", "a@" + x, x + "@" + x + ".com", x + "." + x + "@b", "n <" + x + "@b>", x + " <a@b>", x + " <" + x + "@b>", "\"" + rep("x ", n/2) + "\" <a@" + x + ">", "\"" + x + "\"@b",
			"=?utf-8?q?" + x + "?= <a@b>", rep("x ", n/2+1) + "<a@b>", x + ": a@b;", "g: " + x + "@b, " + x + " <c@d>;"}
		if n <= 60 {
			m := strings.TrimSuffix(rep("a@b, ", n), ", ")
			out = append(out, m, "g: "+m+";", "x: "+m+";, y: "+m+";, z@z", strings.TrimSuffix(rep("g: a@b, c@d;, ", n/2+1), ", "), rep("=?utf-8?q?x?= ", n/2+1)+"<a@b>")
		}
		return
	}
	add("C06", Sub{Name: "numbers", Check: checkEachList, Item: sized(300, func(n int, c *Case) {
		for _, t := range []string{"x", "é", "x ", " ", "\"", "\\", "'", "😀"} {
			v := rep(t, n/len(t)+1)
			c.eachList((&mail.Address{Name: v, Address: "a@b"}).String(), Addr{B(v), "a@b"})
			if t[0] < 128 {
				c.eachList((&mail.Address{Name: "n", Address: v + "@b"}).String(), Addr{"n", B(v + "@b")})
			}
		}
	})})
	strict := Find("C14").Subs[0].Check
	add("C14", Sub{Name: "numbers", Check: every(strict), Item: sized(300, func(n int, c *Case) {
		for _, s := range lists(n) {
			c.In = append(c.In, B(s))
		}
	})})
	for _, id := range []string{"C13", "C21"} {
		add(id, Sub{Name: "numbers", Check: every(func(c *Case) error { return reading(c, id == "C13") }), Item: sized(100, func(n int, c *Case) {
			x := rep("x", n)
			for _, s := range []string{x + "@" + x, x + " <" + x + "@b>", "g:" + rep("a@b,", n/2) + "c@d;" + rep(",", n), "x" + rep("(y)", n/2+1) + "<a@[" + x + "]:" + rep("1", n) + ">", "x" + rep(".", n) + " <" + rep("@r,", n/2) + "@s:a@b>", rep(" ", n) + "a@b" + rep(" ", n), rep("\"x\".", n/2) + "a@b"} {
				c.In = append(c.In, B(s))
				if id == "C13" { // and the same cut off
					c.In = append(c.In, B(s[:len(s)-1]), B(s[1:]))
				}
			}
		})})
	}
	add("C17", Sub{Name: "numbers", Check: checkEachD, Item: sized(300, func(n int, c *Case) {
		d := spec.Date{Year: 2001, Month: 2, Day: 3, Hour: 4, Min: 5, Sec: 6, Off: 3600}
		w, k := rep(" ", n), "("+rep("x", n)+")"
		for _, s := range []string{w + "3 Feb 2001 04:05:06 +0100", "3" + w + "Feb 2001 04:05:06 +0100", "3 Feb" + w + "2001 04:05:06 +0100", "3 Feb 2001" + w + "04:05:06 +0100", "3 Feb 2001 04:05:06" + w + "+0100", "3 Feb 2001 04:05:06 +0100" + w,
			"3 Feb 2001 04:05:06 +0100 " + k, k + " 3 Feb 2001 04:05:06 +0100", "3 Feb 2001 04 " + k + ":05:06 +0100", "Sat" + k + ", 3 Feb 2001 04:05:06 +0100", "3 Feb 2001 04:05:06 +0100 " + rep("(x)", n/2+1)} {
			c.eachD(s, d)
		}
	})})
	add("C04", Sub{Name: "numbers", Check: checkEachList, Item: sized(300, func(n int, c *Case) {
		c.eachList(strings.TrimSuffix(rep("a@b,", n), ","), times(n, a)...)
		c.eachList(strings.TrimSuffix(rep("n <z@z>; ", n), "; "), times(n, z)...)
		c.eachList(rep(",", n)+"a@b"+rep(",", n)+"x@y", a, x)
		if n <= 40 {
			c.eachList(strings.TrimSuffix(rep("g:a@b,x@y;,", n), ","), times(n, a, x)...)
			g := "g:" + strings.TrimSuffix(rep("a@b,", n), ",") + ";"
			c.eachList(g, times(n, a)...)
			c.eachList("x@y,"+g+",n <z@z>", append(append([]Addr{x}, times(n, a)...), z)...)
		}
	})})
	add("C05", Sub{Name: "numbers", Check: checkEachList, Item: sized(60, func(n int, c *Case) {
		c.eachList("g:"+strings.TrimSuffix(rep("a@b,", n), ",")+";", times(n, a)...)
		c.eachList("g:"+rep(",", n)+"a@b;", a)
		c.eachList(rep("g ", n)+":a@b;", a)
		c.eachList(rep("g", n)+":a@b;", a)
		c.eachList("\"g:"+strings.TrimSuffix(rep("a@b,", min(n, 25)), ",")+"\";", times(min(n, 25), a)...)
	})})
	add("C07", Sub{Name: "numbers", Check: checkEachList, Item: sized(300, func(n int, c *Case) {
		for _, k := range []string{"(" + rep("x", n) + ")", rep("(", min(n, 150)) + rep(")", min(n, 150)), rep("(x)", n/2+1), rep(" ", n), rep("(\\))", n/2+1), "(" + rep("()", n/2+1) + ")", rep("(x)\r\n ", n/4+1)} {
			c.eachList("a@b"+k, a)
			c.eachList(k+"a@b", a)
			c.eachList("a"+k+"@b", a)
			c.eachList("n"+k+"<z@z>", z)
		}
	})})
	add("C08", Sub{Name: "numbers", Check: checkEachList, Item: sized(300, func(n int, c *Case) {
		for _, p := range [][2]string{{"x", "x"}, {"\\\"", "\""}, {"é", "é"}, {" x", " x"}, {"\\\\", "\\"}, {" ", " "}} {
			if p[0] == " " && n > 150 {
				continue
			}
			v := rep(p[1], n)
			c.eachList("\""+rep(p[0], n)+"\" <a@b>", Addr{B(v), "a@b"})
			c.eachList("\""+rep(p[0], n)+"\"@b", Addr{"", B(v + "@b")})
		}
		if n <= 60 {
			c.eachList(strings.TrimSuffix(rep("\" x\".", n), ".")+"@b", Addr{"", B(strings.TrimSuffix(rep(" x.", n), ".") + "@b")})
		}
	})})
	add("C09", Sub{Name: "numbers", Check: checkEachList, Item: sized(200, func(n int, c *Case) {
		c.eachList("=?utf-8?q?"+rep("x", n)+"?= <a@b>", Addr{B(rep("x", n)), "a@b"})
		c.eachList("=?utf-8?b?"+base64.StdEncoding.EncodeToString([]byte(rep("é", n)))+"?= <a@b>", Addr{B(rep("é", n)), "a@b"})
		if n <= 60 {
			c.eachList(rep("=?utf-8?q?x?= ", n)+"<a@b>", Addr{B(rep("x", n)), "a@b"})
			c.eachList(rep("=?utf-8?q?x?= y ", n/2+1)+"<a@b>", Addr{B(strings.TrimSuffix(rep("x y ", n/2+1), " ")), "a@b"})
		}
	})})
	add("C11", Sub{Name: "numbers", Check: checkEachList, Item: sized(300, func(n int, c *Case) {
		for _, s := range []string{rep("x", n) + "@b", "a@" + rep("x", n), rep("é", n) + "@b", "a@[" + rep("x", n) + "]", "a@b:" + rep("1", n), rep("x.", n/2+1) + "y@b", "a@" + rep("x.", n/2+1) + "y", fmt.Sprintf("a@b:%d", n)} {
			c.eachList(s, Addr{"", B(s)})
			c.eachList("n <"+s+">", Addr{"n", B(s)})
		}
		c.eachList(rep("x", n)+"@"+rep("y", n), Addr{"", B(rep("x", n) + "@" + rep("y", n))})
		c.eachList("n <"+rep("x", n)+"@"+rep("y.", n/2)+"z:25>", Addr{"n", B(rep("x", n) + "@" + rep("y.", n/2) + "z:25")})
		if n <= 60 {
			c.eachList("<"+strings.TrimSuffix(rep("@r,", n), ",")+":a@b>", a)
		}
	})})
	add("C12", Sub{Name: "numbers", Check: checkEachList, Item: sized(200, func(n int, c *Case) {
		c.eachList(rep("x", n)+" <a@b>", Addr{B(rep("x", n)), "a@b"})
		c.eachList(rep("x", n)+" <"+rep("a", n)+"@b>", Addr{B(rep("x", n)), B(rep("a", n) + "@b")})
		c.eachList(rep("é", n)+" <a@b>", Addr{B(rep("é", n)), "a@b"})
		c.eachList(rep("x ", n)+"<a@b>", Addr{B(strings.TrimSuffix(rep("x ", n), " ")), "a@b"})
		c.eachList("n"+rep(" ", n)+"m <a@b>", Addr{"n m", "a@b"})
		if n <= 40 {
			c.eachList("n "+rep(".", n)+" <a@b>", Addr{B("n" + rep(".", n)), "a@b"})
			c.eachList(rep("\"x\" ", n)+"<a@b>", Addr{B(strings.TrimSuffix(rep("x ", n), " ")), "a@b"})
			c.eachList("n "+rep("x.", n/2+1)+" m <a@b>", Addr{B("n " + rep("x.", n/2+1) + "m"), "a@b"})
		}
	})})
}
