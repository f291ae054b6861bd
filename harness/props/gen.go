package props

import (
	"encoding/base64"
	"fmt"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verifharness/spec"
)

// gen draws everything from rapid, so that a failing case shrinks. Its choices are uniform (rapid's
// own index choices prefer small values); the all-zero choice is the simplest one.
type gen struct{ t *rapid.T }

var boolGen = rapid.Bool()

func (g gen) bit() bool { return boolGen.Draw(g.t, "") }

// n picks uniformly from 0..k-1.
func (g gen) n(k int) int {
	if k <= 1 {
		return 0
	}
	bits := 6
	for 1<<(bits-6) < k {
		bits++
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if g.bit() {
			v |= 1
		}
	}
	return v * k >> bits
}

// rng picks uniformly from lo..hi.
func (g gen) rng(lo, hi int) int { return lo + g.n(hi-lo+1) }

// pct is true in p of 100 cases.
func (g gen) pct(p int) bool { return g.n(100) >= 100-p }

// What a case had so far, by kind: relations between parts of an input matter, and parts made
// independently are hardly ever the same.
var soFar struct {
	t     *rapid.T
	parts map[string][]any
}

func remember[T any](g gen, kind string, v T) T {
	m := &soFar
	if m.t != g.t {
		m.t, m.parts = g.t, map[string][]any{}
	}
	if len(m.parts[kind]) < 8 {
		m.parts[kind] = append(m.parts[kind], v)
	}
	return v
}

// again gives, in p of 100 cases, a part this case has already.
func again[T any](g gen, kind string, p int) (v T, ok bool) {
	m := &soFar
	if m.t != g.t || len(m.parts[kind]) == 0 || !g.pct(p) {
		return v, false
	}
	list := m.parts[kind]
	return list[g.n(len(list))].(T), true
}

// geo gives lo plus a number of steps, each taken with probability p percent, up to hi.
func (g gen) geo(lo, hi, p int) int {
	for lo < hi && g.pct(p) {
		lo++
	}
	return lo
}

func (g gen) pick(list ...string) string { return list[g.n(len(list))] }

func (g gen) pick2(a, b int) int { return []int{a, b}[g.n(2)] }

func (g gen) runeOf(s []rune) rune { return s[g.n(len(s))] }

// weighted picks an index with the given weights.
func (g gen) weighted(w ...int) int {
	sum := 0
	for _, v := range w {
		sum += v
	}
	k := g.n(sum)
	for i, v := range w {
		if k < v {
			return i
		}
		k -= v
	}
	panic("unreachable")
}

var (
	lower     = []rune("abcdefghijklmnopqrstuvwxyz")
	alnum     = []rune("aAbBcCdDeEfFgGhHiIjJkKlLmMnNoOpPqQrRsStTuUvVwWxXyYzZ0123456789")
	atextSpec = []rune("!#$%&'*+-/=?^_`{|}~")
	noWSCTL   = []rune("\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f")
)

// wide gives a non-ASCII character.
func (g gen) wide() rune {
	if g.pct(50) {
		return g.runeOf(spec.NonASCII)
	}
	switch g.n(4) {
	case 0:
		return rune(g.rng(0x80, 0x7ff))
	case 1:
		return rune(g.rng(0x800, 0xd7ff))
	case 2:
		return rune(g.rng(0xe000, 0xffff))
	}
	return rune(g.rng(0x10000, 0x10ffff))
}

func (g gen) atext() rune {
	switch g.weighted(66, 18, 16) {
	case 1:
		return g.runeOf(atextSpec)
	case 2:
		return g.wide()
	}
	return g.runeOf(alnum)
}

// words are atoms that mean something somewhere, though not here.
var words = strings.Fields("localhost root postmaster MAILER-DAEMON undisclosed-recipients nil null NULL None undefined NaN Inf true 0 00 007 -1 1e9 0x1F " +
	"%s %d %v %00 %40 %2e %C3%A9 &amp &#64 user+tag +tag - -- --- _ __ $ $1 {} ${x} `x` * ** / /dev/null ~ | ^ ! # #1 'quoted' O'Brien a'b ' '' = == a=b =41 =C3=A9 " +
	"xn--bcher-kva xn--p1ai XN--P1AI example invalid test com mailto http smtp IPv6 UTF8 utf-8 us-ascii iso-8859-1 via on behalf of and the Re Fwd Mr Dr Jr II " +
	"Jan Mon GMT UT 2006 12 A a B AND OR select null-- googlemail gmail MX www")

// wideWords are atoms with characters which something may normalise.
var wideWords = []string{"e\u0301", "é", "ﬁ", "ǅ", "İstanbul", "straße", "STRASSE", "ſ", "Å", "Å", "Ω", "¼", "①", "㎏", "가", "\u1100\u1161", "👨\u200d👩\u200d👧", "🇩🇪",
	"a\u00adb", "a\u200bb", "\ufeffx", "x\ufe0f", "ａｂｃ", "٣", "१२", "β\u0345", "ς", "Σ", "\u202ea", "à\u0316", "\u2028", "\u00a0", "\u3000", "…", "。", "．", "＠", "，", "“q”", "‹›", "（c）"}

// atom never contains "=?", which could start an encoded word.
func (g gen) atom(max int) string {
	if v, ok := again[string](g, "atom", 9); ok {
		if g.pct(25) {
			return mixCase(g, v)
		}
		return v
	}
	return remember(g, "atom", g.atomNew(max))
}

func (g gen) atomNew(max int) string {
	if g.pct(7) {
		switch g.n(3) {
		case 0:
			return g.pick(words...)
		case 1:
			return g.pick(minedAtoms...)
		}
		return g.pick(wideWords...)
	}
	if g.pct(3) { // long
		max *= 6
	}
	var b []rune
	for n := g.geo(1, max, 72); n > 0; n-- {
		r := g.atext()
		if r == '?' && len(b) > 0 && b[len(b)-1] == '=' {
			r = 'x'
		}
		b = append(b, r)
	}
	return string(b)
}

// plain is an ASCII atom, with letters and digits only most of the time.
func (g gen) plain(max int) string {
	if v, ok := again[string](g, "plain"+bucket(max), 7); ok {
		if g.pct(25) {
			return mixCase(g, v)
		}
		return v
	}
	return remember(g, "plain"+bucket(max), g.plainNew(max))
}

func (g gen) plainNew(max int) string {
	if max > 2 && g.pct(4) {
		return g.pick(words...)
	}
	if max > 1 && g.pct(2) {
		if w := g.pick(minedAtoms...); ascii(w) {
			return w
		}
	}
	var b []rune
	for n := g.geo(1, max, 70); n > 0; n-- {
		b = append(b, g.runeOf(alnum))
	}
	return string(b)
}

// dotAtom may end in a period.
func (g gen) dotAtom() string {
	if v, ok := again[string](g, "dotAtom", 8); ok {
		return v
	}
	return remember(g, "dotAtom", g.dotAtomNew())
}

func (g gen) dotAtomNew() string {
	s := g.atom(5)
	for n := g.geo(0, 3, 45); n > 0; n-- {
		s += "." + g.atom(4)
	}
	if g.pct(8) {
		s += "."
	}
	return s
}

func (g gen) wsp(lo, hi int) string {
	var b strings.Builder
	for n := g.geo(lo, hi, 30); n > 0; n-- {
		if g.pct(30) {
			b.WriteByte('\t')
		} else {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// fws is folding white space: one line break at most.
func (g gen) fws() string {
	if g.pct(35) {
		return g.wsp(0, 2) + "\r\n" + g.wsp(1, 3)
	}
	return g.wsp(1, 3)
}

var ctextASCII = func() (s []rune) {
	for r := rune(0x21); r < 0x7f; r++ {
		if r != '(' && r != ')' && r != '\\' {
			s = append(s, r)
		}
	}
	return
}()

// traps is text that means something outside comments and quotes.
var traps = []string{
	",", ";", ":", "@", "<", ">", "\"", ".", "<a@b>", "x@y,", "a@b", ";,", "A:", "=?utf-8?q?x?=",
	"[1.2.3.4]", "Jan", "12", "99", "+0100", "GMT", "Mon,", "::", "\"\"", "=?", "?=",
}

// comment is a comment, nested up to depth levels.
func (g gen) comment(depth int) string {
	var b strings.Builder
	if g.pct(12) {
		return commented(g.pick(dictionary...))
	}
	b.WriteByte('(')
	for n := g.geo(0, 5, 55); n > 0; n-- {
		if g.pct(20) {
			b.WriteString(g.fws())
		}
		switch g.weighted(50, 18, 10, 6, 4, 12) {
		case 0:
			b.WriteRune(g.runeOf(ctextASCII))
		case 1:
			b.WriteString(g.pick(traps...))
		case 2:
			b.WriteRune(g.wide())
		case 3:
			b.WriteRune(g.runeOf(noWSCTL))
		case 4:
			raw, _ := g.quotedPair()
			b.WriteString(raw)
		case 5:
			if depth > 0 {
				b.WriteString(g.comment(depth - 1))
			} else {
				b.WriteByte('x')
			}
		}
	}
	if g.pct(20) {
		b.WriteString(g.fws())
	}
	b.WriteByte(')')
	return b.String()
}

// cfws is comments and folding white space, not empty.
func (g gen) cfws() string {
	if g.pct(40) {
		return g.fws()
	}
	var s string
	for n := g.geo(1, 3, 25); n > 0; n-- {
		if g.pct(40) {
			s += g.fws()
		}
		s += g.comment(2)
	}
	if g.pct(40) {
		s += g.fws()
	}
	return s
}

// optCFWS is empty in 100-p of 100 cases.
func (g gen) optCFWS(p int) string {
	if g.pct(p) {
		return g.cfws()
	}
	return ""
}

// quotedPair gives a quoted pair and the character it stands for.
func (g gen) quotedPair() (raw, value string) {
	var r rune
	switch g.weighted(35, 35, 10, 8, 8, 4) {
	case 0:
		r = g.runeOf([]rune{'"', '\\'})
	case 1:
		r = rune(g.rng(0x21, 0x7e))
	case 2:
		r = g.runeOf([]rune{' ', '\t'})
	case 3:
		r = g.wide()
	case 4:
		r = g.runeOf(noWSCTL)
	case 5:
		r = g.runeOf([]rune{0, '\r', '\n'})
	}
	return "\\" + string(r), string(r)
}

var qtextASCII = func() (s []rune) {
	for r := rune(0x21); r < 0x7f; r++ {
		if r != '"' && r != '\\' {
			s = append(s, r)
		}
	}
	return
}()

// quoted gives a quoted string and what it stands for.
func (g gen) quoted() (raw, value string) {
	if v, ok := again[[2]string](g, "quoted", 8); ok {
		return v[0], v[1]
	}
	raw, value = g.quotedNew()
	remember(g, "quoted", [2]string{raw, value})
	return
}

func (g gen) quotedNew() (raw, value string) {
	if g.pct(8) {
		s := g.shaped()
		return quote(s), s
	}
	var b, v strings.Builder
	b.WriteByte('"')
	white := func(p int) {
		if g.pct(p) {
			s := g.fws()
			b.WriteString(s)
			v.WriteString(strings.Replace(s, "\r\n", "", 1))
		}
	}
	max := 6
	if g.pct(3) {
		max = 40
	}
	for n := g.geo(0, max, 70); n > 0; n-- {
		white(20)
		switch g.weighted(45, 15, 20, 12, 5) {
		case 0:
			r := g.runeOf(qtextASCII)
			b.WriteRune(r)
			v.WriteRune(r)
		case 1:
			s := strings.NewReplacer("\"", "(").Replace(g.pick(traps...))
			b.WriteString(s)
			v.WriteString(s)
		case 2:
			raw, val := g.quotedPair()
			b.WriteString(raw)
			v.WriteString(val)
		case 3:
			r := g.wide()
			b.WriteRune(r)
			v.WriteRune(r)
		case 4:
			r := g.runeOf(noWSCTL)
			b.WriteRune(r)
			v.WriteRune(r)
		}
	}
	white(20)
	b.WriteByte('"')
	return b.String(), v.String()
}

var dtextASCII = func() (s []rune) {
	for r := rune(0x21); r < 0x7f; r++ {
		if r != '[' && r != ']' && r != '\\' {
			s = append(s, r)
		}
	}
	return
}()

// literal gives a domain literal and its value.
func (g gen) literal() (raw, value string) {
	if v, ok := again[[2]string](g, "literal", 10); ok {
		return v[0], v[1]
	}
	raw, value = g.literalNew()
	remember(g, "literal", [2]string{raw, value})
	return
}

func (g gen) literalNew() (raw, value string) {
	switch g.n(6) {
	case 0:
		s := fmt.Sprintf("[%d.%d.%d.%d]", g.n(256), g.n(256), g.n(256), g.n(256))
		return s, s
	case 1:
		s := g.pick("[IPv6:::1]", "[IPv6:2001:db8::ff00:42:8329]", "[::]", "[tag:x]", "[IPv6:2001:0DB8:0:0::0001]", "[IPv6:0:0:0:0:0:0:0:1]", "[ipv6:::FFFF:1.2.3.4]",
			"[127.0.0.1]", "[010.001.00.0]", "[256.0.0.999]", "[1.2.3]", "[1.2.3.4.5]", "[0x7f.1]", "[localhost]", "[IPv4:1.2.3.4]", "[]", "[ ]", "[%41]", "[xn--p1ai]")
		return s, s
	}
	var b strings.Builder
	b.WriteByte('[')
	for n := g.geo(0, 8, 75); n > 0; n-- {
		if g.pct(18) {
			b.WriteString(g.fws())
		}
		if g.pct(12) {
			b.WriteRune(g.wide())
		} else {
			b.WriteRune(g.runeOf(dtextASCII))
		}
	}
	if g.pct(18) {
		b.WriteString(g.fws())
	}
	b.WriteByte(']')
	return b.String(), strings.ReplaceAll(b.String(), "\r\n", "")
}

// opts says how decorated generated text is.
type opts struct {
	cfws int // percentage of places that get CFWS
}

func (g gen) at(o opts) string { return g.optCFWS(o.cfws) }

// piece is generated text together with what it stands for.
type piece struct {
	raw, value string
	kind       string
}

func (g gen) local(o opts) piece {
	if v, ok := again[piece](g, fmt.Sprint("local", o.cfws), 8); ok {
		return v
	}
	return remember(g, fmt.Sprint("local", o.cfws), g.localNew(o))
}

func (g gen) localNew(o opts) piece {
	switch g.weighted(55, 25, 20) {
	case 1:
		raw, v := g.quoted()
		return piece{g.at(o) + raw + g.at(o), v, "local:quoted"}
	case 2:
		// The obsolete form: words joined by periods.
		var raw, v string
		n := g.rng(2, 4)
		for i := 0; i < n; i++ {
			if i > 0 {
				raw += "."
				v += "."
			}
			w, wv := "", ""
			if g.pct(45) {
				w, wv = g.quoted()
			} else {
				w = g.atom(4)
				wv = w
			}
			raw += g.at(o) + w + g.at(o)
			v += wv
		}
		return piece{raw, v, "local:words"}
	}
	s := g.dotAtom()
	return piece{g.at(o) + s + g.at(o), s, "local:dot-atom"}
}

func (g gen) domain(o opts) piece {
	if v, ok := again[piece](g, fmt.Sprint("domain", o.cfws), 12); ok {
		return v
	}
	return remember(g, fmt.Sprint("domain", o.cfws), g.domainNew(o))
}

func (g gen) domainNew(o opts) piece {
	if g.pct(25) {
		raw, v := g.literal()
		return piece{g.at(o) + raw + g.at(o), v, "domain:literal"}
	}
	s := g.dotAtom()
	return piece{g.at(o) + s + g.at(o), s, "domain:dot-atom"}
}

// addrSpec gives an addr-spec with its value.
func (g gen) addrSpec(o opts, c *Case) piece {
	if v, ok := again[piece](g, fmt.Sprint("addrSpec", o.cfws), 7); ok {
		return v
	}
	return remember(g, fmt.Sprint("addrSpec", o.cfws), g.addrSpecNew(o, c))
}

func (g gen) addrSpecNew(o opts, c *Case) piece {
	l, d := g.local(o), g.domain(o)
	p := piece{raw: l.raw + "@" + d.raw, value: l.value + "@" + d.value}
	c.label(l.kind)
	c.label(d.kind)
	if g.pct(12) {
		port := ":"
		digits := g.rng(1, 6)
		if g.pct(10) {
			digits = g.rng(7, 24)
		}
		for n := digits; n > 0; n-- {
			port += string(rune('0' + g.n(10)))
		}
		p.raw += port
		p.value += port
		p.kind = "port"
		c.label("port")
	}
	return p
}

// route is the source route of an obsolete angle address, with its colon.
func (g gen) route(o opts) string {
	var s string
	for n := g.geo(0, 2, 20); n > 0; n-- {
		if g.bit() {
			s += ","
		} else {
			s += g.at(o) + ","
		}
	}
	s += g.at(o) + "@" + g.domain(o).raw
	for n := g.geo(0, 3, 35); n > 0; n-- {
		s += "," + g.at(o)
		if g.pct(80) {
			s += "@" + g.domain(o).raw
		}
	}
	return s + ":"
}

// angle gives an angle address.
func (g gen) angle(o opts, c *Case) piece {
	if g.pct(5) {
		c.label("angle:empty")
		return piece{raw: g.at(o) + "<>" + g.at(o)}
	}
	a := g.addrSpec(o, c)
	if g.pct(15) {
		c.label("angle:route")
		return piece{raw: g.at(o) + "<" + g.route(o) + a.raw + ">" + g.at(o), value: a.value}
	}
	c.label("angle:plain")
	return piece{raw: g.at(o) + "<" + a.raw + ">" + g.at(o), value: a.value}
}

// encWord is an RFC 2047 encoded word and its meaning.
type encWord struct{ raw, value string }

// encChars are characters of decoded texts: the ones that matter in headers, and others.
func (g gen) encText(latin bool, max int) string {
	if g.pct(6) {
		if s := g.shaped(); !latin || ascii(s) {
			return s
		}
	}
	var b []rune
	for n := g.geo(1, max, 75); n > 0; n-- {
		switch g.weighted(42, 20, 20, 8, 7, 3) {
		case 5:
			if latin {
				b = append(b, []rune(g.pick(words...))...)
			} else {
				b = append(b, []rune(g.pick(wideWords...))...)
			}
		case 0:
			b = append(b, g.runeOf(alnum))
		case 1:
			b = append(b, g.runeOf([]rune("=?_ .,;:@<>()[]\\\"")))
		case 2:
			if latin {
				b = append(b, rune(g.rng(0xa0, 0xff)))
			} else {
				b = append(b, g.wide())
			}
		case 3:
			b = append(b, rune(g.n(0x80)))
		case 4:
			b = append(b, ' ')
		}
	}
	return string(b)
}

func mixCase(g gen, s string) string {
	b := []byte(s)
	for i := range b {
		if g.bit() {
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			} else if b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			}
		}
	}
	return string(b)
}

// encodeBytes writes an encoded word around bytes, in q or b encoding. A strict one uses in q only the
// characters RFC 2047 5(3) allows in a phrase; the others, delimiters among them, make some lists
// ambiguous.
func (g gen) encodeBytes(charset string, p []byte, strict bool) string {
	if g.bit() {
		return "=?" + charset + "?" + g.pick("b", "B") + "?" + base64.StdEncoding.EncodeToString(p) + "?="
	}
	var b strings.Builder
	for _, c := range p {
		switch {
		case c == ' ':
			if g.pct(70) {
				b.WriteByte('_')
			} else {
				b.WriteString("=20")
			}
		case c > 0x20 && c < 0x7f && c != '=' && c != '?' && c != '_' && g.pct(85) &&
			(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("!*+-/", c) >= 0 || !strict && g.pct(50)):
			b.WriteByte(c)
		default:
			if g.pct(75) {
				fmt.Fprintf(&b, "=%02X", c)
			} else {
				fmt.Fprintf(&b, "=%02x", c)
			}
		}
	}
	return "=?" + charset + "?" + g.pick("q", "Q") + "?" + b.String() + "?="
}

// encoded gives an encoded word in one of the charsets handled by default.
func (g gen) encoded(max int) encWord { return g.encodedAs(max, true) }

func (g gen) encodedAs(max int, strict bool) encWord {
	if v, ok := again[encWord](g, fmt.Sprint("encoded", strict, bucket(max)), 8); ok {
		return v
	}
	return remember(g, fmt.Sprint("encoded", strict, bucket(max)), g.encodedAsNew(max, strict))
}

func (g gen) encodedAsNew(max int, strict bool) encWord {
	switch g.weighted(60, 22, 18) {
	case 1:
		s := g.encText(true, max)
		p := []byte{}
		for _, r := range s {
			p = append(p, byte(r))
		}
		return encWord{g.encodeBytes(mixCase(g, "iso-8859-1"), p, strict), s}
	case 2:
		var p []byte
		for n := g.geo(1, max, 75); n > 0; n-- {
			p = append(p, byte(g.n(0x80)))
		}
		return encWord{g.encodeBytes(mixCase(g, "us-ascii"), p, strict), string(p)}
	}
	s := g.encText(false, max)
	return encWord{g.encodeBytes(mixCase(g, "utf-8"), []byte(s), strict), s}
}

// name gives a display name: words of all kinds, periods and at signs, with the white space or
// comments a mail writer puts between them.
func (g gen) name(o opts, c *Case) piece {
	if v, ok := again[piece](g, fmt.Sprint("name", o.cfws), 8); ok {
		return v
	}
	return remember(g, fmt.Sprint("name", o.cfws), g.nameNew(o, c))
}

func (g gen) nameNew(o opts, c *Case) piece {
	if g.pct(30) {
		// The everyday case.
		s := g.atom(6)
		return piece{raw: s, value: s}
	}
	var raw, v string
	glue := true
	last := "" // kind of the last item
	n := g.rng(1, 5)
	for i := 0; i < n; i++ {
		kind := g.weighted(45, 20, 20, 15)
		if i == 0 && kind == 3 {
			kind = 0
		}
		sep := ""
		if i > 0 {
			// Words next to each other need something between them: atoms would run together.
			if last != "unspaced" && kind != 3 && (last == "atom" || last == "encoded") || g.pct(50) {
				sep = " "
				if g.pct(o.cfws) {
					sep = g.cfws()
				}
			}
		}
		var w, wv string
		switch kind {
		case 0:
			w = g.atom(5)
			wv = w
			last = "atom"
		case 1:
			w, wv = g.quoted()
			last = "quoted"
		case 2:
			e := g.encoded(6)
			w, wv = e.raw, e.value
			for k := g.geo(0, 2, 25); k > 0; k-- {
				f := g.encoded(5)
				s := " "
				if g.pct(o.cfws) {
					s = g.cfws()
				}
				w += s + f.raw
				wv += f.value
			}
			c.label("name:encoded")
			if last == "encoded" {
				// One run of encoded words.
				raw += sep + w
				v += wv
				continue
			}
			last = "encoded"
		case 3:
			w = g.pick(".", "@")
			c.label("name:unspaced")
			if last == "encoded" || last == "atom" || last == "quoted" || last == "unspaced" {
				last = "unspaced"
			}
			raw += sep + w
			v += w
			glue = true
			continue
		}
		if !glue && v != "" {
			v += " "
		}
		raw += sep + w
		v += wv
		glue = false
		c.labelIf(last == "quoted", "name:quoted")
	}
	c.label("name:words")
	return piece{raw: raw, value: v}
}

// mailbox gives a mailbox and what it stands for.
func (g gen) mailbox(o opts, c *Case) (string, Addr) {
	switch g.weighted(40, 48, 12) {
	case 1:
		n := g.name(o, c)
		a := g.angle(o, c)
		sep := ""
		if g.pct(80) {
			sep = " "
		}
		if strings.HasPrefix(a.raw, " ") || strings.HasPrefix(a.raw, "\t") || strings.HasPrefix(a.raw, "\r") || strings.HasPrefix(a.raw, "(") {
			sep = ""
		}
		c.label("mailbox:name-addr")
		return n.raw + sep + a.raw, Addr{B(n.value), B(a.value)}
	case 2:
		a := g.angle(o, c)
		c.label("mailbox:angle")
		return a.raw, Addr{"", B(a.value)}
	}
	a := g.addrSpec(o, c)
	c.label("mailbox:addr-spec")
	return a.raw, Addr{"", B(a.value)}
}

// simpleMailbox is a short mailbox without decoration.
func (g gen) simpleMailbox() (string, Addr) {
	if g.pct(4) {
		if g.bit() {
			return "<>", Addr{}
		}
		n := g.plain(2)
		return n + " <>", Addr{B(n), ""}
	}
	l, d := g.plain(3), g.plain(3)
	if g.bit() {
		return l + "@" + d, Addr{"", B(l + "@" + d)}
	}
	n := g.plain(4)
	return n + " <" + l + "@" + d + ">", Addr{B(n), B(l + "@" + d)}
}

// group gives a group and its members.
func (g gen) group(o opts, c *Case, max int, semicolon bool) (string, []Addr) {
	name := g.name(o, c).raw
	if name[0] == '"' && strings.Contains(name, ":") {
		// A group may be in quotes as a whole: the first colon inside would end its name.
		name = "g " + name
	}
	raw := g.at(o) + name + g.at(o) + ":"
	var list []Addr
	switch n := g.rng(0, max); {
	case n == 0:
		raw += g.at(o)
		c.label("group:empty")
	default:
		c.label("group:members")
		for i := 0; i < n; i++ {
			if i > 0 {
				raw += ","
				if g.bit() {
					raw += " "
				}
			}
			m, a := g.mailbox(o, c)
			if i == 0 && g.bit() && m[0] != ' ' && m[0] != '\t' && m[0] != '\r' && m[0] != '(' {
				raw += " "
			}
			raw += m
			list = append(list, a)
		}
	}
	if semicolon {
		raw += ";" + g.at(o)
	}
	return raw, list
}

func spaced(s string) bool {
	return s != "" && strings.IndexByte(" \t\r(", s[0]) >= 0
}

// mutate changes a string in a few places.
func (g gen) mutate(s string) string {
	r := []rune(s)
	for n := g.geo(1, 4, 40); n > 0; n-- {
		i := g.n(len(r) + 1)
		switch g.n(7) {
		case 6: // make two words the same
			if w := wordSpans(r); len(w) > 1 {
				a, b := w[g.n(len(w))], w[g.n(len(w))]
				r = append(append(append([]rune{}, r[:a[0]]...), r[b[0]:b[1]]...), r[a[1]:]...)
			}
		case 0: // drop a character
			if i < len(r) {
				r = append(append([]rune{}, r[:i]...), r[i+1:]...)
			}
		case 1: // insert a character
			r = append(append(append([]rune{}, r[:i]...), g.anyRune()), r[i:]...)
		case 2: // replace a character
			if i < len(r) {
				r = append([]rune{}, r...)
				r[i] = g.anyRune()
			}
		case 3: // insert a token
			r = append(append(append([]rune{}, r[:i]...), []rune(g.token())...), r[i:]...)
		case 4: // repeat a span
			j := min(len(r), i+g.rng(1, 4))
			r = append(append(append([]rune{}, r[:j]...), r[i:j]...), r[j:]...)
		case 5: // cut a span
			j := min(len(r), i+g.rng(1, 6))
			r = append(append([]rune{}, r[:i]...), r[j:]...)
		}
	}
	return string(r)
}

// wordSpans are the runs of letters, digits and the like.
func wordSpans(r []rune) (out [][2]int) {
	for i := 0; i < len(r); i++ {
		j := i
		for j < len(r) && isAtext(r[j]) {
			j++
		}
		if j > i {
			out = append(out, [2]int{i, j})
			i = j
		}
	}
	return
}

func (g gen) anyRune() rune {
	switch g.weighted(30, 40, 15, 15) {
	case 0:
		return g.runeOf(alnum)
	case 1:
		return g.runeOf([]rune("@@,,;::<>()[]\"\"\\..=?  \t_"))
	case 2:
		return rune(g.n(128))
	}
	return g.wide()
}

var tokens = []string{
	"@", ",", ";", ":", "<", ">", "(", ")", "[", "]", "\"", "\\", ".", " ", "\t", "\r\n ", "\r\n", "\r", "\n", "\x00",
	"a", "b@c", "x.y", "<>", "()", "[]", "\"\"", "a@b", "<a@b>", "\"q\"", "(c)", "=?utf-8?q?w?=", "=?utf-8?b?dw==?=",
	"=?x?y?z?=", "A:", ":;", "@r:", "@r,@s:", ":25", "é", "😀", "=?", "?=", ",,", "..", "\x7f", "\x01",
}

func (g gen) token() string {
	if g.pct(8) {
		return g.pick(dictionary...)
	}
	return tokens[g.n(len(tokens))]
}

// soup is a sequence of tokens.
func (g gen) soup(max int) string {
	var b strings.Builder
	for n := g.rng(1, max); n > 0; n-- {
		b.WriteString(g.token())
	}
	return b.String()
}

// bytes gives arbitrary bytes.
func (g gen) bytes(max int) string {
	var b []byte
	for n := g.rng(0, max); n > 0; n-- {
		b = append(b, byte(g.n(256)))
	}
	return string(b)
}

func noNUL(s string) bool { return utf8.ValidString(s) }
