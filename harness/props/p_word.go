package props

import (
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
	"pgregory.net/rapid"
)

// broken gives an encoded word of the grammar which cannot be decoded.
func (g gen) broken(c *Case) string {
	body := g.pick("abc", "eHg=", "a=20b", "x")
	switch g.n(6) {
	case 0:
		c.label("broken:charset")
		if w := charsetToken(g.pick(dictionary...)); w != "" && g.pct(15) {
			return "=?" + mixCase(g, w) + "?" + g.pick("q", "Q") + "?" + body + "?="
		}
		return "=?" + g.pick("koi8-r", "windows-1252", "x-unknown", "iso-8859-15", "gb2312", "utf-16", "utf8", "utf-7", "utf-8*en", "ascii", "latin1", "iso-8859-11", "utf_8") + "?" + g.pick("q", "Q") + "?" + body + "?="
	case 1:
		c.label("broken:encoding")
		return "=?utf-8?" + g.pick("x", "qq", "b8", "7", "-") + "?" + body + "?="
	case 2:
		c.label("broken:base64")
		return "=?utf-8?" + g.pick("b", "B") + "?" + g.pick("a", "ab", "abc", "a=bc", "!!!!", "YQ=", "=", "YQ==YQ") + "?="
	case 3:
		c.label("broken:hex")
		return "=?utf-8?" + g.pick("q", "Q") + "?" + g.pick("=", "a=", "=4", "=zz", "=4G", "x=G4y") + "?="
	case 4:
		c.label("broken:hex-latin1")
		return "=?iso-8859-1?q?" + g.pick("=", "a=b", "==41") + "?="
	}
	c.label("broken:charset-b")
	return "=?" + g.pick("koi8-r", "shift_jis", "x") + "?b?" + base64.StdEncoding.EncodeToString([]byte(g.plain(5))) + "?="
}

// A charset for the reader tests: never one handled by default.
func (g gen) charset() string {
	if g.pct(8) {
		if w := charsetToken(g.pick(dictionary...)); w != "" {
			return mixCase(g, w)
		}
	}
	base := g.pick("koi8-r", "windows-1252", "iso-8859-2", "iso-8859-15", "x-test", "shift_jis", "big5", "utf-16", "utf8", "utf-80", "us-ascii-x", "iso-8859-10", "latin1", "a", "z9", "utf-8*en", "utf-8-x", "x-utf-8", "iso-8859-1-x", "ascii", "utf-16le", "utf_8", "cp1252", "gb18030")
	return mixCase(g, base)
}

// charsetToken gives the name of a charset, not handled by default, made of a text; or nothing.
func charsetToken(s string) string {
	s = strings.ToLower(strings.Map(func(r rune) rune {
		if r < 0x80 && (r == '-' || r == '_' || isAtext(r) && strings.IndexByte(string(atextSpec), byte(r)) < 0) {
			return r
		}
		return -1
	}, s))
	if s == "utf-8" || s == "us-ascii" || s == "iso-8859-1" {
		return ""
	}
	return s
}

// The modes of the test reader.
const (
	crNil    = iota // no reader installed
	crHex           // writes the bytes in hex, with the charset
	crTag           // the same, differently
	crErr           // returns an error
	crRead          // returns a reader which fails in the middle
	crEmpty         // writes nothing
	crBytes         // writes bytes that are not UTF-8, one at a time
	crLong          // writes a long text, with control characters
	crNested        // parses something itself, then does as crTag
	crLazy          // converts, but reads its input only when it is read itself
	crText          // writes some text of the dictionary
	crSome          // fails, or returns a reader that fails, for some bytes
	crOne           // fails for all charsets but some
	crModes
)

type crCall struct {
	charset string
	bytes   string
}

func crValue(mode int, charset, p string) (string, bool) {
	switch mode {
	case crHex:
		return "é/" + charset + "/" + hex.EncodeToString([]byte(p)), true
	case crEmpty:
		return "", true
	case crBytes:
		return "\xff\xfe" + p + "\x80\xc3", true
	case crLong:
		return strings.Repeat("\r\n<long>,\x00 \"é", 400) + p, true
	case crLazy:
		return "lazy " + strings.ToUpper(hex.EncodeToString([]byte(p))), true
	case crText:
		h := crHash(charset + "?" + p)
		if h%4 == 0 && len(minedTexts) > 0 {
			return minedTexts[h/4%len(minedTexts)], true
		}
		return crTexts[h/4%len(crTexts)], true
	case crSome:
		if crHash(p)%3 > 0 {
			return "", false
		}
		return "some " + hex.EncodeToString([]byte(p)), true
	case crOne:
		if crHash(charset)%2 > 0 {
			return "", false
		}
		return "one " + hex.EncodeToString([]byte(p)), true
	case crTag, crNested:
		return "[" + hex.EncodeToString([]byte(p)) + "] " + charset + " 😀", true
	}
	return "", false
}

// crTexts are what a charset reader may give: anything.
var crTexts = append([]string{
	"", " ", "\ufffd", "\ufffdx", "x\ufffd", "é\ufffdé", "\x00", "x\x00y", "\r", "\n", "\r\n", "x\r\n y", "\x80", "\xc3", "\xff\xfe", "\ufeff", "\ufeffx", "=?utf-8?q?x?=", "=?=", "?=", "_", "=41", "\"", "\"x\"",
	"\\", "(c)", "<a@b>", "a@b", ", ", ";", "x  y", " x ", "\tx", "e\u0301", "K", "\u200b", "\x1b$B",
}, dictionary...)

func crHash(s string) int {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return int(mix(h) >> 2)
}

func crReader(mode int, calls *[]crCall) func(string, io.Reader) (io.Reader, error) {
	if mode == crNil {
		return nil
	}
	return func(charset string, in io.Reader) (io.Reader, error) {
		if mode == crLazy {
			return &lazy{in: in, done: func(p []byte) string {
				*calls = append(*calls, crCall{charset, string(p)})
				v, _ := crValue(mode, charset, string(p))
				return v
			}}, nil
		}
		p, err := io.ReadAll(in)
		if err != nil {
			return nil, err
		}
		*calls = append(*calls, crCall{charset, string(p)})
		switch mode {
		case crErr:
			return nil, errors.New("cannot")
		case crSome, crOne:
			if _, ok := crValue(mode, charset, string(p)); !ok {
				if crHash(string(p)+"e")%2 == 0 {
					return nil, errors.New("cannot do that")
				}
				return io.MultiReader(strings.NewReader("partial"), &failing{}), nil
			}
		case crRead:
			return io.MultiReader(strings.NewReader("partial"), &failing{}), nil
		}
		v, _ := crValue(mode, charset, string(p))
		switch mode {
		case crBytes:
			return iotest.DataErrReader(iotest.OneByteReader(strings.NewReader(v))), nil
		case crNested:
			a, err := parseA("=?utf-8?q?n?= <x@y>")
			if t, err2 := parseD("1 Jan 2000 12:00 EST"); err != nil || err2 != nil || len(a) != 1 || a[0].Name != "n" || t.Hour() != 12 {
				return strings.NewReader("a parse inside CharsetReader goes wrong"), nil
			}
		}
		return strings.NewReader(v), nil
	}
}

// lazy reads its input when it is read itself, a few bytes at a time.
type lazy struct {
	in   io.Reader
	got  []byte
	done func([]byte) string
	out  io.Reader
}

func (l *lazy) Read(p []byte) (int, error) {
	for l.out == nil {
		var b [3]byte
		n, err := l.in.Read(b[:])
		l.got = append(l.got, b[:n]...)
		if err == io.EOF {
			l.out = strings.NewReader(l.done(l.got))
		} else if err != nil {
			return 0, err
		}
	}
	return l.out.Read(p)
}

type failing struct{}

func (*failing) Read([]byte) (int, error) { return 0, errors.New("read fails") }

// encodedRaw writes bytes in a charset as an encoded word.
func (g gen) encodedRaw(charset string) (raw, p string) {
	var b []byte
	for n := g.geo(1, 8, 75); n > 0; n-- {
		if g.bit() {
			b = append(b, byte(g.n(256)))
		} else {
			b = append(b, byte(g.runeOf(alnum)))
		}
	}
	return g.encodeBytes(charset, b, true), string(b)
}

func init() {
	register(&Prop{
		ID: "C09",
		Rule: "A case is an address with encoded words (utf-8, iso-8859-1 or us-ascii in any case; q or b; adjacent ones; next to other words; undecodable ones; in places where they mean nothing), " +
			"encoded here from a known text. Trivial: none; every case has an encoded word.",
		Subs: []Sub{
			{Name: "one", Quick: 2400, Thorough: 22000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// Delimiters may appear in the text as written.
				max := 10
				if g.pct(5) {
					max = 60
					c.label("long")
				}
				e := g.encodedAs(max, g.bit())
				label(c, e.raw)
				a := g.plain(3) + "@" + g.plain(3)
				return e.raw + g.pick(" ", "\t", "  ", "\r\n ") + "<" + a + ">", []Addr{{B(e.value), B(a)}}
			})},
			{Name: "run", Quick: 720, Thorough: 6500, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// Adjacent encoded words are one text, whatever white space or comments separate them.
				var raw, v string
				for i, n := 0, g.rng(2, 4); i < n; i++ {
					if i > 0 {
						if g.pct(70) {
							raw += g.pick(" ", "  ", "\t", "\r\n ", " \r\n\t")
						} else {
							raw += g.cfws()
						}
					}
					e := g.encoded(5)
					raw += e.raw
					v += e.value
					label(c, e.raw)
				}
				a := g.plain(2) + "@" + g.plain(2)
				return raw + " <" + a + ">", []Addr{{B(v), B(a)}}
			})},
			{Name: "mixed", Quick: 960, Thorough: 9000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// An encoded word next to another kind of word keeps the space between them.
				var raw, v string
				last := -1
				for i, n := 0, g.rng(2, 4); i < n; i++ {
					k := g.n(3)
					if i > 0 {
						raw += g.pick(" ", "  ", "\t", "\r\n ")
						if !(k == 0 && last == 0) && v != "" {
							v += " "
						}
					}
					switch k {
					case 0:
						e := g.encoded(5)
						raw, v = raw+e.raw, v+e.value
						label(c, e.raw)
					case 1:
						w := g.plain(4)
						raw, v = raw+w, v+w
					case 2:
						w := g.plain(4)
						raw, v = raw+"\""+w+"\"", v+w
					}
					last = k
				}
				a := g.plain(2) + "@" + g.plain(2)
				return raw + " <" + a + ">", []Addr{{B(v), B(a)}}
			})},
			{Name: "undecodable", Quick: 1440, Thorough: 13000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// What cannot be decoded stands for itself, and does not spoil its neighbours.
				w := g.broken(c)
				raw, v := w, w
				switch g.n(4) {
				case 1:
					e := g.encoded(4)
					raw, v = raw+" "+e.raw, v+e.value
				case 2:
					e := g.encoded(4)
					raw, v = e.raw+" "+raw, e.value+v
				case 3:
					x := g.plain(3)
					raw, v = x+" "+raw, x+" "+v
				}
				a := g.plain(2) + "@" + g.plain(2)
				return raw + " <" + a + ">", []Addr{{B(v), B(a)}}
			})},
			{Name: "not-decoded", Quick: 1440, Thorough: 14000, Check: checkA, Gen: constructed(func(g gen, c *Case) (string, []Addr) {
				// In quoted strings, comments, addresses and atoms an encoded word is just text.
				e := g.encoded(4).raw
				a := g.plain(2) + "@" + g.plain(2)
				n := g.plain(3)
				switch g.n(6) {
				case 0:
					c.label("quoted")
					return "\"" + e + "\" <" + a + ">", []Addr{{B(e), B(a)}}
				case 1:
					c.label("quoted-local")
					return "\"" + e + "\"@" + n, []Addr{{"", B(e + "@" + n)}}
				case 2:
					c.label("comment")
					return n + " (" + e + ") <" + a + "> (" + e + ")", []Addr{{B(n), B(a)}}
				case 3:
					c.label("local")
					return e + "@" + n, []Addr{{"", B(e + "@" + n)}}
				case 4:
					c.label("quoted-among-words")
					return n + " \"" + e + " " + e + "\" <" + a + ">", []Addr{{B(n + " " + e + " " + e), B(a)}}
				}
				c.label("literal")
				return "<" + n + "@[" + e + "]>", []Addr{{"", B(n + "@[" + e + "]")}}
			})},
		},
	})

	register(&Prop{
		ID: "C10",
		Rule: "A case is a sequence of 1 to 5 parses of names with encoded words in generated charsets and encodings, each after installing a CharsetReader of some kind " +
			"(none, two converters, one that fails, one whose reader fails, one that writes nothing, ill-formed UTF-8 in pieces or a long text, one that itself parses, one that reads its input late, any text, some that fail for some bytes or charsets only). Every case is non-trivial.",
		Subs: []Sub{
			{Name: "reader", Quick: 1200, Thorough: 11000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				c := &Case{}
				// Per step: the mode in Ints, the input in In, the words (kind, charset, bytes or value, raw) in Strs.
				for n := g.geo(1, 5, 60); n > 0; n-- {
					mode := g.n(crModes)
					c.label([]string{"none", "converter", "other-converter", "failing", "failing-read", "empty", "not-utf8", "long", "parsing", "lazy", "any-text", "failing-for-bytes", "failing-for-charset"}[mode])
					k := g.rng(1, 3)
					one := ""
					if g.pct(40) {
						one = g.charset()
						k = g.rng(2, 4)
						c.label("one-charset")
					}
					c.Ints = append(c.Ints, mode, k)
					var raw string
					for i := 0; i < k; i++ {
						if i > 0 {
							raw += g.pick(" ", "\t", "\r\n ")
						}
						if g.pct(25) {
							e := g.encoded(4) // a charset handled by default
							raw += e.raw
							c.Strs = append(c.Strs, "default", "", B(e.value), B(e.raw))
							c.label("default-charset")
						} else {
							cs := g.charset()
							if one != "" {
								cs = mixCase(g, one)
							}
							r, p := g.encodedRaw(cs)
							raw += r
							c.Strs = append(c.Strs, "custom", B(strings.ToLower(cs)), B(p), B(r))
							c.labelIf(cs != strings.ToLower(cs), "upper-case-charset")
						}
					}
					c.In = append(c.In, B(raw+" <a@b>"))
				}
				return c
			}, Check: func(c *Case) error {
				defer func() { rfc5322.CharsetReader = nil }()
				words := c.Strs
				for i, in := range c.In {
					mode, k := c.Ints[2*i], c.Ints[2*i+1]
					var calls []crCall
					rfc5322.CharsetReader = crReader(mode, &calls)
					var name string
					need := map[crCall]bool{}
					for ; k > 0; k-- {
						w := words[:4]
						words = words[4:]
						if w[0] == "default" {
							name += string(w[2])
							continue
						}
						if mode != crNil {
							need[crCall{string(w[1]), string(w[2])}] = false
						}
						if v, ok := crValue(mode, string(w[1]), string(w[2])); ok {
							name += v
						} else {
							name += string(w[3])
						}
					}
					if err := expectA(in, []Addr{{B(name), "a@b"}}); err != nil {
						return fmt.Errorf("parse %d, CharsetReader mode %d: %v", i, mode, err)
					}
					for _, call := range calls {
						if _, ok := need[call]; !ok {
							return fmt.Errorf("parse %d of %+q: CharsetReader gets %+q; none of the words asks for that", i, string(in), call)
						}
						need[call] = true
					}
					for call, done := range need {
						if !done {
							return fmt.Errorf("parse %d of %+q: CharsetReader does not get %+q", i, string(in), call)
						}
					}
				}
				return nil
			}},
			{Name: "list", Quick: 640, Thorough: 6000, Gen: func(t *rapid.T) *Case {
				// Several mailboxes: each word is converted with its own charset.
				g := gen{t}
				c := &Case{Ints: []int{[]int{crHex, crTag, crText, crLazy}[g.n(4)]}}
				var parts []string
				for n := g.rng(2, 4); n > 0; n-- {
					cs := g.charset()
					raw, p := g.encodedRaw(cs)
					a := g.plain(2) + "@" + g.plain(2)
					parts = append(parts, raw+" <"+a+">")
					v, _ := crValue(c.Ints[0], strings.ToLower(cs), p)
					c.Addrs = append(c.Addrs, Addr{B(v), B(a)})
				}
				s := strings.Join(parts, ", ")
				if g.pct(30) {
					s = g.plain(2) + ": " + s + ";"
					c.label("group")
				}
				c.In = []B{B(s)}
				return c
			}, Check: func(c *Case) error {
				defer func() { rfc5322.CharsetReader = nil }()
				var calls []crCall
				rfc5322.CharsetReader = crReader(c.Ints[0], &calls)
				return expectA(c.In[0], c.Addrs)
			}},
		},
	})
}

func label(c *Case, raw string) {
	p := strings.SplitN(raw, "?", 4)
	c.label(strings.ToLower(p[1] + "/" + p[2]))
}
