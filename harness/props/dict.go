package props

import (
	"encoding/json"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The dictionary: texts which something might treat in a special way. To those thought of here come
// the literals in the source of the parser as it is now, which the driver passes in VH_DICT.

// minedTexts and minedNums are the literals of the parser's source.
var minedTexts, minedNums = loadDict(os.Getenv("VH_DICT"))

func loadDict(path string) (texts []string, nums []int) {
	var d struct {
		Texts []string
		Nums  []int
	}
	p, err := os.ReadFile(path)
	if err != nil || json.Unmarshal(p, &d) != nil {
		return nil, nil
	}
	for _, q := range d.Texts {
		if s, err := strconv.Unquote(q); err == nil && s != "" && utf8.ValidString(s) {
			texts = append(texts, s)
		}
	}
	return texts, d.Nums
}

// phrases are texts of names and comments.
var phrases = []string{
	"via", "x via y", "on behalf of", "a on behalf of b", "c/o", "at", "user at host", "a dot b", "(at)", "[at]", "Undisclosed recipients", "undisclosed-recipients",
	"mailing list", "List", "no reply", "noreply", "MAILER-DAEMON", "Mail Delivery System", "postmaster", "Doe, John", "Doe; John", "Mr. X", "Ph.D.", "x Jr.", "J. R. R. Doe",
	"a & b", "a/b", "re:", "Fwd: x", "mailto:a@b", "SMTP:a@b", "http://x/y", "a@b", "x a@b", "a@b x", "<a@b>", "x <a@b>", "x (a@b)", "x [a@b]", "(c)", "x (y)", "(y) x", "[x] y", "x [y]",
	"{x}", "x <y>", "'x'", "`x`", "“x”", "‘x’", "«x»", "„x“", "*x*", "_x_", "/x/", "|x|", "~x~", "-x-", "\"x\"", "'x", "x'", "''", "\\x", "x\\", "\\", "\\\\", "...", "…", "--", "-", "%", "#1", "+1", "1 + 1",
	"am", "pm", "AM", "PM", "a.m.", "p.m.", "noon", "midnight", "BC", "AD", "B.C.", "DST", "daylight", "summer", "h", "o'clock", "UTC", "GMT", "Z", "EST", "PDT", "CET", "CEST", "JST", "+0100", "-0500", "GMT+1", "UTC-05:00",
	"Local", "Europe/Berlin", "Mon", "Monday", "Feb", "February", "1", "31", "60", "99", "1999", "24:00", "23:60", "1st", "2nd", "obsolete", "x,y", "x;y", "x:y", ":", ";", ",", ".", "@", "<>", "()", "[]", "{}", "=?utf-8?q?x?=", "=?", "?=",
	"\t", " ", "  ", " x", "x ", " x ", "x  y", "x\ty", ".x", "x.", "..", "@x", "x@", "null", "nil", "true", "NaN", "0", "00", "-1", "%s", "%00", "%40", "&amp;", "&#64;", "<script>", "' OR 1", "$x", "${x}", "{{x}}",
	"x\u00a0y", "\u200bx", "x\u200d", "\ufeffx", "ＡＢ", "é", "e\u0301", "ß", "ſ", "K", "İ", "ı", "😀", "x😀", "用户", "مرحبا", "שלום", "\u202ex\u202c", "\u2028", "\u0085x", "x\u3000y", "\ufffd", "\ufffdx",
}

var dictionary = func() (out []string) {
	seen := map[string]bool{}
	for _, list := range [][]string{minedTexts, phrases, words, wideWords, traps} {
		for _, s := range list {
			for _, s := range []string{s, strings.TrimSpace(s)} {
				if !seen[s] && s != "" && len(s) <= 60 {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
	}
	for _, s := range minedTexts { // other forms of the literals
		for _, s := range []string{strings.ToUpper(s), strings.ToLower(s), s + "x", "x" + s, "x" + s + "y", s + s} {
			if !seen[s] && len(s) <= 24 {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return
}()

// atomized gives the atoms in a text.
func atomized(s string) (out []string) {
	for _, w := range strings.Fields(s) {
		w = strings.Map(func(r rune) rune {
			if !isAtext(r) || r == utf8.RuneError {
				return -1
			}
			return r
		}, w)
		if w != "" && !strings.Contains(w, "=?") {
			out = append(out, w)
		}
	}
	return
}

// atoms are the atoms of the dictionary that come from the source, or any if there are none.
var minedAtoms = func() (out []string) {
	for _, s := range minedTexts {
		if a := atomized(s); len(a) > 0 && len(s) <= 24 {
			out = append(out, a...)
		}
	}
	if len(out) == 0 {
		out = words
	}
	return
}()

// quote writes a text as a quoted string.
func quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if strings.ContainsRune("\"\\\x00\r\n", r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	b.WriteByte('"')
	return b.String()
}

// commented writes a text as a comment.
func commented(s string) string {
	var b strings.Builder
	b.WriteByte('(')
	for _, r := range s {
		if strings.ContainsRune("()\\\x00\r\n", r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	b.WriteByte(')')
	return b.String()
}

// qEncoded writes a text as an encoded word.
func qEncoded(s string) string {
	const hex = "0123456789ABCDEF"
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9':
			b.WriteByte(c)
		case c == ' ':
			b.WriteByte('_')
		default:
			b.WriteString("=" + string(hex[c>>4]) + string(hex[c&15]))
		}
	}
	return "=?utf-8?q?" + b.String() + "?="
}

var wraps = [][2]string{{"'", "'"}, {"\"", "\""}, {"`", "`"}, {"(", ")"}, {"[", "]"}, {"<", ">"}, {"{", "}"}, {"«", "»"}, {"“", "”"}, {"‘", "’"}, {"*", "*"}, {"_", "_"}, {" ", " "}, {"=", "="}, {"\\", "\\"}, {"''", "''"}, {"\t", " "}, {".", "."}, {"@", "@"}, {"-", "-"}, {"/", "/"}, {"=?", "?="}, {"=", ""}, {"", "="}, {"(", ""}, {"", ")"}, {"[", ""}, {"", "]"}, {"'", ""}, {"", "'"}, {"\"", ""}, {"", "\""}}

// shaped is text with something of the dictionary in it, or around it.
func (g gen) shaped() string {
	core := g.plain(4)
	if g.pct(40) {
		core += g.pick(" ", ", ", ". ", "@", ".") + g.plain(3)
	}
	switch g.n(5) {
	case 0:
		w := wraps[g.n(len(wraps))]
		return w[0] + core + w[1]
	case 1: // around a part
		w := wraps[g.n(len(wraps))]
		return core + " " + w[0] + g.plain(3) + w[1]
	case 2:
		w := wraps[g.n(len(wraps))]
		return w[0] + g.plain(3) + w[1] + " " + core
	case 3:
		return core + g.pick("", " ") + dictionary[g.n(len(dictionary))]
	}
	return g.pick("", core+" ") + dictionary[g.n(len(dictionary))] + g.pick("", " "+g.plain(3))
}
