package spec

import (
	"io"
	"mime"
	"strings"
)

// Addr is a mailbox.
type Addr struct{ Name, Address string }

// Date is a date-time as written.
type Date struct {
	Year, Month, Day, Hour, Min, Sec int
	// Off is the zone offset in seconds east of UTC.
	Off int
}

// CharsetReader is what the reference uses to decode encoded words.
type CharsetReader = func(charset string, input io.Reader) (io.Reader, error)

type eval struct {
	in []rune
	cr CharsetReader
}

func (t *Tree) kids(rule string) (list []*Tree) {
	for _, k := range t.Kids {
		if k.Rule == rule {
			list = append(list, k)
		}
	}
	return list
}

func (t *Tree) kid(rule string) *Tree {
	if l := t.kids(rule); len(l) > 0 {
		return l[0]
	}
	return nil
}

func (e *eval) text(t *Tree) string { return string(e.in[t.Start:t.End]) }

// Addresses is the reference for parsing an address list.
// ok is false if the input is not in the language.
func Addresses(input string, cr CharsetReader) (list []Addr, ok bool, err error) {
	t, err := Derive("addressList", input)
	if err != nil || t == nil {
		return nil, false, err
	}
	return AddressesOf(t, input, cr), true, nil
}

// AddressesOf evaluates a derivation of an address list.
func AddressesOf(t *Tree, input string, cr CharsetReader) []Addr {
	e := &eval{in: []rune(input), cr: cr}
	list := []Addr{}
	var walk func(t *Tree)
	walk = func(t *Tree) {
		if t.Rule == "mailbox" {
			list = append(list, e.mailbox(t))
			return
		}
		for _, k := range t.Kids {
			walk(k)
		}
	}
	walk(t)
	return list
}

func (e *eval) mailbox(t *Tree) Addr {
	if s := t.kid("addrSpec"); s != nil {
		return Addr{Address: e.addrSpec(s)}
	}
	na := t.kid("nameAddr")
	var a Addr
	if d := na.kid("displayName"); d != nil {
		a.Name = e.displayName(d)
	}
	angle := na.kid("angleAddr")
	if o := angle.kid("obsAngleAddr"); o != nil {
		angle = o
	}
	if s := angle.kid("addrSpec"); s != nil {
		a.Address = e.addrSpec(s)
	}
	return a
}

func (e *eval) addrSpec(t *Tree) string {
	s := e.localPart(t.kid("localPart")) + "@" + e.domain(t.kid("domain"))
	if p := t.kid("port"); p != nil {
		s += ":" + e.text(p)
	}
	return s
}

func (e *eval) localPart(t *Tree) string {
	if d := t.kid("dotAtom"); d != nil {
		return e.text(d)
	}
	if q := t.kid("quotedString"); q != nil {
		return e.quoted(q)
	}
	var words []string
	for _, w := range t.kid("obsLocalPart").kids("word") {
		words = append(words, e.word(w, false))
	}
	return strings.Join(words, ".")
}

func (e *eval) domain(t *Tree) string {
	if d := t.kid("dotAtom"); d != nil {
		return e.text(d)
	}
	if d := t.kid("domainLiteral"); d != nil {
		return strings.ReplaceAll(e.text(d), "\r\n", "")
	}
	var atoms []string
	for _, a := range t.kid("obsDomain").kids("atom") {
		atoms = append(atoms, e.text(a))
	}
	return strings.Join(atoms, ".")
}

func (e *eval) word(t *Tree, decode bool) string {
	if a := t.kid("atom"); a != nil {
		return e.text(a)
	}
	if q := t.kid("quotedString"); q != nil {
		return e.quoted(q)
	}
	var s string
	for _, w := range t.kids("encodedWord") {
		if decode {
			s += DecodeWord(e.text(w), e.cr)
		} else {
			s += e.text(w)
		}
	}
	return s
}

// DecodeWord decodes an encoded word; one that cannot be decoded stands for itself.
func DecodeWord(text string, cr CharsetReader) string {
	if s, err := (&mime.WordDecoder{CharsetReader: cr}).Decode(text); err == nil {
		return s
	}
	return text
}

// quoted gives what a quoted string stands for: the text between the quotes, without the backslash
// of quoted pairs and without the line breaks of folding white space.
func (e *eval) quoted(t *Tree) string {
	in := e.in[t.Start+1 : t.End-1]
	var b strings.Builder
	for i := 0; i < len(in); i++ {
		switch {
		case in[i] == '\\':
			i++
			b.WriteRune(in[i])
		case in[i] == '\r':
			i++
		default:
			b.WriteRune(in[i])
		}
	}
	return b.String()
}

func (e *eval) displayName(t *Tree) string {
	var s string
	glue := true
	for _, k := range t.Kids {
		switch k.Rule {
		case "word":
			if !glue && s != "" {
				s += " "
			}
			s += e.word(k, true)
			glue = false
		case "unspaced":
			s += e.text(k)
			glue = true
		}
	}
	return s
}

// Time is the reference for parsing a date-time.
func Time(input string) (d Date, ok bool, err error) {
	t, err := Derive("dateTime", input)
	if err != nil || t == nil {
		return Date{}, false, err
	}
	return TimeOf(t, input), true, nil
}

var monthNames = []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}

// ZoneOffsets gives the offset of the named zones in hours.
var ZoneOffsets = map[string]int{
	"ut": 0, "utc": 0, "gmt": 0, "est": -5, "edt": -4, "cst": -6, "cdt": -5, "mst": -7, "mdt": -6, "pst": -8, "pdt": -7,
}

// TimeOf evaluates a derivation of a date-time.
func TimeOf(t *Tree, input string) Date {
	e := &eval{in: []rune(input)}
	num := func(rule string) (v, n int) {
		k := t.kid(rule)
		if k == nil {
			return 0, 0
		}
		depth := 0
		for i := k.Start; i < k.End; i++ {
			switch c := e.in[i]; {
			case c == '\\':
				i++
			case c == '(':
				depth++
			case c == ')':
				depth--
			case depth == 0 && c >= '0' && c <= '9':
				v = v*10 + int(c-'0')
				n++
			}
		}
		return v, n
	}
	var d Date
	d.Day, _ = num("day")
	d.Hour, _ = num("hour")
	d.Min, _ = num("minute")
	d.Sec, _ = num("second")
	year, digits := num("year")
	if digits == 2 {
		if year < 50 {
			year += 2000
		} else {
			year += 1900
		}
	}
	d.Year = year
	name := strings.ToLower(e.text(t.kid("month")))
	for i, m := range monthNames {
		if m == name {
			d.Month = i + 1
		}
	}
	if z := t.kid("zone"); z != nil {
		if o := z.kid("offset"); o != nil {
			s := e.text(o)
			sign := 1
			if s[0] == '-' || s[0] == '+' {
				if s[0] == '-' {
					sign = -1
				}
				s = s[1:]
			}
			dig := func(i int) int { return int(s[i] - '0') }
			d.Off = sign * ((dig(0)*10+dig(1))*3600 + (dig(2)*10+dig(3))*60)
		} else {
			d.Off = ZoneOffsets[strings.ToLower(e.text(z.kid("obsZone")))] * 3600
		}
	}
	return d
}
