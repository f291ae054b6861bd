package props

import (
	"fmt"
	"net/mail"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verifharness/spec"
)

var (
	monthText = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
	dayText   = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}
	zoneText  = []string{"UT", "UTC", "GMT", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT"}
)

// day gives a date that exists: boundaries of months and years often.
func (g gen) day(loYear, hiYear int) spec.Date {
	d := spec.Date{Month: g.rng(1, 12)}
	switch g.n(4) {
	case 0:
		d.Year = g.rng(loYear, hiYear)
	case 1:
		d.Year = min(max(g.rng(1990, 2040), loYear), hiYear)
	case 2:
		d.Year = min(max([]int{1900, 1999, 2000, 2004, 2023, 2024, 2038, 2100, 1970, 1969, 2049, 2050, 1949, 1950, 1901}[g.n(15)], loYear), hiYear)
	case 3:
		d.Year = []int{loYear, hiYear}[g.n(2)]
	}
	last := time.Date(d.Year, time.Month(d.Month)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	switch g.n(5) {
	case 0:
		d.Day = 1
	case 1:
		d.Day = last
	default:
		d.Day = g.rng(1, last)
	}
	return d
}

func (g gen) clock(d *spec.Date) {
	d.Hour, d.Min, d.Sec = g.n(24), g.n(60), g.n(60)
	switch g.n(6) {
	case 0:
		d.Hour, d.Min, d.Sec = 0, 0, 0
	case 1:
		d.Hour, d.Min, d.Sec = 23, 59, 59
	}
}

// clockLeap is clock with leap seconds.
func (g gen) clockLeap(d *spec.Date) {
	g.clock(d)
	if g.pct(6) {
		d.Sec = 60
	}
}

// offset gives an offset as written and in seconds.
func (g gen) offset() (string, int) {
	var h, m int
	switch g.n(4) {
	case 0:
		h, m = g.n(15), []int{0, 15, 30, 45}[g.n(4)]
	case 1:
		h, m = g.n(24), g.n(60)
	case 2:
		h, m = g.n(100), g.n(60)
	case 3:
		h, m = []int{0, 0, 12, 14, 23, 24, 99, 10, 9}[g.n(9)], []int{0, 1, 59, 0, 0, 30, 59, 10, 9}[g.n(9)]
	}
	v := h*3600 + m*60
	sign := g.pick("+", "-")
	if sign == "-" {
		v = -v
	}
	return fmt.Sprintf("%s%02d%02d", sign, h, m), v
}

func weekday(d spec.Date) string {
	return dayText[time.Date(d.Year, time.Month(d.Month), d.Day, 0, 0, 0, 0, time.UTC).Weekday()]
}

func checkD(c *Case) error { return expectD(c.In[0], *c.Date) }

// dated makes a generator of a date-time built together with its fields.
func dated(f func(g gen, c *Case) (string, spec.Date)) func(t *rapid.T) *Case {
	return func(t *rapid.T) *Case {
		c := &Case{}
		s, d := f(gen{t}, c)
		c.In, c.Date = []B{B(s)}, &d
		return c
	}
}

// wild writes a date in any way the grammar allows: optional parts, short forms, letter case,
// comments and folds.
func (g gen) wild(c *Case) (string, spec.Date) {
	o := opts{cfws: g.n(2) * g.n(60)}
	d := g.day(0, 9999)
	two := g.pct(30)
	if two {
		d = g.day(1950, 2049)
	}
	g.clockLeap(&d)
	var s string
	if g.pct(60) {
		w := weekday(d)
		if g.pct(25) {
			w = dayText[g.n(7)] // the name is not checked against the date
			c.label("weekday:any")
		}
		s = g.at(o) + mixCase(g, w) + g.at(o) + ","
		c.label("weekday")
	}
	lead := g.at(o)
	if lead == "" && g.pct(70) {
		lead = " "
	}
	s += lead
	if d.Day < 10 && g.bit() {
		s += fmt.Sprint(d.Day)
		c.label("day:1-digit")
	} else {
		s += fmt.Sprintf("%02d", d.Day)
	}
	mid := " "
	if g.pct(35) {
		mid = g.at(o)
	}
	s += mid + mixCase(g, monthText[d.Month-1])
	if two {
		mid := " "
		if g.pct(35) {
			mid = g.at(o)
		}
		s += fmt.Sprintf("%s%02d", mid, d.Year%100)
		mid = " "
		if g.pct(35) {
			mid = g.at(o)
		}
		if mid == "" && d.Hour < 10 {
			mid = " "
		}
		s += mid
		c.label("year:2-digit")
	} else {
		s += fmt.Sprintf("%s%04d%s", g.fws1(o), d.Year, g.fws1(o))
		if g.pct(o.cfws) {
			s += g.comment(1)
			if g.bit() {
				s += g.fws()
			}
		}
	}
	if d.Hour < 10 && g.bit() {
		s += fmt.Sprint(d.Hour)
		c.label("hour:1-digit")
	} else {
		s += fmt.Sprintf("%02d", d.Hour)
	}
	s += g.at(o) + ":" + g.at(o) + fmt.Sprintf("%02d", d.Min)
	if g.pct(70) {
		s += g.at(o) + ":" + g.at(o) + fmt.Sprintf("%02d", d.Sec)
	} else {
		d.Sec = 0
		c.label("no-seconds")
	}
	switch g.weighted(50, 25, 25) {
	case 0:
		off, v := g.offset()
		d.Off = v
		if v >= 0 && off[0] == '+' && g.pct(30) {
			off = off[1:]
			c.label("offset:no-sign")
		}
		if g.pct(o.cfws) {
			s += g.comment(1)
		}
		s += g.fws1(o) + off
		c.label("offset")
	case 1:
		z := g.n(len(zoneText))
		d.Off = spec.ZoneOffsets[strings.ToLower(zoneText[z])] * 3600
		mid := " "
		if g.pct(35) {
			mid = g.at(o)
		}
		s += mid + mixCase(g, zoneText[z])
		c.label("zone:name")
	case 2:
		c.label("no-zone")
	}
	switch g.n(4) {
	case 0:
		s += " (" + g.pick("CET", "UTC", "Pacific Standard Time", "+0100", "x(y)", "12:00", "", strings.Map(noParens, g.pick(dictionary...)), zoneText[g.n(len(zoneText))], mixCase(g, zoneText[g.n(len(zoneText))])) + ")"
		c.label("end-comment")
	case 1:
		s += g.at(o)
	}
	c.labelIf(strings.Contains(s, "("), "comment")
	c.labelIf(strings.Contains(s, "\r\n"), "fold")
	return s, d
}

func noParens(r rune) rune {
	if strings.ContainsRune("()\\\x00\r\n", r) {
		return -1
	}
	return r
}

// fws1 is white space: a plain space most of the time.
func (g gen) fws1(o opts) string {
	if g.pct(o.cfws) {
		return g.fws()
	}
	return " "
}

// soupD is a sequence of date tokens.
var dateTokens = []string{"Mon", ",", " ", "1", "01", "31", "Jan", "jan", "Feb", "2006", "06", "99", "15", ":", "04", "05", "+0100", "-0000", "0100", "GMT", "UT", "EST", "Z", "(c)",
	"\r\n ", "\t", ".", "-", "+", "é", "ſ", "K", "\x00", "\r\n", "0", "M", "am", "(", ")", "\\"}

func (g gen) dateToken() string {
	if g.pct(6) {
		return g.pick(dictionary...)
	}
	return dateTokens[g.n(len(dateTokens))]
}

func (g gen) soupD(max int) string {
	var b strings.Builder
	for n := g.rng(1, max); n > 0; n-- {
		b.WriteString(g.dateToken())
	}
	return b.String()
}

func (g gen) mutateD(s string) string {
	if g.bit() {
		return g.mutate(s)
	}
	r := []rune(s)
	for n := g.geo(1, 3, 40); n > 0; n-- {
		i := g.n(len(r) + 1)
		switch g.n(4) {
		case 0:
			if i < len(r) {
				r = append(append([]rune{}, r[:i]...), r[i+1:]...)
			}
		case 1:
			r = append(append(append([]rune{}, r[:i]...), []rune(g.dateToken())...), r[i:]...)
		case 2:
			if i < len(r) && r[i] < 128 && r[i] >= '0' && r[i] <= '9' {
				r[i] = rune('0' + g.n(10))
			}
		case 3:
			if i+1 < len(r) {
				r[i], r[i+1] = r[i+1], r[i]
			}
		}
	}
	return string(r)
}

// anyDateText is a candidate date, valid or not.
func (g gen) anyDateText(c *Case) string {
	switch g.weighted(25, 40, 15, 15, 5) {
	case 0:
		c.label("source:valid")
		s, _ := g.wild(&Case{})
		return s
	case 1:
		c.label("source:mutated")
		s, _ := g.wild(&Case{})
		return g.mutateD(s)
	case 2:
		c.label("source:grammar")
		return spec.Random("dateTime", g.n, g.rng(10, 60))
	case 3:
		c.label("source:soup")
		return g.soupD(12)
	}
	c.label("source:bytes")
	return g.bytes(20)
}

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "A case is a date that exists (boundaries of months, leap days and years often; years 0000 to 9999; a leap second now and then) in the standard layout with or without the weekday and seconds. Every case is non-trivial.",
		Subs: []Sub{
			{Name: "fields", Quick: 120000, Thorough: 1500000, Check: checkD, Gen: dated(func(g gen, c *Case) (string, spec.Date) {
				d := g.day(0, 9999)
				g.clock(&d)
				var s string
				if g.pct(70) {
					s = weekday(d) + ", "
					c.label("weekday")
				}
				if g.bit() {
					s += fmt.Sprintf("%02d", d.Day)
				} else {
					s += fmt.Sprint(d.Day)
				}
				s += fmt.Sprintf(" %s %04d %02d:%02d", monthText[d.Month-1], d.Year, d.Hour, d.Min)
				if g.pct(80) {
					if g.pct(3) {
						d.Sec = 60
						c.label("leap-second")
					}
					s += fmt.Sprintf(":%02d", d.Sec)
				} else {
					d.Sec = 0
					c.label("no-seconds")
				}
				off, v := g.offset()
				d.Off = v
				c.labelIf(d.Month == 2 && d.Day == 29, "leap-day")
				c.labelIf(d.Year < 100, "year:small")
				return s + " " + off, d
			})},
			{Name: "order", Quick: 16000, Thorough: 150000, Gen: func(t *rapid.T) *Case {
				// Two dates in different zones compare as the instants do.
				g := gen{t}
				c := &Case{}
				for i := 0; i < 2; i++ {
					d := g.day(1950, 2049)
					if i == 1 && g.pct(60) { // close to the first
						d = *c.Date
						d.Hour, d.Min, d.Sec = g.n(24), g.n(60), g.n(60)
					} else {
						g.clock(&d)
					}
					off, v := g.offset()
					d.Off = v
					c.In = append(c.In, B(fmt.Sprintf("%d %s %04d %02d:%02d:%02d %s", d.Day, monthText[d.Month-1], d.Year, d.Hour, d.Min, d.Sec, off)))
					c.Ints = append(c.Ints, int(timeOf(d).Unix()))
					c.Date = &d
				}
				c.Date = nil
				return c
			}, Check: func(c *Case) error {
				a, err1 := parseD(string(c.In[0]))
				b, err2 := parseD(string(c.In[1]))
				if err1 != nil || err2 != nil {
					return fmt.Errorf("ParseDateTime(%+q), ParseDateTime(%+q): %v, %v", string(c.In[0]), string(c.In[1]), err1, err2)
				}
				if got, want := b.Sub(a), time.Duration(c.Ints[1]-c.Ints[0])*time.Second; got != want {
					return fmt.Errorf("from %+q to %+q is %v, want %v", string(c.In[0]), string(c.In[1]), got, want)
				}
				return nil
			}},
		},
	})

	register(&Prop{
		ID:   "C16",
		Rule: "A case is a date-time with a zone: a numeric offset (-9959 to +9959, with a sign or none), a named zone in any letter case, or none; comments and folds around it now and then. Every case is non-trivial.",
		Subs: []Sub{
			{Name: "offset", Quick: 70000, Thorough: 800000, Check: checkD, Gen: dated(func(g gen, c *Case) (string, spec.Date) {
				d := g.day(1900, 2100)
				g.clock(&d)
				off, v := g.offset()
				d.Off = v
				if off[0] == '+' && g.pct(35) {
					off = off[1:]
					c.label("no-sign")
				}
				c.labelIf(v < 0 && v > -3600, "between-0-and--1h")
				sep := " "
				if g.pct(15) {
					sep = g.fws()
				}
				return fmt.Sprintf("%d %s %04d %02d:%02d:%02d%s%s", d.Day, monthText[d.Month-1], d.Year, d.Hour, d.Min, d.Sec, sep, off) + g.optCFWS(10), d
			})},
			{Name: "name", Quick: 40000, Thorough: 400000, Check: checkD, Gen: dated(func(g gen, c *Case) (string, spec.Date) {
				d := g.day(1900, 2100)
				g.clock(&d)
				z := zoneText[g.n(len(zoneText))]
				c.label(z)
				d.Off = spec.ZoneOffsets[strings.ToLower(z)] * 3600
				z = g.pick(z, strings.ToLower(z), mixCase(g, z))
				sep := " "
				if g.pct(20) {
					sep = g.optCFWS(60)
				}
				s := fmt.Sprintf("%d %s %04d %02d:%02d", d.Day, monthText[d.Month-1], d.Year, d.Hour, d.Min)
				if g.bit() {
					s += fmt.Sprintf(":%02d", d.Sec)
				} else {
					d.Sec = 0
				}
				return s + sep + z + g.optCFWS(15), d
			})},
			{Name: "none", Quick: 10000, Thorough: 100000, Check: checkD, Gen: dated(func(g gen, c *Case) (string, spec.Date) {
				d := g.day(1900, 2100)
				g.clock(&d)
				s := fmt.Sprintf("%d %s %04d %02d:%02d", d.Day, monthText[d.Month-1], d.Year, d.Hour, d.Min)
				if g.bit() {
					s += fmt.Sprintf(":%02d", d.Sec)
				} else {
					d.Sec = 0
				}
				// A zone in a comment is a comment.
				return s + g.pick("", " ", " (EST)", "(+0100)", " (c) ", "\r\n\t"), d
			})},
		},
	})

	register(&Prop{
		ID: "C17",
		Rule: "A case is a date that exists written in any way the grammar allows (no weekday or any weekday, one-digit day or hour, two-digit year, no seconds, no zone, no sign, letter case, missing white space, comments and folds), " +
			"built together with its fields. Trivial: it uses no leniency.",
		Subs: []Sub{
			{Name: "layout", Quick: 30000, Thorough: 400000, Check: checkD, Gen: func(t *rapid.T) *Case {
				c := &Case{}
				s, d := gen{t}.wild(c)
				c.In, c.Date = []B{B(s)}, &d
				c.Trivial = true
				for _, l := range c.Labels {
					if l != "weekday" && l != "offset" {
						c.Trivial = false
					}
				}
				return c
			}},
			{Name: "two-digit-year", Quick: 16000, Thorough: 150000, Check: checkD, Gen: dated(func(g gen, c *Case) (string, spec.Date) {
				y := g.n(100)
				d := spec.Date{Year: 2000 + y, Month: g.rng(1, 12), Day: g.rng(1, 28), Hour: g.n(24), Min: g.n(60)}
				if y >= 50 {
					d.Year = 1900 + y
				}
				pre := ""
				if g.bit() {
					pre = weekday(d) + ", "
				}
				return fmt.Sprintf("%s%d%s%s%s%02d %02d:%02d", pre, d.Day, g.pick(" ", ""), monthText[d.Month-1], g.pick(" ", "(c)", ""), y, d.Hour, d.Min) + g.pick("", " GMT", " +0000", " UT"), d
			})},
			{Name: "weekday-ignored", Quick: 6000, Thorough: 60000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				d := g.day(1900, 2100)
				g.clock(&d)
				rest := fmt.Sprintf("%d %s %04d %02d:%02d:%02d +0000", d.Day, monthText[d.Month-1], d.Year, d.Hour, d.Min, d.Sec)
				c := &Case{Date: &d, In: []B{B(rest)}}
				for _, w := range dayText {
					if g.pct(40) {
						c.In = append(c.In, B(mixCase(g, w)+g.pick(",", ", ", " ,")+rest))
					}
				}
				return c
			}, Check: func(c *Case) error {
				for _, in := range c.In {
					if err := expectD(in, *c.Date); err != nil {
						return err
					}
				}
				return nil
			}},
		},
	})

	register(&Prop{
		ID: "C18",
		Rule: "A case is a candidate date-time: valid ones, mutations of them, random strings of the grammar, token soup and bytes; the reference recogniser says whether it is in the published grammar and what it stands for. " +
			"Trivial: the grammar accepts it but a field is out of range (what those mean is not claimed).",
		Subs: []Sub{
			{Name: "language", Quick: 40000, Thorough: 600000, Gen: func(t *rapid.T) *Case {
				c := &Case{}
				c.In = []B{B(gen{t}.anyDateText(c))}
				return c
			}, Check: checkDateLanguage},
		},
	})

	register(&Prop{
		ID:   "C19",
		Rule: "A case is an instant and a zone (offsets of whole minutes within a day) formatted with time.Time.Format in one of 15 mail layouts and parsed back; where net/mail.ParseDate reads the text, both must agree. Every case is non-trivial.",
		Subs: []Sub{
			{Name: "format", Quick: 60000, Thorough: 700000, Gen: func(t *rapid.T) *Case {
				g := gen{t}
				d := g.day(1900, 9998)
				li := g.n(len(layouts))
				if strings.Contains(layouts[li], " 06 ") {
					d = g.day(1951, 2048)
				}
				g.clock(&d)
				if li == len(layouts)-1 {
					d.Off = 0
				} else if g.pct(85) {
					d.Off = (g.rng(0, 47*60) - 23*60 - 30) * 60
					if d.Off > 86340 || d.Off < -86340 {
						d.Off = 0
					}
				}
				tm := timeOf(d)
				if d.Off == 0 && g.bit() {
					tm = tm.UTC()
				} else if strings.Contains(layouts[li], "(MST)") {
					// The name of the zone may be anything, and belies the offset.
					tm = tm.In(time.FixedZone(g.pick(zoneText[g.n(len(zoneText))], "CET", "CEST", "AEST", "", "Z", "BST", "+0100", "Local"), d.Off))
				}
				if li == len(layouts)-1 {
					tm = tm.UTC()
				}
				s := tm.Format(layouts[li])
				if li == len(layouts)-1 {
					s = strings.Replace(s, "UTC", "GMT", 1)
				}
				if !strings.Contains(layouts[li], ":05") {
					d.Sec = 0
				}
				c := &Case{In: []B{B(s)}, Date: &d}
				c.label(layouts[li])
				return c
			}, Check: func(c *Case) error {
				if err := expectD(c.In[0], *c.Date); err != nil {
					return err
				}
				if len(c.Labels) > 0 && strings.Contains(c.Labels[0], " 06 ") {
					return nil // net/mail puts two-digit years elsewhere
				}
				if tm, err := mail.ParseDate(string(c.In[0])); err == nil {
					if got, _ := parseD(string(c.In[0])); !got.Equal(tm) {
						return fmt.Errorf("ParseDateTime(%+q) = %v, net/mail has %v", string(c.In[0]), got, tm)
					}
				}
				return nil
			}},
		},
	})
}

var layouts = []string{
	time.RFC1123Z,
	time.RFC822Z,
	"Mon, 2 Jan 2006 15:04:05 -0700",
	"2 Jan 2006 15:04:05 -0700",
	"2 Jan 2006 15:04 -0700",
	"02 Jan 06 15:04:05 -0700",
	"Mon, _2 Jan 2006 15:04:05 -0700",
	"Mon, 2 Jan 2006 15:04:05 -0700 (MST)",
	"Mon,2 Jan 2006 15:04:05 -0700",
	"Mon, 02 Jan 2006 15:04:05 -0700 (MST)",
	"2 Jan 2006 15:04:05 -0700 (MST)",
	"Mon, 2 Jan 2006 15:04 -0700 (MST)",
	"Mon, 2 Jan 2006 15:04 -0700",
	"02 Jan 06 15:04 -0700 (MST)",
	time.RFC1123, // with GMT
}

func checkDateLanguage(c *Case) error {
	in := string(c.In[0])
	if in == "" {
		c.Trivial = true
		return nil
	}
	want, ok, err := spec.Time(in)
	if err != nil {
		c.Trivial = true
		c.label("reference-limit")
		return nil
	}
	got, gerr := parseD(in)
	if isPanic(gerr) {
		return fmt.Errorf("ParseDateTime(%+q): %v", in, gerr)
	}
	switch {
	case !ok && gerr == nil:
		return fmt.Errorf("ParseDateTime(%+q) = %v; it is not in the grammar", in, got)
	case !ok:
		c.label("rejected")
		return nil
	case !valid(want):
		c.label("out-of-range")
		c.Trivial = true
		return nil
	case gerr != nil:
		return fmt.Errorf("ParseDateTime(%+q) fails: %v; it is in the grammar", in, gerr)
	}
	c.label("accepted")
	return expectD(c.In[0], want)
}
