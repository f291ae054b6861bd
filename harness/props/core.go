// Package props states the listed properties of go-rfc5322 as executable checks over generated cases.
//
// A check is a list of subs. A sub has a generator, which builds a concrete Case with rapid, and a
// Check, which decides a Case without rapid: the same function runs the generated cases and replays
// a saved one.
package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/mail"
	"os"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
	"pgregory.net/rapid"
	"verifharness/spec"
)

// B is a string of bytes; in JSON it is a Go-quoted ASCII string, so that any bytes survive.
type B string

func (b B) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }

func (b *B) UnmarshalJSON(p []byte) error {
	var s string
	if err := json.Unmarshal(p, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*b = B(u)
	return err
}

// Addr is an expected mailbox.
type Addr struct{ Name, Address B }

func (a Addr) String() string { return fmt.Sprintf("{%+q %+q}", string(a.Name), string(a.Address)) }

// Case is one concrete case of a sub.
type Case struct {
	Prop string `json:"property"`
	Sub  string `json:"sub"`
	// In holds the strings given to the parser, in the order the sub says.
	In    []B        `json:"in"`
	Addrs []Addr     `json:"addrs,omitempty"`
	Date  *spec.Date `json:"date,omitempty"`
	Ints  []int      `json:"ints,omitempty"`
	Strs  []B        `json:"strs,omitempty"`
	// Labels classify the case, for the evidence.
	Labels []string `json:"labels,omitempty"`
	// Trivial marks a case the rule of the sub does not count.
	Trivial bool `json:"trivial,omitempty"`
	// Msg says what failed, in a saved case.
	Msg string `json:"msg,omitempty"`
}

func (c *Case) label(l string) { c.Labels = append(c.Labels, l) }

func (c *Case) labelIf(ok bool, l string) {
	if ok {
		c.label(l)
	}
}

// Sub is one generated check of a property.
type Sub struct {
	Name string
	// Quick and Thorough are the numbers of cases of the tiers, over all shards.
	Quick, Thorough int
	Gen             func(t *rapid.T) *Case
	Check           func(c *Case) error
	// Item, instead of Gen, gives the cases 0, 1, ... of an enumeration, nil after the last one:
	// every case is decided, whatever the counts say.
	Item func(i int) *Case
	// Plain runs the sub without the race detector although the property asks for it.
	Plain bool
	// Choose is the number of generated cases from which one to decide is chosen (default 12).
	Choose int
	// OnlyThorough leaves an enumeration to the thorough tier.
	OnlyThorough bool
}

// Prop is a property.
type Prop struct {
	ID   string
	Rule string
	Subs []Sub
	// Race asks for the race detector, and for short-lived processes using several processors.
	Race bool
	// Procs is GOMAXPROCS of a shard (default 1).
	Procs int
	// Limit is the processor time a case may use (default 180 s).
	Limit time.Duration
	// Rounds is the number of processes run one after another in each shard slot (default 1).
	Rounds int
}

// Props are all properties, in order.
var Props []*Prop

func register(p *Prop) { Props = append(Props, p) }

// Find returns a property.
func Find(id string) *Prop {
	for _, p := range Props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// Panic is what a parse that panicked returns as its error.
type Panic struct{ v any }

func (p *Panic) Error() string { return fmt.Sprintf("panic: %v", p.v) }

// parseA parses an address list; a panic becomes an error of type *Panic.
func parseA(s string) (list []*mail.Address, err error) {
	defer func() {
		if p := recover(); p != nil {
			list, err = nil, &Panic{p}
		}
	}()
	if self {
		return selfA(s)
	}
	return rfc5322.ParseAddressList(s)
}

func parseD(s string) (t time.Time, err error) {
	defer func() {
		if p := recover(); p != nil {
			t, err = time.Time{}, &Panic{p}
		}
	}()
	if self {
		return selfD(s)
	}
	return rfc5322.ParseDateTime(s)
}

// With VH_SELF=1 the checks run against the reference model instead of the parser. That tests the
// generators and the model against each other, at a much higher speed; no registered check does it.
var self = os.Getenv("VH_SELF") == "1"

var errSelf = errors.New("rejected by the reference")

func selfA(s string) ([]*mail.Address, error) {
	if s == "" {
		return []*mail.Address{}, nil
	}
	list, ok, err := spec.Addresses(s, rfc5322.CharsetReader)
	if err != nil || !ok {
		return nil, errSelf
	}
	var out []*mail.Address
	for _, a := range list {
		out = append(out, &mail.Address{Name: a.Name, Address: a.Address})
	}
	return out, nil
}

func selfD(s string) (time.Time, error) {
	if s == "" {
		return time.Time{}, nil
	}
	d, ok, err := spec.Time(s)
	if err != nil || !ok {
		return time.Time{}, errSelf
	}
	return timeOf(d), nil
}

func isPanic(err error) bool { _, ok := err.(*Panic); return ok }

// addrs converts a result. A nil entry is an error.
func addrs(list []*mail.Address) ([]Addr, error) {
	out := []Addr{}
	for i, a := range list {
		if a == nil {
			return nil, fmt.Errorf("entry %d of the result is nil", i)
		}
		out = append(out, Addr{B(a.Name), B(a.Address)})
	}
	return out, nil
}

// mustA parses and fails if the input is rejected.
func mustA(s B) ([]Addr, error) {
	list, err := parseA(string(s))
	if err != nil {
		return nil, fmt.Errorf("ParseAddressList(%+q) fails: %v", string(s), err)
	}
	out, err := addrs(list)
	if err != nil {
		return nil, fmt.Errorf("ParseAddressList(%+q): %v", string(s), err)
	}
	return out, nil
}

func sameAddrs(a, b []Addr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// expectA checks that an input gives exactly these mailboxes.
func expectA(in B, want []Addr) error {
	got, err := mustA(in)
	if err != nil {
		return fmt.Errorf("%v; want %v", err, want)
	}
	if !sameAddrs(got, want) {
		return fmt.Errorf("ParseAddressList(%+q) = %v, want %v", string(in), got, want)
	}
	return nil
}

// date gives the fields of a time as written in its zone.
func date(t time.Time) spec.Date {
	_, off := t.Zone()
	return spec.Date{Year: t.Year(), Month: int(t.Month()), Day: t.Day(), Hour: t.Hour(), Min: t.Minute(), Sec: t.Second(), Off: off}
}

// timeOf gives the time a valid date stands for; a leap second is the next second.
func timeOf(d spec.Date) time.Time {
	return time.Date(d.Year, time.Month(d.Month), d.Day, d.Hour, d.Min, d.Sec, 0, time.FixedZone("", d.Off))
}

func expectD(in B, d spec.Date) error {
	got, err := parseD(string(in))
	if err != nil {
		return fmt.Errorf("ParseDateTime(%+q) fails: %v; want %+v", string(in), err, d)
	}
	want := timeOf(d)
	if !got.Equal(want) || date(got) != date(want) {
		return fmt.Errorf("ParseDateTime(%+q) = %v, want %v", string(in), got.Format(time.RFC3339Nano), want.Format(time.RFC3339Nano))
	}
	return nil
}

// valid says whether the date exists (a leap second does).
func valid(d spec.Date) bool {
	if d.Month < 1 || d.Month > 12 || d.Day < 1 || d.Hour > 23 || d.Min > 59 || d.Sec > 60 {
		return false
	}
	return time.Date(d.Year, time.Month(d.Month), d.Day, 0, 0, 0, 0, time.UTC).Day() == d.Day
}

func fromSpec(list []spec.Addr) []Addr {
	out := []Addr{}
	for _, a := range list {
		out = append(out, Addr{B(a.Name), B(a.Address)})
	}
	return out
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func astral(s string) bool {
	for _, r := range s {
		if r > 0xffff {
			return true
		}
	}
	return false
}

func wellFormed(s string) bool { return utf8.ValidString(s) }

func join(parts ...string) string { return strings.Join(parts, "") }
