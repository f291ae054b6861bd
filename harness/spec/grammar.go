// Package spec is the reference model the checks compare the implementation with.
//
// It holds its own copy of the published grammar (grammar.g4, the parser grammar of go-rfc5322) and
// the token alphabet, an ordered-choice recogniser for it which shares no code with ANTLR, and an
// evaluator which turns a derivation into mailboxes or a time, written from RFC 5322/2047 and the
// README of the project.
package spec

import (
	_ "embed"
	"fmt"
	"regexp"
	"strings"
)

//go:embed grammar.g4
var grammarText string

type kind uint8

const (
	kTerm kind = iota
	kRule
	kSeq
	kAlt
	kStar
	kPlus
	kOpt
	kEOF
	kEnd // end of a rule, only on the stack
)

type node struct {
	kind  kind
	id    int
	term  string // kTerm
	match func(rune) bool
	rule  *Rule // kRule, kEnd
	sub   []*node

	nullable bool
	first    [129]bool // index 128: non-ASCII
	firstEOF bool
}

// Rule is a named rule of the grammar.
type Rule struct {
	Name string
	body *node
	end  *node
}

// Grammar is the parsed grammar.
type Grammar struct {
	Rules map[string]*Rule
	nodes []*node
}

// G is the published grammar.
var G = mustParse(grammarText)

// Classes is the token alphabet: each token is one character.
var classes = func() map[string]func(rune) bool {
	m := map[string]func(rune) bool{
		"U_00":         func(r rune) bool { return r == 0 },
		"U_01_08":      func(r rune) bool { return r >= 1 && r <= 8 },
		"TAB":          func(r rune) bool { return r == '\t' },
		"LF":           func(r rune) bool { return r == '\n' },
		"U_0B":         func(r rune) bool { return r == 0x0b },
		"U_0C":         func(r rune) bool { return r == 0x0c },
		"CR":           func(r rune) bool { return r == '\r' },
		"U_0E_1F":      func(r rune) bool { return r >= 0x0e && r <= 0x1f },
		"Digit":        func(r rune) bool { return r >= '0' && r <= '9' },
		"Delete":       func(r rune) bool { return r == 0x7f },
		"UTF8NonAscii": func(r rune) bool { return r >= 0x80 && r <= 0x10ffff },
	}
	for name, c := range map[string]rune{
		"SP": ' ', "Exclamation": '!', "DQuote": '"', "Hash": '#', "Dollar": '$', "Percent": '%',
		"Ampersand": '&', "SQuote": '\'', "LParens": '(', "RParens": ')', "Asterisk": '*', "Plus": '+',
		"Comma": ',', "Minus": '-', "Period": '.', "Slash": '/', "Colon": ':', "Semicolon": ';',
		"Less": '<', "Equal": '=', "Greater": '>', "Question": '?', "At": '@', "LBracket": '[',
		"Backslash": '\\', "RBracket": ']', "Caret": '^', "Underscore": '_', "Backtick": '`',
		"LCurly": '{', "Pipe": '|', "RCurly": '}', "Tilde": '~',
	} {
		c := c
		m[name] = func(r rune) bool { return r == c }
	}
	for c := 'A'; c <= 'Z'; c++ {
		c := c
		m[string(c)] = func(r rune) bool { return r == c || r == c+'a'-'A' }
	}
	return m
}()

func mustParse(text string) *Grammar {
	var clean []string
	for _, line := range strings.Split(text, "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		clean = append(clean, line)
	}
	src := strings.Join(clean, "\n")
	src = regexp.MustCompile(`(?s)^\s*parser grammar \w+;\s*options\s*\{.*?\}`).ReplaceAllString(src, "")
	toks := regexp.MustCompile(`\w+|[:;|()*+?]`).FindAllString(src, -1)

	g := &Grammar{Rules: map[string]*Rule{}}
	for i := 0; i+1 < len(toks); i++ {
		if toks[i+1] == ":" && toks[i][0] >= 'a' && toks[i][0] <= 'z' {
			r := &Rule{Name: toks[i]}
			r.end = g.add(&node{kind: kEnd, rule: r, nullable: true})
			g.Rules[toks[i]] = r
		}
	}
	p := &g4{g: g, toks: toks}
	for p.pos < len(toks) {
		name := p.next()
		r := g.Rules[name]
		if r == nil {
			panic("grammar: unexpected " + name)
		}
		p.expect(":")
		r.body = p.alts()
		p.expect(";")
	}
	g.analyse()
	return g
}

type g4 struct {
	g    *Grammar
	toks []string
	pos  int
}

func (p *g4) next() string { p.pos++; return p.toks[p.pos-1] }
func (p *g4) peek() string { return p.toks[p.pos] }
func (p *g4) expect(s string) {
	if t := p.next(); t != s {
		panic(fmt.Sprintf("grammar: got %q, want %q", t, s))
	}
}

func (g *Grammar) add(n *node) *node {
	n.id = len(g.nodes)
	g.nodes = append(g.nodes, n)
	return n
}

func (p *g4) alts() *node {
	list := []*node{p.seq()}
	for p.peek() == "|" {
		p.next()
		list = append(list, p.seq())
	}
	if len(list) == 1 {
		return list[0]
	}
	return p.g.add(&node{kind: kAlt, sub: list})
}

func (p *g4) seq() *node {
	var list []*node
	for {
		switch p.peek() {
		case "|", ")", ";":
			if len(list) == 1 {
				return list[0]
			}
			return p.g.add(&node{kind: kSeq, sub: list})
		}
		var n *node
		switch t := p.next(); {
		case t == "(":
			n = p.alts()
			p.expect(")")
		case t == "EOF":
			n = p.g.add(&node{kind: kEOF})
		case p.g.Rules[t] != nil:
			n = p.g.add(&node{kind: kRule, rule: p.g.Rules[t]})
		case classes[t] != nil:
			n = p.g.add(&node{kind: kTerm, term: t, match: classes[t]})
		default:
			panic("grammar: unknown symbol " + t)
		}
		switch p.peek() {
		case "*":
			p.next()
			n = p.g.add(&node{kind: kStar, sub: []*node{n}})
		case "+":
			p.next()
			star := p.g.add(&node{kind: kStar, sub: []*node{n}})
			n = p.g.add(&node{kind: kSeq, sub: []*node{n, star}})
		case "?":
			p.next()
			n = p.g.add(&node{kind: kOpt, sub: []*node{n}})
		}
		list = append(list, n)
	}
}

func (g *Grammar) analyse() {
	for changed := true; changed; {
		changed = false
		for _, n := range g.nodes {
			old, oldFirst, oldEOF := n.nullable, n.first, n.firstEOF
			join := func(m *node) {
				for i, v := range m.first {
					if v {
						n.first[i] = true
					}
				}
				n.firstEOF = n.firstEOF || m.firstEOF
			}
			switch n.kind {
			case kTerm:
				for i := 0; i < 128; i++ {
					n.first[i] = n.match(rune(i))
				}
				n.first[128] = n.term == "UTF8NonAscii"
			case kEOF:
				n.firstEOF = true
			case kRule:
				n.nullable = n.rule.body.nullable
				join(n.rule.body)
			case kSeq:
				n.nullable = true
				for _, m := range n.sub {
					if n.nullable {
						join(m)
					}
					n.nullable = n.nullable && m.nullable
				}
			case kAlt:
				for _, m := range n.sub {
					n.nullable = n.nullable || m.nullable
					join(m)
				}
			case kStar, kOpt:
				n.nullable = true
				join(n.sub[0])
				if n.kind == kStar && n.sub[0].nullable {
					panic("grammar: nullable loop body")
				}
			}
			if old != n.nullable || oldFirst != n.first || oldEOF != n.firstEOF {
				changed = true
			}
		}
	}
}

func (n *node) can(r rune, eof bool) bool {
	if n.nullable {
		return true
	}
	if eof {
		return n.firstEOF
	}
	if r >= 128 {
		return n.first[128]
	}
	return n.first[r]
}

// Tree is a node of a derivation: the rule and the characters it covers.
type Tree struct {
	Rule       string
	Start, End int
	Kids       []*Tree
}

type frame struct {
	n    *node
	next *frame
	id   int
}

type fkey struct{ n, next int }
type mkey struct{ f, pos int }

type event struct {
	rule  *Rule
	enter bool
	pos   int
}

// run is one recognition.
type run struct {
	in     []rune
	frames map[fkey]*frame
	failed map[mkey]struct{}
	events []event
	steps  int
	limit  int
}

// ErrLimit is returned when a recognition takes too many steps.
type ErrLimit struct{}

func (ErrLimit) Error() string { return "spec: step limit" }

func (r *run) push(n *node, next *frame) *frame {
	k := fkey{n.id, next.id}
	if f, ok := r.frames[k]; ok {
		return f
	}
	f := &frame{n: n, next: next, id: len(r.frames) + 1}
	r.frames[k] = f
	return f
}

// Derive returns the derivation of the whole input from rule: among all derivations, the one which
// at every choice, from left to right, takes the earliest alternative and the longest repetition
// that still lets the whole input match. It returns nil if the input is not in the language.
func Derive(rule string, input string) (tree *Tree, err error) {
	return DeriveWithin(rule, input, 20_000_000)
}

// DeriveWithin is Derive with a limit of its own to the number of steps.
func DeriveWithin(rule string, input string, limit int) (tree *Tree, err error) {
	g := G
	r := &run{
		in:     []rune(input),
		frames: map[fkey]*frame{},
		failed: map[mkey]struct{}{},
		limit:  limit,
	}
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(ErrLimit); ok {
				tree, err = nil, e
				return
			}
			panic(p)
		}
	}()
	bottom := &frame{}
	root := g.add0(g.Rules[rule])
	if !r.match(r.push(root, bottom), 0) {
		return nil, nil
	}
	var stack []*Tree
	for _, e := range r.events {
		if e.enter {
			t := &Tree{Rule: e.rule.Name, Start: e.pos}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, t)
			}
			stack = append(stack, t)
		} else {
			t := stack[len(stack)-1]
			t.End = e.pos
			stack = stack[:len(stack)-1]
			tree = t
		}
	}
	return tree, nil
}

var roots = map[string]*node{}

func (g *Grammar) add0(r *Rule) *node { return roots[r.Name] }

func init() {
	for _, name := range []string{"addressList", "dateTime"} {
		n := G.add(&node{kind: kRule, rule: G.Rules[name]})
		n.nullable = G.Rules[name].body.nullable
		n.first = G.Rules[name].body.first
		roots[name] = n
	}
}

func (r *run) match(f *frame, pos int) bool {
	var k mkey
	memo := false
	mark := len(r.events)
	fail := func() bool {
		r.events = r.events[:mark]
		if memo {
			r.failed[k] = struct{}{}
		}
		return false
	}
	for {
		if f.n == nil { // bottom of the stack
			if pos == len(r.in) {
				return true
			}
			return fail()
		}
		r.steps++
		if r.steps > r.limit {
			panic(ErrLimit{})
		}
		n := f.n
		var c rune
		eof := pos == len(r.in)
		if !eof {
			c = r.in[pos]
		}
		if !n.can(c, eof) {
			return fail()
		}
		switch n.kind {
		case kTerm:
			if eof || !n.match(c) {
				return fail()
			}
			f, pos = f.next, pos+1
		case kEOF:
			if !eof {
				return fail()
			}
			f = f.next
		case kEnd:
			r.events = append(r.events, event{n.rule, false, pos})
			f = f.next
		case kRule:
			r.events = append(r.events, event{n.rule, true, pos})
			f = r.push(n.rule.body, r.push(n.rule.end, f.next))
		case kSeq:
			g := f.next
			for i := len(n.sub) - 1; i >= 0; i-- {
				g = r.push(n.sub[i], g)
			}
			f = g
		case kAlt, kStar, kOpt:
			k = mkey{f.id, pos}
			if _, bad := r.failed[k]; bad {
				r.events = r.events[:mark]
				return false
			}
			here := len(r.events)
			switch n.kind {
			case kAlt:
				for _, m := range n.sub {
					if m.can(c, eof) && r.match(r.push(m, f.next), pos) {
						return true
					}
					r.events = r.events[:here]
				}
			case kStar:
				if m := n.sub[0]; m.can(c, eof) && r.match(r.push(m, f), pos) {
					return true
				}
				r.events = r.events[:here]
				if r.match(f.next, pos) {
					return true
				}
			case kOpt:
				if m := n.sub[0]; m.can(c, eof) && r.match(r.push(m, f.next), pos) {
					return true
				}
				r.events = r.events[:here]
				if r.match(f.next, pos) {
					return true
				}
			}
			r.failed[k] = struct{}{}
			r.events = r.events[:mark]
			return false
		}
	}
}
