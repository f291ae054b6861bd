package spec

// Random gives a random string of the language of a rule. choose(n) picks one of n. cost bounds the
// length: once it is used up the shortest way to finish is taken.
func Random(rule string, choose func(n int) int, cost int) string {
	r := &random{choose: choose, left: cost}
	r.gen(&node{kind: kRule, rule: G.Rules[rule]})
	return string(r.out)
}

type random struct {
	choose func(n int) int
	left   int
	depth  int
	out    []rune
}

const inf = 1 << 20

// minLen is the length of the shortest string of each node.
var minLen = func() []int {
	l := make([]int, len(G.nodes)+16)
	for i := range l {
		l[i] = inf
	}
	for changed := true; changed; {
		changed = false
		for _, n := range G.nodes {
			v := inf
			switch n.kind {
			case kTerm:
				v = 1
			case kEOF, kEnd, kStar, kOpt:
				v = 0
			case kRule:
				v = l[n.rule.body.id]
			case kSeq:
				v = 0
				for _, m := range n.sub {
					v += l[m.id]
				}
				v = min(v, inf)
			case kAlt:
				for _, m := range n.sub {
					v = min(v, l[m.id])
				}
			}
			if v < l[n.id] {
				l[n.id], changed = v, true
			}
		}
	}
	return l
}()

// NonASCII are interesting characters beyond ASCII: each length of UTF-8, characters that change or
// fold to ASCII under case mapping, white space, controls, marks, surrogate neighbours.
var NonASCII = []rune("é\u0080\u0085\u00a0ßĀıİſ\u07ff\u0800\u0301日本語ＡａＫK\u2028\u200b\u202e\ud7ff\ue000\ufeff\ufffd\uffff\U00010000😀𝒜\U000e0041\U0010ffff")

func (r *random) char(n *node) {
	r.left--
	switch n.term {
	case "UTF8NonAscii":
		r.out = append(r.out, NonASCII[r.choose(len(NonASCII))])
		return
	}
	var set []rune
	for c := rune(0); c < 128; c++ {
		if n.match(c) {
			set = append(set, c)
		}
	}
	r.out = append(r.out, set[r.choose(len(set))])
}

func (r *random) gen(n *node) {
	r.depth++
	defer func() { r.depth-- }()
	tired := r.left <= 0 || r.depth > 120
	switch n.kind {
	case kTerm:
		r.char(n)
	case kRule:
		r.gen(n.rule.body)
	case kSeq:
		for _, m := range n.sub {
			r.gen(m)
		}
	case kAlt:
		if tired {
			best := n.sub[0]
			for _, m := range n.sub {
				if minLen[m.id] < minLen[best.id] {
					best = m
				}
			}
			r.gen(best)
			return
		}
		r.gen(n.sub[r.choose(len(n.sub))])
	case kOpt:
		if !tired && r.choose(2) == 1 {
			r.gen(n.sub[0])
		}
	case kStar:
		for r.left > 0 && r.depth <= 120 && r.choose(3) > 0 {
			r.gen(n.sub[0])
		}
	}
}
