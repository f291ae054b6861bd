package props

import (
	"fmt"
	"strings"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// A few inputs larger than the random large ones, just over the numbers people choose as limits.

func init() {
	numbered := func(i int) string { return fmt.Sprintf("u%d@h", i) }
	addrList := func(n int, each func(i int) (string, Addr)) (parts []string, want []Addr) {
		for i := 0; i < n; i++ {
			s, a := each(i)
			parts, want = append(parts, s), append(want, a)
		}
		return
	}
	bare := func(i int) (string, Addr) { return numbered(i), Addr{"", B(numbered(i))} }
	named := func(i int) (string, Addr) {
		return fmt.Sprintf("n%d <%s>", i, numbered(i)), Addr{B(fmt.Sprintf("n%d", i)), B(numbered(i))}
	}
	one := func(s string, want []Addr) *Case { return &Case{In: []B{B(s)}, Addrs: want} }

	add("C04", Sub{Name: "longest", Check: checkA, Item: items(func(add func(*Case)) {
		for _, n := range []int{1001, 520, 300} {
			parts, want := addrList(n, bare)
			add(one(strings.Join(parts, ","), want))
		}
		parts, want := addrList(260, named)
		add(one(strings.Join(parts, "; "), want))
		parts, want = addrList(130, func(i int) (string, Addr) { return named(i % 3) })
		add(one(strings.Join(parts, ", "), want))
		parts, want = addrList(66, bare)
		for i := range parts {
			parts[i] = "g:" + parts[i] + ";"
		}
		add(one(strings.Join(parts, ","), want))
		parts, want = addrList(130, bare)
		add(one(",,"+strings.Join(parts, ",,")+",,", want))
	})})

	add("C05", Sub{Name: "longest", Check: checkA, Item: items(func(add func(*Case)) {
		for _, n := range []int{101, 66, 52, 34} {
			parts, want := addrList(n, bare)
			add(one("g:"+strings.Join(parts, ",")+";", want))
		}
		parts, want := addrList(40, named)
		add(one("g:"+strings.Join(parts, ",")+";", want))
		parts, want = addrList(130, bare)
		for i := range parts {
			parts[i] = "g:" + parts[i] + ";"
		}
		add(one(strings.Join(parts, ","), want))
		add(one(strings.Repeat("g:;,", 130)+"g:;", []Addr{}))
		add(one(strings.Repeat("word ", 130)+":a@b;", []Addr{{"", "a@b"}}))
	})})

	words := func(n int, item, value, sep, glue string) *Case {
		raw, v := strings.Repeat(item+sep, n), strings.Repeat(value+glue, n)
		return one(strings.TrimSuffix(raw, sep)+" <a@b>", []Addr{{B(strings.TrimSuffix(v, glue)), "a@b"}})
	}
	add("C09", Sub{Name: "longest", Check: checkA, Item: items(func(add func(*Case)) {
		add(words(130, "=?utf-8?q?a?=", "a", " ", ""))
		add(words(66, "=?utf-8?b?w6k=?=", "é", "\r\n ", ""))
		add(words(40, "=?iso-8859-1?q?=E9_?=", "é ", " ", ""))
		parts, want := addrList(130, func(i int) (string, Addr) {
			return fmt.Sprintf("=?utf-8?q?n%d?= <a@b>", i), Addr{B(fmt.Sprintf("n%d", i)), "a@b"}
		})
		add(one(strings.Join(parts, ","), want))
		add(words(66, "x =?utf-8?q?a?=", "x a", " ", " "))
		add(words(40, "=?utf-9?q?a?=", "=?utf-9?q?a?=", " ", ""))
	})})

	add("C12", Sub{Name: "longest", Check: checkA, Item: items(func(add func(*Case)) {
		add(words(520, "a", "a", " ", " "))
		add(words(260, "\"b\"", "b", " ", " "))
		add(words(130, "abcdefghi", "abcdefghi", "\r\n ", " "))
		add(words(66, "x \"\"", "x ", " ", " "))
	})})

	add("C10", Sub{Name: "longest", Item: items(func(add func(*Case)) {
		for _, mode := range []int{crTag, crErr} {
			c := &Case{Ints: []int{mode}}
			var raw, v string
			for i := 0; i < 66; i++ {
				p := fmt.Sprintf("w%d", i)
				w := "=?koi8-r?q?" + p + "?="
				raw += w + " "
				if x, ok := crValue(mode, "koi8-r", p); ok {
					w = x
				}
				v += w
			}
			c.In, c.Addrs = []B{B(raw + "<a@b>")}, []Addr{{B(v), "a@b"}}
			add(c)
		}
		c := &Case{Ints: []int{crHex}}
		var parts []string
		for i := 0; i < 66; i++ {
			cs := fmt.Sprintf("x-%d", i)
			v, _ := crValue(crHex, cs, "a")
			parts = append(parts, "=?"+cs+"?b?YQ==?= <a@b>")
			c.Addrs = append(c.Addrs, Addr{B(v), "a@b"})
		}
		c.In = []B{B(strings.Join(parts, ","))}
		add(c)
	}), Check: func(c *Case) error {
		defer func() { rfc5322.CharsetReader = nil }()
		var calls []crCall
		rfc5322.CharsetReader = crReader(c.Ints[0], &calls)
		return expectA(c.In[0], c.Addrs)
	}})
}
