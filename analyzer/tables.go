package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// dictIssue checks a dictionary of synonyms: unambiguous, nothing empty and, for names, recognized without diacritics.
func dictIssue(m map[string]string, ignoreCase bool, ignore map[rune]bool, names bool) string {
	norm := func(s string) string {
		var b strings.Builder
		for _, r := range s {
			if ignoreCase {
				r = unicode.ToLower(r)
			}
			if !ignore[r] {
				b.WriteRune(r)
			}
		}
		return b.String()
	}
	fold := map[rune]string{}
	for _, e := range luceneTable() {
		fold[rune(e.from)] = e.to
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	owner := map[string]string{}
	for _, k := range keys {
		c := m[k]
		if strings.TrimSpace(c) == "" {
			return fmt.Sprintf("the canonical term of %q is empty", k)
		}
		for _, syn := range splitSynonyms(k) {
			n := norm(syn)
			if strings.TrimSpace(n) == "" {
				return fmt.Sprintf("a synonym of %q is empty (in %q)", c, k)
			}
			if o, ok := owner[n]; ok && o != c {
				return fmt.Sprintf("the synonym %q is claimed by %q and %q", strings.TrimSpace(syn), o, c)
			}
			owner[n] = c
		}
	}
	if names {
		for _, k := range keys {
			c := m[k]
			if owner[norm(c)] != c {
				return fmt.Sprintf("the name %q is not recognized", c)
			}
			var b strings.Builder
			for _, r := range c {
				if t, ok := fold[r]; ok {
					b.WriteString(t)
				} else {
					b.WriteRune(r)
				}
			}
			if owner[norm(b.String())] != c {
				return fmt.Sprintf("the name %q is not recognized as %q", c, b.String())
			}
		}
	}
	return ""
}

// splitSynonyms splits an entry at its commas (but those within numbers).
func splitSynonyms(s string) []string {
	var out []string
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] != ',' {
			continue
		}
		prev, _ := utf8.DecodeLastRuneInString(s[:i])
		next, _ := utf8.DecodeRuneInString(s[i+1:])
		if unicode.IsDigit(prev) && unicode.IsDigit(next) {
			continue
		}
		out = append(out, s[start:i])
		start = i + 1
	}
	return append(out, s[start:])
}

func init() {
	intrinsic("dictIssue", func(c *Call) (Val, bool) {
		mv, ok := c.args[0].(MapV)
		if !ok {
			undecided("the dictionary is %s", describe(c.args[0]))
		}
		o := c.s.obj(mv.Obj)
		if o.Lazy || len(o.P) > 0 {
			undecided("the dictionary's entries are unknown")
		}
		m := map[string]string{}
		for _, e := range o.M {
			k, ok1 := asStr(e.K)
			v, ok2 := asStr(e.V)
			if !ok1 || !ok2 {
				undecided("the dictionary's entries are unknown")
			}
			m[k] = v
		}
		ignore := map[rune]bool{}
		if !isNil(c.args[2]) {
			for _, p := range c.s.view(c.x.matSlice(c.s, c.args[2])) {
				n, ok := asInt(p.Elem0())
				if p.Seg > 0 || !ok {
					undecided("the dictionary's ignored runes are unknown")
				}
				ignore[rune(n)] = true
			}
		}
		ic, ok1 := c.s.evalBool(c.args[1])
		names, ok2 := c.s.evalBool(c.args[3])
		if !ok1 || !ok2 {
			undecided("the dictionary's options are unknown")
		}
		return cStr(dictIssue(m, ic, ignore, names)), true
	})
}
