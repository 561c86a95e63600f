package main

// A reader for the catalog queries: select list, sources, conditions and order
// in a form that does not depend on layout, letter case, aliases or the order
// of conditions.

import (
	"sort"
	"strings"
	"unicode"
)

type Query struct {
	verb    string   // select, show, insert, ...
	cols    []string // canonical expressions of the select list
	tables  []string // canonical names
	conds   []string // sorted conditions of joins and WHERE; "left:" for outer joins
	order   []string
	params  map[string]string // $n -> the column it is compared with
	many    bool              // more than one statement
	outer   map[string]bool
	rest    string // clauses that are not understood
	dynamic bool
}

func sqlTokens(s string) []string {
	var r []string
	rs := []rune(s)
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '-' && i+1 < len(rs) && rs[i+1] == '-':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(rs) && rs[i+1] == '*':
			i += 2
			for i+1 < len(rs) && !(rs[i] == '*' && rs[i+1] == '/') {
				i++
			}
			i += 2
		case c == '\'' || c == '"':
			j := i + 1
			for j < len(rs) {
				if rs[j] == c {
					if j+1 < len(rs) && rs[j+1] == c {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j >= len(rs) {
				j = len(rs) - 1
			}
			r = append(r, string(rs[i:j+1]))
			i = j + 1
		case unicode.IsLetter(c) || c == '_' || unicode.IsDigit(c) || c == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || rs[j] == '_' || unicode.IsDigit(rs[j]) || rs[j] == '$') {
				j++
			}
			r = append(r, strings.ToLower(string(rs[i:j])))
			i = j
		default:
			two := ""
			if i+1 < len(rs) {
				two = string(rs[i : i+2])
			}
			switch two {
			case "<>", "!=", "<=", ">=", "::", "!~", "||":
				if two == "!=" {
					two = "<>"
				}
				r = append(r, two)
				i += 2
				if two == "!~" && i < len(rs) && (rs[i] == '*' || rs[i] == '~') {
					r[len(r)-1] += string(rs[i])
					i++
				}
			default:
				r = append(r, string(c))
				i++
			}
		}
	}
	return r
}

// splitTop splits at separators outside of parentheses.
func splitTop(toks []string, sep func(string) bool) [][]string {
	var r [][]string
	var cur []string
	d := 0
	for _, t := range toks {
		if t == "(" {
			d++
		}
		if t == ")" {
			d--
		}
		if d == 0 && sep(t) {
			r = append(r, cur)
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	return append(r, cur)
}

func stripParens(t []string) []string {
	for len(t) >= 2 && t[0] == "(" && t[len(t)-1] == ")" {
		d := 0
		for i, x := range t {
			if x == "(" {
				d++
			}
			if x == ")" {
				d--
				if d == 0 && i < len(t)-1 {
					return t
				}
			}
		}
		t = t[1 : len(t)-1]
	}
	return t
}

func dropSchema(t []string) []string {
	var r []string
	for i := 0; i < len(t); i++ {
		if t[i] == "pg_catalog" && i+1 < len(t) && t[i+1] == "." {
			i++
			continue
		}
		r = append(r, t[i])
	}
	return r
}

func ParseSQL(text string) *Query {
	q := &Query{params: map[string]string{}, outer: map[string]bool{}}
	toks := dropSchema(sqlTokens(text))
	for len(toks) > 0 && toks[len(toks)-1] == ";" {
		toks = toks[:len(toks)-1]
	}
	for _, t := range toks {
		if t == ";" {
			q.many = true
		}
	}
	if len(toks) == 0 {
		return q
	}
	q.verb = toks[0]
	if q.verb != "select" {
		q.cols = []string{strings.Join(toks, " ")}
		return q
	}
	// clauses
	sect := map[string][]string{}
	cur := "select"
	d := 0
	for i := 1; i < len(toks); i++ {
		t := toks[i]
		if t == "(" {
			d++
		}
		if t == ")" {
			d--
		}
		if d == 0 {
			switch t {
			case "from", "where":
				cur = t
				continue
			case "order", "group":
				if i+1 < len(toks) && toks[i+1] == "by" {
					cur = t
					i++
					continue
				}
			case "limit", "offset", "having", "union", "intersect", "except", "fetch", "for", "window", "into":
				cur = "rest"
			}
		}
		sect[cur] = append(sect[cur], t)
	}
	q.rest = strings.Join(append(sect["rest"], sect["group"]...), " ")
	// sources
	alias := map[string]string{}
	count := map[string]int{}
	type join struct {
		left bool
		on   []string
	}
	var joins []join
	left := false
	f := sect["from"]
	for i := 0; i < len(f); {
		switch f[i] {
		case ",":
			i++
			left = false
			continue
		case "left", "right", "full":
			left = true
			i++
			continue
		case "inner", "outer", "cross", "join":
			if f[i] == "inner" || f[i] == "cross" {
				left = false
			}
			i++
			continue
		case "on":
			j := i + 1
			d := 0
			for j < len(f) {
				if f[j] == "(" {
					d++
				}
				if f[j] == ")" {
					d--
				}
				if d == 0 && (f[j] == "join" || f[j] == "left" || f[j] == "inner" || f[j] == "right" || f[j] == "full" || f[j] == "cross" || f[j] == ",") {
					break
				}
				j++
			}
			joins = append(joins, join{left, f[i+1 : j]})
			left = false
			i = j
			continue
		}
		// table [as] alias
		name := f[i]
		i++
		for i+1 < len(f) && f[i] == "." {
			name += "." + f[i+1]
			i += 2
		}
		count[name]++
		canon := name
		if count[name] > 1 {
			canon += "#" + itoa(count[name])
		}
		al := name
		if i < len(f) && f[i] == "as" {
			i++
		}
		if i < len(f) {
			switch f[i] {
			case "on", "join", "left", "inner", "right", "full", "cross", ",":
			default:
				al = f[i]
				i++
			}
		}
		alias[al] = canon
		q.tables = append(q.tables, canon)
		if left {
			q.outer[canon] = true
		}
	}
	var canonT func(t []string, al map[string]string) string
	canonT = func(t []string, al map[string]string) string {
		t = stripParens(t)
		// aliases of subqueries
		loc := al
		for i, x := range t {
			if x == "from" && i+1 < len(t) {
				loc = map[string]string{}
				for k, v := range al {
					loc[k] = v
				}
				j := i + 1
				n := t[j]
				if j+1 < len(t) && t[j+1] == "as" {
					j++
				}
				if j+1 < len(t) && t[j+1] != "where" && t[j+1] != "join" && t[j+1] != "on" {
					loc[t[j+1]] = n
				}
			}
		}
		var r []string
		for i, x := range t {
			if i+1 < len(t) && t[i+1] == "." && loc[x] != "" {
				x = loc[x]
			}
			r = append(r, x)
		}
		return strings.ReplaceAll(strings.Join(r, " "), " . ", ".")
	}
	canon := func(t []string) string { return canonT(t, alias) }
	labels := map[string]string{}
	for _, c := range splitTop(sect["select"], func(s string) bool { return s == "," }) {
		label := ""
		if n := len(c); n >= 3 && c[n-2] == "as" {
			label = c[n-1]
			c = c[:n-2]
		} else if n >= 2 && (strings.HasPrefix(c[n-1], `"`)) && c[n-2] != "." {
			label = c[n-1]
			c = c[:n-1]
		}
		x := canon(c)
		q.cols = append(q.cols, x)
		if label != "" {
			labels[label] = x
			labels[strings.Trim(label, `"`)] = x
		}
	}
	add := func(pre string, t []string) {
		var rec func(t []string)
		rec = func(t []string) {
			t = stripParens(t)
			parts := splitTop(t, func(s string) bool { return s == "and" })
			if len(parts) > 1 {
				for _, p := range parts {
					rec(p)
				}
				return
			}
			ex := splitTop(t, func(s string) bool { return s == "=" || s == "<>" })
			c := canon(t)
			if len(ex) == 2 {
				op := t[len(ex[0])]
				a, b := canon(ex[0]), canon(ex[1])
				// numbers and parameters on the right, otherwise sorted
				if strings.HasPrefix(a, "$") || strings.HasPrefix(a, "'") || !strings.HasPrefix(b, "$") && !strings.HasPrefix(b, "'") && b < a {
					a, b = b, a
				}
				c = a + " " + op + " " + b
				if op == "=" && strings.HasPrefix(b, "$") {
					q.params[b] = a
				}
			}
			if c != "" {
				q.conds = append(q.conds, pre+c)
			}
		}
		rec(t)
	}
	for _, j := range joins {
		pre := ""
		if j.left {
			pre = "left:"
		}
		add(pre, j.on)
	}
	add("", sect["where"])
	sort.Strings(q.conds)
	for _, o := range splitTop(sect["order"], func(s string) bool { return s == "," }) {
		if len(o) == 0 {
			continue
		}
		dir := ""
		if l := o[len(o)-1]; l == "desc" || l == "asc" {
			if l == "desc" {
				dir = " desc"
			}
			o = o[:len(o)-1]
		}
		x := canon(o)
		if l, ok := labels[x]; ok {
			x = l
		} else if len(x) == 1 && x[0] >= '1' && int(x[0]-'1') < len(q.cols) {
			x = q.cols[x[0]-'1']
		}
		q.order = append(q.order, x+dir)
	}
	return q
}
