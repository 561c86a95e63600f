package main

// Reading a ragel grammar: the definition parsers of internal/ddl say in a
// comment-free grammar file what they accept. The grammar is turned into a
// nondeterministic machine whose transitions carry the grammar's actions, in
// the order ragel executes them.

import (
	"fmt"
	"sort"
	"strings"
)

type rlMachine struct {
	name  string
	defs  map[string][]rlTok
	order []string
	main  []rlTok
	tail  string // Go text after the machine

	// the automaton
	trans [][]rlTrans
	eps   [][]rlEps
	start int
	final map[int][]rlAct // accepting states and their leaving actions

	ord  int
	deep int
}

type rlAct struct {
	ord  int
	name string
}
type rlTrans struct {
	set  *[256]bool
	to   int
	acts []rlAct
}
type rlEps struct {
	to   int
	acts []rlAct
}
type rlTok struct {
	kind byte // i identifier, s literal, c class, or the operator itself
	text string
	fold bool
}

type rlFrag struct {
	start  int
	finals map[int][]rlAct
	states map[int]bool
}

// parseRagel reads the machine of a grammar file.
func parseRagel(src string) (m *rlMachine, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(rlError); ok {
				m, err = nil, fmt.Errorf("%s", string(s))
				return
			}
			panic(r)
		}
	}()
	m = &rlMachine{defs: map[string][]rlTok{}, final: map[int][]rlAct{}}
	var text strings.Builder
	rest := src
	for {
		i := strings.Index(rest, "%%{")
		if i < 0 {
			break
		}
		j := strings.Index(rest[i:], "}%%")
		if j < 0 {
			return nil, fmt.Errorf("an unterminated machine section")
		}
		text.WriteString(rest[i+3:i+j] + "\n")
		rest = rest[i+j+3:]
	}
	m.tail = rest
	m.statements(text.String())
	if m.main == nil {
		return nil, fmt.Errorf("no main machine")
	}
	f := m.parse(m.main)
	m.start = f.start
	m.final = f.finals
	return m, nil
}

type rlError string

func (m *rlMachine) fail(format string, args ...interface{}) {
	panic(rlError(fmt.Sprintf(format, args...)))
}

func isIdent(c byte) bool {
	return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9'
}

func (m *rlMachine) statements(s string) {
	toks := []rlTok{}
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case isIdent(c):
			j := i
			for j < len(s) && isIdent(s[j]) {
				j++
			}
			word := s[i:j]
			i = j
			if word == "action" && len(toks) == 0 {
				// action NAME { go }: the body is Go code
				k := strings.IndexByte(s[i:], '{')
				if k < 0 {
					m.fail("an action without a body")
				}
				depth := 0
				p := i + k
				for ; p < len(s); p++ {
					if s[p] == '{' {
						depth++
					} else if s[p] == '}' {
						depth--
						if depth == 0 {
							break
						}
					}
				}
				i = p + 1
				continue
			}
			toks = append(toks, rlTok{kind: 'i', text: word})
		case c == '\'' || c == '"':
			lit, n := quotedLit(s[i:], c)
			if n == 0 {
				m.fail("an unterminated literal")
			}
			i += n
			t := rlTok{kind: 's', text: lit}
			if i < len(s) && s[i] == 'i' && (i+1 == len(s) || !isIdent(s[i+1])) {
				t.fold = true
				i++
			}
			toks = append(toks, t)
		case c == '[':
			lit, n := quotedLit(s[i:], ']')
			if n == 0 {
				m.fail("an unterminated character class")
			}
			toks = append(toks, rlTok{kind: 'c', text: s[i+1 : i+n-1]})
			_ = lit
			i += n
		case strings.HasPrefix(s[i:], "**"):
			toks = append(toks, rlTok{kind: '*'})
			i += 2
		case strings.HasPrefix(s[i:], ":="):
			toks = append(toks, rlTok{kind: ':'})
			i += 2
		case c == ';':
			m.statement(toks)
			toks = nil
			i++
		case strings.IndexByte("()|?*+$@%=>", c) >= 0:
			toks = append(toks, rlTok{kind: c})
			i++
		default:
			m.fail("unknown grammar syntax %q", string(c))
		}
	}
	if len(toks) > 0 {
		m.fail("an unterminated grammar statement")
	}
}

// quotedLit decodes a literal up to its closing character.
func quotedLit(s string, end byte) (string, int) {
	var sb strings.Builder
	for i := 1; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			sb.WriteByte(unescape(s[i]))
			continue
		}
		if s[i] == end {
			return sb.String(), i + 1
		}
		sb.WriteByte(s[i])
	}
	return "", 0
}

func unescape(c byte) byte {
	switch c {
	case 'n':
		return '\n'
	case 't':
		return '\t'
	case 'r':
		return '\r'
	case 'f':
		return '\f'
	case 'v':
		return '\v'
	case '0':
		return 0
	case 'a':
		return 7
	case 'b':
		return 8
	}
	return c
}

func (m *rlMachine) statement(t []rlTok) {
	if len(t) == 0 {
		return
	}
	if t[0].kind == 'i' && (t[0].text == "machine" || t[0].text == "write") {
		if t[0].text == "machine" && len(t) > 1 {
			m.name = t[1].text
		}
		return
	}
	if len(t) < 3 || t[0].kind != 'i' {
		m.fail("an unknown grammar statement")
	}
	switch t[1].kind {
	case ':':
		if t[0].text != "main" {
			m.fail("a second machine %s", t[0].text)
		}
		m.main = t[2:]
	case '=':
		m.defs[t[0].text] = t[2:]
	default:
		m.fail("an unknown grammar statement %s", t[0].text)
	}
}

type rlParser struct {
	m *rlMachine
	t []rlTok
	i int
}

func (m *rlMachine) parse(t []rlTok) *rlFrag {
	m.deep++
	if m.deep > 50 {
		m.fail("a recursive definition")
	}
	defer func() { m.deep-- }()
	p := &rlParser{m: m, t: t}
	f := p.alt()
	if p.i < len(t) {
		m.fail("unexpected %q in a definition", string(t[p.i].kind))
	}
	return f
}

func (p *rlParser) peek() byte {
	if p.i < len(p.t) {
		return p.t[p.i].kind
	}
	return 0
}

func (p *rlParser) alt() *rlFrag {
	f := p.seq()
	for p.peek() == '|' {
		p.i++
		g := p.seq()
		r := p.m.newFrag()
		r.start = p.m.state(r)
		p.m.join(r, f)
		p.m.join(r, g)
		p.m.eps[r.start] = append(p.m.eps[r.start], rlEps{to: f.start}, rlEps{to: g.start})
		for s, o := range f.finals {
			r.finals[s] = o
		}
		for s, o := range g.finals {
			r.finals[s] = o
		}
		f = r
	}
	return f
}

func (p *rlParser) seq() *rlFrag {
	f := p.aug()
	for {
		switch p.peek() {
		case 'i', 's', 'c', '(':
			f = p.m.concat(f, p.aug())
		default:
			return f
		}
	}
}

// aug is a repeated factor with its actions.
func (p *rlParser) aug() *rlFrag {
	f := p.rep()
	for {
		op := p.peek()
		if op != '$' && op != '@' && op != '%' {
			if op == '>' {
				p.m.fail("entering actions are not understood")
			}
			return f
		}
		p.i++
		if p.peek() != 'i' {
			p.m.fail("an action operator without an action")
		}
		a := rlAct{ord: p.m.ord, name: p.t[p.i].text}
		p.m.ord++
		p.i++
		m := p.m
		switch op {
		case '%':
			for s := range f.finals {
				f.finals[s] = append(append([]rlAct{}, f.finals[s]...), a)
			}
		default:
			acc := map[int]bool{}
			for s := range f.states {
				acc[s] = m.reachesFinal(f, s, map[int]bool{})
			}
			for s := range f.states {
				for i := range m.trans[s] {
					if op == '$' || acc[m.trans[s][i].to] {
						m.trans[s][i].acts = append(append([]rlAct{}, m.trans[s][i].acts...), a)
					}
				}
			}
		}
	}
}

func (m *rlMachine) reachesFinal(f *rlFrag, s int, seen map[int]bool) bool {
	if _, ok := f.finals[s]; ok {
		return true
	}
	if seen[s] {
		return false
	}
	seen[s] = true
	for _, e := range m.eps[s] {
		if m.reachesFinal(f, e.to, seen) {
			return true
		}
	}
	return false
}

func (p *rlParser) rep() *rlFrag {
	from := p.i
	f := p.factor()
	to := p.i
	for {
		switch p.peek() {
		case '?':
			p.i++
			e := p.m.newFrag()
			e.start = p.m.state(e)
			p.m.join(e, f)
			p.m.eps[e.start] = append(p.m.eps[e.start], rlEps{to: f.start})
			e.finals[e.start] = nil
			for s, o := range f.finals {
				e.finals[s] = o
			}
			f = e
		case '*':
			p.i++
			f = p.m.star(f)
		case '+':
			p.i++
			// a second copy of the factor with the same action order
			ord := p.m.ord
			if to != p.i-1 {
				p.m.fail("a repetition of a repetition")
			}
			end := p.i
			p.i = from
			p.m.ord = ord - p.m.actionsIn(p.t[from:to], 0)
			g := p.factor()
			p.i = end
			p.m.ord = ord
			f = p.m.concat(f, p.m.star(g))
		default:
			return f
		}
	}
}

// actionsIn counts the action orderings a piece of grammar takes.
func (m *rlMachine) actionsIn(t []rlTok, deep int) int {
	if deep > 50 {
		m.fail("a recursive definition")
	}
	n := 0
	for i, x := range t {
		if x.kind == '$' || x.kind == '@' || x.kind == '%' {
			n++
		}
		if x.kind == 'i' && (i == 0 || strings.IndexByte("$@%", t[i-1].kind) < 0) {
			if d, ok := m.defs[x.text]; ok {
				n += m.actionsIn(d, deep+1)
			}
		}
	}
	return n
}

func (p *rlParser) factor() *rlFrag {
	if p.i >= len(p.t) {
		p.m.fail("an expression ends early")
	}
	t := p.t[p.i]
	p.i++
	m := p.m
	switch t.kind {
	case '(':
		f := p.alt()
		if p.peek() != ')' {
			m.fail("an unclosed group")
		}
		p.i++
		return f
	case 's':
		f := m.newFrag()
		f.start = m.state(f)
		at := f.start
		for i := 0; i < len(t.text); i++ {
			next := m.state(f)
			set := &[256]bool{}
			set[t.text[i]] = true
			if t.fold {
				c := t.text[i]
				if 'a' <= c && c <= 'z' {
					set[c-32] = true
				}
				if 'A' <= c && c <= 'Z' {
					set[c+32] = true
				}
			}
			m.trans[at] = append(m.trans[at], rlTrans{set: set, to: next})
			at = next
		}
		f.finals[at] = nil
		return f
	case 'c':
		return m.class(charClass(t.text))
	case 'i':
		switch t.text {
		case "any":
			return m.class(charClass("^"))
		case "space":
			set := &[256]bool{' ': true}
			for c := 9; c <= 13; c++ {
				set[c] = true
			}
			return m.class(set)
		case "digit":
			return m.class(charClass("0-9"))
		case "alpha":
			return m.class(charClass("a-zA-Z"))
		case "alnum":
			return m.class(charClass("a-zA-Z0-9"))
		}
		d, ok := m.defs[t.text]
		if !ok {
			m.fail("an unknown name %s", t.text)
		}
		return m.parse(d)
	}
	m.fail("unexpected %q in an expression", string(t.kind))
	return nil
}

func charClass(s string) *[256]bool {
	set := &[256]bool{}
	neg := false
	i := 0
	if strings.HasPrefix(s, "^") {
		neg = true
		i = 1
	}
	next := func() byte {
		c := s[i]
		i++
		if c == '\\' && i < len(s) {
			c = unescape(s[i])
			i++
		}
		return c
	}
	for i < len(s) {
		lo := next()
		hi := lo
		if i+1 < len(s) && s[i] == '-' {
			i++
			hi = next()
		}
		for c := int(lo); c <= int(hi); c++ {
			set[c] = true
		}
	}
	if neg {
		for i := range set {
			set[i] = !set[i]
		}
	}
	return set
}

func (m *rlMachine) newFrag() *rlFrag {
	return &rlFrag{finals: map[int][]rlAct{}, states: map[int]bool{}}
}

func (m *rlMachine) state(f *rlFrag) int {
	m.trans = append(m.trans, nil)
	m.eps = append(m.eps, nil)
	f.states[len(m.trans)-1] = true
	return len(m.trans) - 1
}

func (m *rlMachine) join(r, f *rlFrag) {
	for s := range f.states {
		r.states[s] = true
	}
}

func (m *rlMachine) class(set *[256]bool) *rlFrag {
	f := m.newFrag()
	f.start = m.state(f)
	to := m.state(f)
	m.trans[f.start] = append(m.trans[f.start], rlTrans{set: set, to: to})
	f.finals[to] = nil
	return f
}

func (m *rlMachine) concat(f, g *rlFrag) *rlFrag {
	r := m.newFrag()
	m.join(r, f)
	m.join(r, g)
	r.start = f.start
	for s, out := range f.finals {
		m.eps[s] = append(m.eps[s], rlEps{to: g.start, acts: out})
	}
	for s, o := range g.finals {
		r.finals[s] = o
	}
	return r
}

func (m *rlMachine) star(f *rlFrag) *rlFrag {
	r := m.newFrag()
	m.join(r, f)
	r.start = m.state(r)
	m.eps[r.start] = append(m.eps[r.start], rlEps{to: f.start})
	for s, out := range f.finals {
		m.eps[s] = append(m.eps[s], rlEps{to: r.start, acts: out})
	}
	r.finals[r.start] = nil
	return r
}

// ---- running the machine over sets of states

type rlThread struct {
	state int
	pend  string // pending leaving actions, as a key
}

type rlState struct {
	threads map[rlThread][]rlAct
}

func actsKey(a []rlAct) string {
	var sb strings.Builder
	for _, x := range a {
		fmt.Fprintf(&sb, "%d:%s,", x.ord, x.name)
	}
	return sb.String()
}

// sortActs orders actions and keeps the first instance of each.
func sortActs(a []rlAct) []rlAct {
	b := append([]rlAct{}, a...)
	sort.SliceStable(b, func(i, j int) bool { return b[i].ord < b[j].ord })
	seen := map[string]bool{}
	out := b[:0]
	for _, x := range b {
		if !seen[x.name] {
			seen[x.name] = true
			out = append(out, x)
		}
	}
	return out
}

func uniqActs(a []rlAct) []rlAct {
	b := append([]rlAct{}, a...)
	sort.SliceStable(b, func(i, j int) bool { return b[i].ord < b[j].ord })
	out := b[:0]
	for i, x := range b {
		if i == 0 || x != b[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func (m *rlMachine) closure(s *rlState, state int, pend []rlAct, live map[int]bool) {
	if !live[state] {
		return
	}
	pend = uniqActs(pend)
	k := rlThread{state, actsKey(pend)}
	if _, ok := s.threads[k]; ok {
		return
	}
	s.threads[k] = pend
	for _, e := range m.eps[state] {
		m.closure(s, e.to, append(append([]rlAct{}, pend...), e.acts...), live)
	}
}

// liveStates are those from which acceptance is possible.
func (m *rlMachine) liveStates() map[int]bool {
	live := map[int]bool{}
	for s := range m.final {
		live[s] = true
	}
	for changed := true; changed; {
		changed = false
		for s := range m.trans {
			if live[s] {
				continue
			}
			for _, t := range m.trans[s] {
				if live[t.to] {
					live[s] = true
				}
			}
			for _, e := range m.eps[s] {
				if live[e.to] {
					live[s] = true
				}
			}
			changed = changed || live[s]
		}
	}
	return live
}

func (m *rlMachine) initial(live map[int]bool) *rlState {
	s := &rlState{threads: map[rlThread][]rlAct{}}
	m.closure(s, m.start, nil, live)
	return s
}

func (s *rlState) key() string {
	var ks []string
	for k := range s.threads {
		ks = append(ks, fmt.Sprintf("%d/%s", k.state, k.pend))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// step reads one byte; nil if the byte cannot be accepted.
func (m *rlMachine) step(s *rlState, b byte, live map[int]bool) (*rlState, []rlAct) {
	n := &rlState{threads: map[rlThread][]rlAct{}}
	var acts []rlAct
	for k, pend := range s.threads {
		for _, t := range m.trans[k.state] {
			if t.set[b] && live[t.to] {
				acts = append(append(acts, pend...), t.acts...)
				m.closure(n, t.to, nil, live)
			}
		}
	}
	if len(n.threads) == 0 {
		return nil, nil
	}
	return n, sortActs(acts)
}

// accepts tells whether the input may end here, and which actions then run.
func (m *rlMachine) accepts(s *rlState) (bool, []rlAct) {
	var acts []rlAct
	ok := false
	for k, pend := range s.threads {
		if out, is := m.final[k.state]; is {
			ok = true
			acts = append(append(acts, pend...), out...)
		}
	}
	return ok, sortActs(acts)
}
