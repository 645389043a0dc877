package checks

import (
	"strconv"
	"strings"

	"schemaverif/ref"
)

// sym is a symbol of the exploration's alphabet: a token kind with a text.
type sym struct {
	kind string
	text string // "": depends on the position
}

// alphabet is every kind of token, with several texts where they matter.
func alphabet() []sym {
	var a []sym
	for _, k := range ref.Kinds {
		switch k {
		case "ILLEGAL":
			for _, t := range []string{"!", ".", "/", "+", "-", "é", "\x00", "_", "\\", "\xff"} {
				a = append(a, sym{k, t})
			}
		case "DASH":
			a = append(a, sym{k, "--x"}) // never followed by a space: see render
		case "UNTERM":
			a = append(a, sym{k, "'u"}, sym{k, "\"u"}, sym{k, "`u"})
		case "NUM":
			a = append(a, sym{k, ""}, sym{k, "-1.50"}, sym{k, ".5e-3"})
		case "IDENT", "BT", "SQ", "DQ", "EOF":
			a = append(a, sym{k, ""})
		case "(", ")", ",", ";", "=":
			a = append(a, sym{k, k})
		default:
			a = append(a, sym{k, k})
		}
	}
	return a
}

// token texts at position i
func (s sym) at(i int) string {
	if s.text != "" || s.kind == "EOF" {
		return s.text
	}
	n := strconv.Itoa(i)
	switch s.kind {
	case "IDENT":
		return "n" + n
	case "BT":
		return "`b " + n + "`"
	case "SQ":
		return "'s" + n + "'"
	case "DQ":
		return "\"d" + n + "\""
	case "NUM":
		return n
	}
	return s.kind
}

// render writes out a word with one space between its elements.
func render(w []sym) string {
	var b strings.Builder
	for i, s := range w {
		if i > 0 && s.kind != "EOF" {
			b.WriteByte(' ')
		}
		b.WriteString(s.at(i))
	}
	return b.String()
}

// machine is the explored grammar: states with shortest accesses and completions.
type machine struct {
	alpha  []sym
	states []ref.State
	access map[ref.State][]sym
	finish map[ref.State][]sym
	trans  int
}

func newMachine() *machine {
	m := &machine{alpha: alphabet(), access: map[ref.State][]sym{}, finish: map[ref.State][]sym{}}
	m.access[ref.Start] = nil
	m.states = []ref.State{ref.Start}
	// only one text for each kind on the way
	pref := map[string]sym{}
	for _, s := range m.alpha {
		if _, ok := pref[s.kind]; !ok {
			pref[s.kind] = s
		}
	}
	type edge struct {
		from ref.State
		s    sym
	}
	back := map[ref.State][]edge{}
	for i := 0; i < len(m.states); i++ {
		st := m.states[i]
		if st == ref.Accept {
			continue
		}
		for _, k := range ref.Kinds {
			n, ok := ref.Step(st, k)
			if !ok {
				continue
			}
			m.trans++
			back[n] = append(back[n], edge{st, pref[k]})
			if _, seen := m.access[n]; !seen {
				m.access[n] = append(append([]sym{}, m.access[st]...), pref[k])
				m.states = append(m.states, n)
			}
		}
	}
	m.finish[ref.Accept] = []sym{}
	queue := []ref.State{ref.Accept}
	for len(queue) > 0 {
		st := queue[0]
		queue = queue[1:]
		for _, e := range back[st] {
			if _, seen := m.finish[e.from]; !seen {
				m.finish[e.from] = append([]sym{e.s}, m.finish[st]...)
				queue = append(queue, e.from)
			}
		}
	}
	return m
}

// words calls f for every word w that extends the access of a state by up to k
// symbols: with the state it leads to, or with ok = false if its last symbol is
// not acceptable (these are not extended). mine is asked once for each state and
// first symbol.
func (m *machine) words(k int, mine func() bool, f func(w []sym, from, to ref.State, ok bool) bool) {
	var rec func(st ref.State, w []sym, left int) bool
	rec = func(st ref.State, w []sym, left int) bool {
		for _, s := range m.alpha {
			x := append(w, s)
			n, ok := ref.Step(st, s.kind)
			if !f(x, st, n, ok) {
				return false
			}
			if ok && left > 1 && n != ref.Accept {
				if !rec(n, x, left-1) {
					return false
				}
			}
		}
		return true
	}
	for _, st := range m.states {
		if st == ref.Accept {
			continue
		}
		for _, s := range m.alpha {
			if !mine() {
				continue
			}
			w := append(make([]sym, 0, 64), m.access[st]...)
			w = append(w, s)
			n, ok := ref.Step(st, s.kind)
			if !f(w, st, n, ok) {
				return
			}
			if ok && k > 1 && n != ref.Accept {
				if !rec(n, w, k-1) {
					return
				}
			}
		}
	}
}

// strs calls f for every string over the alphabet with length lo to hi.
func strs(alpha []string, lo, hi int, f func(s string)) {
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if n >= lo {
			f(s)
		}
		if n == hi {
			return
		}
		for _, a := range alpha {
			rec(s+a, n+1)
		}
	}
	rec("", 0)
}
