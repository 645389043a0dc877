package rt

// Kinds of choices.
const (
	Block   = 1 // which goroutine runs when the running one cannot go on
	Preempt = 2 // whether another one runs before an operation on a shared object
	Map     = 3 // where an iteration over a map starts
	Select  = 4 // which of several ready cases is taken
)

// Entry is a choice, or (with N = 1) an operation on a shared object.
type Entry struct {
	Addr            uintptr
	Who             uint16
	Kind, N, C, Tag uint8
}

// Trace is a complete execution.
type Trace struct {
	Entries []Entry
	Stuck   int    // goroutines that neither ended nor can go on
	Done    []bool // which of the functions returned
	Bad     uint32 // the prefix did not fit
}

// read tells operations that commute with each other on the same object.
func (e *Entry) read() bool {
	switch e.Tag {
	case 7, 11, 12, 13:
		return true
	}
	return false
}

// Branches lists the entries from the first on at which another choice can
// make a difference: before an operation on an object on which another
// goroutine has a conflicting operation later, and all choices that are no
// preemptions.
func (t *Trace) Branches(first int) (out []int32) {
	type acc struct {
		who   uint16
		write bool
	}
	later := map[uintptr][]acc{}
	for i := len(t.Entries) - 1; i >= first; i-- {
		e := &t.Entries[i]
		if e.Kind != Preempt {
			if e.N > 1 {
				out = append(out, int32(i))
			}
			continue
		}
		hit := false
		check := func(f *Entry) {
			for _, a := range later[f.Addr] {
				if a.who != f.Who && (a.write || !f.read()) {
					hit = true
				}
			}
		}
		if e.N > 1 {
			check(e)
			if e.Tag == 4 { // the other channels of the select
				for j := i + 1; j < len(t.Entries) && t.Entries[j].Tag == 5 && t.Entries[j].Who == e.Who; j++ {
					check(&t.Entries[j])
				}
			}
			if hit {
				out = append(out, int32(i))
			}
		}
		a := acc{e.Who, !e.read()}
		seen := false
		for _, b := range later[e.Addr] {
			seen = seen || b == a
		}
		if !seen && e.Addr != 0 {
			later[e.Addr] = append(later[e.Addr], a)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
