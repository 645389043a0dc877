//go:build verifrt

// Package rt runs functions under the controlled scheduler of /verif/rt.
package rt

import (
	"runtime"
	"sync/atomic"
	"syscall"
	_ "unsafe"
)

//go:linkname verifBegin runtime.verifBegin
func verifBegin(pre []uint8, seed uint64)

//go:linkname verifEnter runtime.verifEnter
func verifEnter() bool

//go:linkname verifGo runtime.verifGo
func verifGo()

//go:linkname verifLive runtime.verifLive
func verifLive() int

//go:linkname verifEnd runtime.verifEnd
func verifEnd() (n int, bad uint32)

//go:linkname verifEntry runtime.verifEntry
func verifEntry(i int) (addr uintptr, who uint16, kind, n, c, tag uint8)

//go:linkname verifSetSeed runtime.verifSetSeed
func verifSetSeed(seed uint64)

// SetSeed chooses the seed of maps and of random numbers.
func SetSeed(seed uint64) { verifSetSeed(seed) }

// Asked tells which environment variables the process has asked for.
func Asked() []string { return syscall.VerifAsked }

const Enabled = true

// Exec runs the functions concurrently until all of the goroutines that come
// of them have ended or none of them can go on. The choices are those of the
// prefix and 0 after it.
func Exec(pre []byte, seed uint64, fs ...func()) *Trace {
	for try := 0; ; try++ {
		runtime.Gosched()
		verifBegin(pre, seed)
		done := make([]atomic.Uint32, len(fs))
		for i, f := range fs {
			i, f := i, f
			go func() {
				if verifEnter() {
					f()
					done[i].Store(1)
				}
			}()
		}
		verifGo()
		for i := 0; i < 200 && verifLive() > 0; i++ {
			runtime.Gosched()
		}
		n, bad := verifEnd()
		if bad&4 != 0 && try < 10 {
			continue
		}
		t := &Trace{Stuck: verifLive(), Bad: bad, Entries: make([]Entry, n)}
		for i := range done {
			t.Done = append(t.Done, done[i].Load() == 1)
		}
		for i := range t.Entries {
			e := &t.Entries[i]
			e.Addr, e.Who, e.Kind, e.N, e.C, e.Tag = verifEntry(i)
		}
		return t
	}
}
