#!/usr/bin/env python3
"""gen.py GOROOT OUT: writes changed copies of runtime files to OUT and OUT/overlay.json for go build -overlay."""
import json, os, re, sys
root, out = os.path.join(sys.argv[1], 'src'), sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
over = {}

def edit(name, *subs):
    p = os.path.join(root, name)
    s = open(p).read()
    for a, b, *n in subs:
        want = n[0] if n else 1
        if s.count(a) != want:
            sys.exit('%s: %d occurrences of %r' % (name, s.count(a), a))
        s = s.replace(a, b)
    q = os.path.join(out, name.replace('/', '_'))
    open(q, 'w').write(s)
    over[p] = q

edit('runtime/runtime2.go', ('type g struct {\n', 'type g struct {\n', 1),
     ('\tgoid         uint64\n', '\tgoid         uint64\n\tverif        uint32\n\tverifPad     uint32\n'))
edit('runtime/proc.go',
     ('\tmemclrNoHeapPointers(unsafe.Pointer(&newg.sched), unsafe.Sizeof(newg.sched))\n\tnewg.sched.sp = sp\n',
      '\tnewg.verif = 0\n\tif callergp.verif != 0 {\n\t\tverifNextID++\n\t\tverifLiveN++\n\t\tnewg.verif = verifNextID\n\t}\n'
      '\tmemclrNoHeapPointers(unsafe.Pointer(&newg.sched), unsafe.Sizeof(newg.sched))\n\tnewg.sched.sp = sp\n'),
     ('\tif preempted && sched.gcwaiting.Load() {\n',
      '\tif gp.verif != 0 && gp.verif != verifParent {\n\t\tif preempted {\n\t\t\tverifPending = gp.verif\n\t\t}\n\t\trunqput(pp, gp, false)\n'
      '\t} else if preempted && sched.gcwaiting.Load() {\n'),
     ('\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\n\t// now and pollUntil are saved',
      '\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\tif verifOn {\n\t\tif gp := verifPick(pp); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// now and pollUntil are saved'),
     ('\tcasgstatus(gp, _Grunning, _Gdead)\n\tgcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n',
      '\tif gp.verif != 0 && gp.verif != verifParent {\n\t\tverifLiveN--\n\t}\n\tgp.verif = 0\n'
      '\tcasgstatus(gp, _Grunning, _Gdead)\n\tgcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n'),
     ('const randomizeScheduler = raceenabled\n', 'const randomizeScheduler = false\n'))
edit('runtime/chan.go',
     ('func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n',
      'func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tverifPoint(unsafe.Pointer(c), 1)\n'),
     ('func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n',
      'func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tverifPoint(unsafe.Pointer(c), 2)\n'),
     ('func closechan(c *hchan) {\n', 'func closechan(c *hchan) {\n\tverifPoint(unsafe.Pointer(c), 3)\n'))
edit('runtime/select.go',
     ('\tgp := getg()\n\tif debugSelect {\n', '\tverifPoint(unsafe.Pointer(cas0.c), 4)\n\tgp := getg()\n\tif debugSelect {\n'),
     ('\t\tj := cheaprandn(uint32(norder + 1))\n',
      '\t\tj := uint32(norder)\n\t\tif !verifOn || gp.verif == 0 {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n'),
     ('\tpollorder = pollorder[:norder]\n', '\tpollorder = pollorder[:norder]\n\tverifSelect(scases, pollorder, nsends)\n'))
s = open(os.path.join(root, 'runtime/rand.go')).read()
m = re.search(r'func bootstrapRand\(\) uint64 \{\n', s)
if not m:
    sys.exit('bootstrapRand')
edit('runtime/rand.go', ('uint32(rand())', 'uint32(verifRand())', 5), ('= rand()', '= verifRand()'), ('return rand()', 'return verifRand()', 2),
     ('//go:linkname rand\nfunc rand() uint64 {\n', '//go:linkname rand\nfunc rand() uint64 { return verifMapSeed() } // called by compiled code for maps\n\nfunc verifRand() uint64 {\n'),
     ('func bootstrapRand() uint64 {\n', 'func bootstrapRand() uint64 {\n\tif true {\n\t\treturn verifBoot()\n\t}\n'))
edit('internal/runtime/maps/map.go', ('m.seed = uintptr(rand())', 'm.seed = uintptr(verifMapSeed())', 4))
edit('internal/runtime/maps/runtime.go', ('//go:linkname rand\nfunc rand() uint64\n',
     '//go:linkname rand\nfunc rand() uint64\n\n//go:linkname verifMapSeed\nfunc verifMapSeed() uint64\n\n//go:linkname verifMapStart\nfunc verifMapStart(n int, m unsafe.Pointer) int\n'))
edit('internal/runtime/maps/table.go', ('\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n',
     '''	if dirIdx < 0 {
		if c := verifMapStart(int(m.used), unsafe.Pointer(m)); c < 0 {
			it.entryOffset = rand()
		} else {
			for k := uintptr(0); k < abi.MapGroupSlots; k++ {
				if (groupSmall.ctrls().get(k) & ctrlEmpty) == ctrlEmpty {
					continue
				}
				if c == 0 {
					it.entryOffset = uint64(k)
					break
				}
				c--
			}
		}
	} else if c := verifMapStart(6, unsafe.Pointer(m)); c < 0 {
		it.entryOffset = rand()
		it.dirOffset = rand()
	} else {
		it.entryOffset = uint64(c) * 0x9e3779b97f4a7c15 >> 7
		it.dirOffset = uint64(c)
	}
'''))
def points(name, recvs, decl):
    p = os.path.join(root, name)
    s = open(p).read()
    n = 0
    for pat, tag in recvs:
        s, k = re.subn(pat, lambda m: m.group(0) + ' verifPoint(unsafe.Pointer(%s), %d);' % (m.group(1), tag), s)
        if not k:
            sys.exit(name + ': ' + pat)
        n += k
    if decl:
        s += decl
    if '"unsafe"' not in s:
        s = s.replace('import (\n', 'import (\n\t"unsafe"\n', 1)
    if '"unsafe"' not in s:
        s = s.replace('package sync\n', 'package sync\n\nimport "unsafe"\n', 1)
    q = os.path.join(out, name.replace('/', '_'))
    open(q, 'w').write(s)
    over[p] = q
meth = r'\nfunc \((\w+) \*%s\) (?:%s)\([^\n]*\{'
points('sync/mutex.go', [(meth % ('Mutex', 'Lock|TryLock|Unlock'), 6)], '')
points('sync/rwmutex.go', [(meth % ('RWMutex', 'Lock|TryLock|Unlock'), 16), (meth % ('RWMutex', 'RLock|TryRLock|RUnlock'), 7)], '')
points('sync/waitgroup.go', [(meth % ('WaitGroup', 'Add|Wait'), 8)], '')
points('sync/cond.go', [(meth % ('Cond', 'Wait|Signal|Broadcast'), 9)], '')
points('sync/pool.go', [(meth % ('Pool', 'Get|Put'), 10)], '')
s = open(over[os.path.join(root, 'sync/pool.go')]).read()
a = 'if runtime_randn(4) == 0 {'
assert s.count(a) == 1
s = s.replace(a, 'if false && runtime_randn(4) == 0 {')
for a in ('allPoolsMu.Lock()', 'allPoolsMu.Unlock()'):  # taken after garbage collections only
    assert a in s
    s = s.replace(a, a.replace('Mu.', 'Mu.mu.'))
open(over[os.path.join(root, 'sync/pool.go')], 'w').write(s)
points('sync/map.go', [(r'\nfunc \((\w+) \*Map\) (?:Store|LoadOrStore|LoadAndDelete|Delete|Swap|CompareAndSwap|CompareAndDelete|Clear)\([^\n]*\{', 17),
                       (r'\nfunc \((\w+) \*Map\) (?:Load|Range)\([^\n]*\{', 11)], '')
typ = r'\nfunc \((\w+) \*(?:Bool|Pointer\[T\]|Int32|Int64|Uint32|Uint64|Uintptr)\) '
points('sync/atomic/type.go', [(typ + r'Load\([^\n]*\{', 12), (typ + r'(?!Load\()\w+\([^\n]*\{', 14)], '')
points('sync/atomic/value.go', [(r'\nfunc \((\w+) \*Value\) Load\([^\n]*\{', 13), (r'\nfunc \((\w+) \*Value\) (?!Load\()\w+\([^\n]*\{', 15)], '')
for pkg in ('sync', 'sync/atomic'):
    q = os.path.join(out, pkg.replace('/', '_') + '_verif.go')
    open(q, 'w').write('package %s\n\nimport "unsafe"\n\n//go:linkname verifPoint\nfunc verifPoint(addr unsafe.Pointer, tag uint8)\n' % pkg.split('/')[-1])
    over[os.path.join(root, pkg, 'zz_verif.go')] = q
# the surroundings of a process: what it asks for, and a clock that can be shifted
edit('syscall/env_unix.go', ('func Getenv(key string) (value string, found bool) {\n', 'func Getenv(key string) (value string, found bool) {\n\tverifAsk(key)\n'))
q = os.path.join(out, 'syscall_verif.go')
open(q, 'w').write('''package syscall

var verifAround = func() bool {
	for _, s := range runtime_envs() {
		if s == "VERIF_AROUND=1" {
			return true
		}
	}
	return false
}()

// VerifAsked are the variables that have been asked for.
var VerifAsked []string

func verifAsk(key string) {
	if verifAround && len(VerifAsked) < 1000 {
		VerifAsked = append(VerifAsked, key)
	}
}
''')
over[os.path.join(root, 'syscall', 'zz_verif.go')] = q
edit('time/time.go', ('\tsec, nsec, mono := runtimeNow()\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n', '\tsec, nsec, mono := runtimeNow()\n\tsec += verifShift\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n'))
q = os.path.join(out, 'time_verif.go')
open(q, 'w').write('''package time

import "syscall"

var verifShift = func() (n int64) {
	s, _ := syscall.Getenv("VERIF_SHIFT")
	for i := 0; i < len(s); i++ {
		n = 10*n + int64(s[i]-'0')
	}
	return n
}()
''')
over[os.path.join(root, 'time', 'zz_verif.go')] = q
q = os.path.join(out, 'sync_verif.s')
open(q, 'w').write('')
over[os.path.join(root, 'sync', 'zz_verif.s')] = q
q = os.path.join(out, 'runtime_verif.go')
open(q, 'w').write(open(os.path.join(here, 'verif.go.txt')).read())
over[os.path.join(root, 'runtime', 'zz_verif.go')] = q
json.dump({'Replace': over}, open(os.path.join(out, 'overlay.json'), 'w'), indent=1)
