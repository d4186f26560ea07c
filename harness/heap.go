package main

import (
	"bufio"
	"encoding/binary"
	"errors"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"unsafe"
)

// heapIndex lists the objects of the heap, with the offsets of their pointers.
type heapIndex struct {
	addr, size []uint64
	from       []int // of the first pointer of each object
	ptrs       []uint32
	order      []int // by address
}

// heapObjects lists the objects of the heap, from a dump written by the runtime.
func heapObjects() (*heapIndex, error) {
	f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "heap")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	defer f.Close()
	runtime.GC() // the dump contains everything that has not been swept
	debug.WriteHeapDump(f.Fd())
	if _, err = f.Seek(0, io.SeekStart); err != nil {
		return nil, err
	}
	r := bufio.NewReaderSize(f, 1<<20)
	if h, err := r.ReadString('\n'); err != nil || h != "go1.7 heap dump\n" {
		return nil, errors.New("unknown heap dump")
	}
	var fail error
	num := func() uint64 {
		x, err := binary.ReadUvarint(r)
		if err != nil && fail == nil {
			fail = err
		}
		return x
	}
	str := func() uint64 {
		n := num()
		if fail != nil || n > 1<<40 {
			fail = errors.New("bad string")
			return 0
		}
		for left := n; left > 0 && fail == nil; {
			k, err := r.Discard(int(min(left, 1<<30)))
			left -= uint64(k)
			fail = err
		}
		return n
	}
	h := &heapIndex{}
	for fail == nil {
		switch num() {
		case 1:
			h.addr = append(h.addr, num())
			h.size = append(h.size, str())
			h.from = append(h.from, len(h.ptrs))
			for fail == nil && num() == 1 {
				if x := num(); x < 1<<32 {
					h.ptrs = append(h.ptrs, uint32(x))
				}
			}
		case 3: // type
			num()
			num()
			str()
			num()
		case 6: // parameters
			num()
			num()
			num()
			num()
			str()
			str()
			num()
		case 8: // itab
			num()
			num()
		default: // the objects are over
			h.from = append(h.from, len(h.ptrs))
			h.order = make([]int, len(h.addr))
			for i := range h.order {
				h.order[i] = i
			}
			sort.Slice(h.order, func(i, j int) bool { return h.addr[h.order[i]] < h.addr[h.order[j]] })
			return h, fail
		}
	}
	return nil, fail
}

// find returns the index of the object that contains an address, or -1.
func (h *heapIndex) find(a uint64) int {
	i := sort.Search(len(h.order), func(i int) bool { return h.addr[h.order[i]] > a }) - 1
	if i < 0 || a >= h.addr[h.order[i]]+h.size[h.order[i]] {
		return -1
	}
	return h.order[i]
}

// A dump takes the time and space of the whole heap, so that a process makes a limited number.
const maxDumps = 120

var dumps int

// untyped continues the walk behind function values and channels, whose memory has no type
// that could be known. It leaves out what the typed walk has seen already.
func (w *walker) untyped() {
	if len(w.opaque) == 0 {
		return
	}
	if dumps++; dumps > maxDumps {
		w.unread++
		return
	}
	h, err := heapObjects()
	if err != nil {
		w.unread++
		return
	}
	inside := func(lo, hi uintptr, ss []span) bool {
		for _, s := range ss {
			if s.lo < hi && s.hi > lo {
				return true
			}
		}
		return false
	}
	done := map[int]bool{}
	todo := w.opaque
	for i := 0; i < len(todo) && len(done) < 1000; i++ {
		o := h.find(uint64(todo[i].a))
		if o < 0 || done[o] {
			continue
		}
		done[o] = true
		lo, n := uintptr(h.addr[o]), int(h.size[o])
		if inside(lo, lo+uintptr(n), w.skip) || inside(lo, lo+uintptr(n), w.spans) || n > 1<<24 {
			continue
		}
		w.objects++
		w.bytes += n
		// reachable from the session, so that it is still there
		data := append([]byte{}, unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&lo))), n)...)
		w.visit(todo[i].path, data)
		for _, off := range h.ptrs[h.from[o]:h.from[o+1]] {
			if int(off)+8 <= n {
				todo = append(todo, opaque{todo[i].path + ".*", uintptr(binary.LittleEndian.Uint64(data[off:]))})
			}
		}
	}
}

// opaque is a reference to memory of unknown type.
type opaque struct {
	path string
	a    uintptr
}

// closure gives the address of what a function value refers to.
func closure(p unsafe.Pointer) uintptr { return *(*uintptr)(p) }
