package kit

import (
	"os"
	"syscall"
	"unsafe"
)

// Wall hands out memory that cannot be written and ends where the data ends:
// writing to it, even if what was there is put back, or reading beyond it,
// faults, and the fault becomes a panic of whoever did it. What it hands out is
// good until its next use.
type Wall struct {
	mem []byte
}

func (w *Wall) place(n int) []byte {
	p := os.Getpagesize()
	need := (n + p - 1) / p * p
	if need == 0 {
		need = p
	}
	if w.mem == nil || need+p > len(w.mem) {
		if w.mem != nil {
			_ = syscall.Munmap(w.mem)
		}
		m, err := syscall.Mmap(-1, 0, 2*need+p, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			w.mem = nil
			return nil
		}
		w.mem = m
		if syscall.Mprotect(m[len(m)-p:], syscall.PROT_NONE) != nil {
			return nil
		}
	}
	end := len(w.mem) - p
	if syscall.Mprotect(w.mem[end-need:end], syscall.PROT_READ|syscall.PROT_WRITE) != nil {
		return nil
	}
	return w.mem[end-n : end : end]
}

func (w *Wall) seal(n int) bool {
	p := os.Getpagesize()
	need := max((n+p-1)/p*p, p)
	end := len(w.mem) - p
	return syscall.Mprotect(w.mem[end-need:end], syscall.PROT_READ) == nil
}

// Bytes is b behind the wall, or a copy where there is none to be had.
func (w *Wall) Bytes(b []byte) []byte {
	m := w.place(len(b))
	if len(m) != len(b) {
		return append([]byte(nil), b...)
	}
	copy(m, b)
	if !w.seal(len(b)) {
		return append([]byte(nil), b...)
	}
	return m
}

// Ints is the same for numbers.
func (w *Wall) Ints(xs []int) []int {
	if len(xs) == 0 {
		return append([]int(nil), xs...)
	}
	b := w.Bytes(unsafe.Slice((*byte)(unsafe.Pointer(&xs[0])), len(xs)*8))
	if uintptr(unsafe.Pointer(&b[0]))%8 != 0 {
		return append([]int(nil), xs...)
	}
	return unsafe.Slice((*int)(unsafe.Pointer(&b[0])), len(xs))
}

// Strings is a list of strings in memory that cannot be written. The strings
// themselves stay where they are and must be kept alive by the caller.
func (w *Wall) Strings(xs []string) []string {
	if len(xs) == 0 {
		return append([]string(nil), xs...)
	}
	b := w.Bytes(unsafe.Slice((*byte)(unsafe.Pointer(&xs[0])), len(xs)*16))
	if uintptr(unsafe.Pointer(&b[0]))%8 != 0 {
		return append([]string(nil), xs...)
	}
	return unsafe.Slice((*string)(unsafe.Pointer(&b[0])), len(xs))
}

// Free gives the memory back; nothing it handed out may be used any more.
func (w *Wall) Free() {
	if w.mem != nil {
		_ = syscall.Munmap(w.mem)
		w.mem = nil
	}
}
