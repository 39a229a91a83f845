// Package vunix replaces parts of golang.org/x/sys/unix in instrumented code: synchronous write-backs
// of the mapping that Base named appear in the history.
package vunix

import (
	"bytes"
	"strconv"
	"unsafe"

	"github.com/donnie4w/gofer/zzv/vsched"
	"golang.org/x/sys/unix"
)

var base, size uintptr
var mapped, disk []byte

// Base says where the mapping is.
func Base(b []byte) {
	base, size = 0, uintptr(len(b))
	mapped, disk = b, append([]byte{}, b...)
	if len(b) > 0 {
		base = uintptr(unsafe.Pointer(&b[0]))
	}
}

// OnDisk tells whether b was written back to off.
func OnDisk(off int, b []byte) bool {
	return off >= 0 && off+len(b) <= len(disk) && bytes.Equal(disk[off:off+len(b)], b)
}

func synced(p, n, flags uintptr) {
	if p >= base && p < base+size && flags&unix.MS_SYNC != 0 {
		lo, hi := p-base, min(p-base+n, size)
		copy(disk[lo:hi], mapped[lo:hi])
		t, _ := strconv.Atoi(vsched.Me()) // the client whose call this is, 0 otherwise
		vsched.Log("sync", t, []string{}, []string{strconv.Itoa(int(p - base)), strconv.Itoa(int(p - base + n))})
	}
}

func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err unix.Errno) {
	vsched.Y()
	r1, r2, err = unix.Syscall6(trap, a1, a2, a3, a4, a5, a6)
	if trap == unix.SYS_MSYNC && err == 0 {
		synced(a1, a2, a3)
	}
	return
}

func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err unix.Errno) {
	vsched.Y()
	r1, r2, err = unix.Syscall(trap, a1, a2, a3)
	if trap == unix.SYS_MSYNC && err == 0 {
		synced(a1, a2, a3)
	}
	return
}

func Msync(b []byte, flags int) (err error) {
	vsched.Y()
	if err = unix.Msync(b, flags); err == nil && len(b) > 0 {
		synced(uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), uintptr(flags))
	}
	return
}
