package mos

import (
	"os"
	"syscall"
	"unsafe"

	"golang.org/x/sys/unix"
)

var bidi = map[chan<- os.Signal]chan os.Signal{}

// toBidi returns the channel c itself.
func toBidi(c chan<- os.Signal) chan os.Signal {
	return *(*chan os.Signal)(unsafe.Pointer(&c))
}

func setStatus(p interface{}, s syscall.WaitStatus) {
	switch x := p.(type) {
	case *unix.WaitStatus:
		if x != nil {
			*x = unix.WaitStatus(s)
		}
	case *syscall.WaitStatus:
		if x != nil {
			*x = s
		}
	}
}
