package main

// Overlaid into package main by the C49 check: has the nth operation on a file in a directory fail, and logs them.

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"unsafe"
)

func init() {
	dir := os.Getenv("VERIF_HIST_DIR")
	if dir == "" {
		return
	}
	at, errno := -1, 0
	_, _ = fmt.Sscan(os.Getenv("VERIF_HIST_FAULT"), &at, &errno)
	log, err := os.OpenFile(os.Getenv("VERIF_HIST_LOG"), os.O_CREATE|os.O_WRONLY|os.O_APPEND|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	n := 0
	syscall.VerifFault = func(name, path string, fd int) syscall.Errno {
		if fd >= 0 && path == "" {
			b := make([]byte, 4096)
			p, _ := syscall.BytePtrFromString(fmt.Sprintf("/proc/self/fd/%d", fd))
			const atFdcwd = -100
			at := atFdcwd
			k, _, e := syscall.RawSyscall6(syscall.SYS_READLINKAT, uintptr(at), uintptr(unsafe.Pointer(p)), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), 0, 0)
			if e != 0 {
				return 0
			}
			path = string(b[:k])
		}
		if !strings.HasPrefix(path, dir+"/") {
			return 0
		}
		i := n
		n++
		text := []byte(fmt.Sprintf("%d %s\n", i, name))
		_, _, _ = syscall.RawSyscall(syscall.SYS_WRITE, log.Fd(), uintptr(unsafe.Pointer(&text[0])), uintptr(len(text)))
		if i == at {
			return syscall.Errno(errno)
		}
		return 0
	}
}
