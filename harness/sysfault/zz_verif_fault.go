package syscall

// Overlaid into package syscall by lib/sysfault.py: asked before each file operation, it can let the
// file system change at that point, or have the operation fail.
var (
	VerifFault func(name, path string, fd int) Errno
)

func verifFault(name, path string, fd int) error {
	if VerifFault == nil {
		return nil
	}
	if e := VerifFault(name, path, fd); e != 0 {
		return e
	}
	return nil
}
