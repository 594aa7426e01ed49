"""Interactive sessions of the real shell on a pseudo terminal."""
import fcntl, os, pty, select, signal, struct, termios, time
import vc

RC = """define n 0
replace-make-prompt (method (suffix) {
    set n: add $n 1
    mend '' '<' $n '>' $suffix
})
"""

class Session:
    def __init__(self, argv, env, cwd):
        self.out, self.n, self.status = b"", 0, None
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            try:
                os.chdir(cwd)
                if os.geteuid() == 0 and vc.unprivileged():
                    os.setgroups([]); os.setgid(vc.NOBODY); os.setuid(vc.NOBODY)
                os.execve(argv[0], argv, env)
            finally:
                os._exit(127)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 200, 0, 0))

    def read(self, until, timeout):
        """Reads until what was printed since the last call contains until; False at end of file or timeout."""
        start, end = len(self.out), time.time() + timeout
        while until is None or until not in self.out[max(0, start - len(until)):]:
            if time.time() > end:
                return False
            r, _, _ = select.select([self.fd], [], [], 0.2)
            if not r:
                continue
            try:
                d = os.read(self.fd, 65536)
            except OSError:
                return False
            if not d:
                return False
            self.out += d
        return True

    def prompt(self, timeout=10):
        """Waits for the next prompt."""
        self.n += 1
        return self.read(b"<%d>" % self.n, timeout)

    def type(self, keys):
        while keys:
            n = os.write(self.fd, keys[:1000])
            keys = keys[n:]
            if keys:  # what is echoed must be read
                r, _, _ = select.select([self.fd], [], [], 0)
                if r:
                    try:
                        self.out += os.read(self.fd, 65536)
                    except OSError:
                        return

    def end(self, timeout=10):
        """Waits for the session to end; its exit status, or None."""
        stop = time.time() + timeout
        self.read(None, timeout)
        while time.time() < stop:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.pid, self.status = 0, os.waitstatus_to_exitcode(st)
                break
            time.sleep(0.002)
        self.close()
        return self.status

    def close(self):
        if self.pid:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
            self.pid = 0
        if self.fd >= 0:
            os.close(self.fd)
            self.fd = -1
