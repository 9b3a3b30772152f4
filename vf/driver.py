"""Client of the drivers' line protocol (harness/proto.hpp)."""
import os, select, subprocess, tempfile, threading

WALL = 240  # seconds without an answer; CPU limits end a busy library long before


class Fail(Exception):
    """the property does not hold on this case"""
    form = False   # an answer had not even the form it must have: the check itself tripped over it


class HarnessError(Exception):
    """the harness itself is wrong; never reported as a violation"""


STATUS = {99: "AddressSanitizer report", 98: "UndefinedBehaviorSanitizer report", 1000 + 24: "CPU limit exceeded (no answer)",
          1000 + 9: "killed", 1000 + 11: "segmentation fault", 1000 + 6: "aborted", 1000 + 8: "arithmetic exception"}


class Session:
    """one case: a forked child in which the library has not run yet"""

    def __init__(self, drv, cpu):
        self.d, self.cpu, self.buf, self.dead, self.log = drv, cpu, [], None, []
        drv._write("BEGIN %d\n" % cpu)

    def __call__(self, *cmds):
        """runs the commands; returns the answers, as lists of words"""
        if not cmds:
            return []
        out = self.d._exchange(cmds)
        if not out or out[-1].startswith("STATUS"):
            self._died(out, cmds)
        res = []
        for c, o in zip(cmds, out):
            if o.startswith("?"):
                raise HarnessError("command '%s': %s" % (c[:200], o))
            if o.startswith("!"):
                raise Fail("'%s' threw: %s" % (c[:200], o[2:]))
            res.append(o[1:].split())
        return res

    def _died(self, out, cmds):
        if out and out[-1].startswith("?"):
            raise HarnessError("command '%s': %s" % (cmds[len(out) - 1][:200], out[-1]))
        self.dead = out[-1] if out else "STATUS none"
        done = len(out) - 1
        cmd = cmds[done] if 0 <= done < len(cmds) else "?"
        code = int(self.dead.split()[1]) if self.dead.split()[1].lstrip("-").isdigit() else -1
        err = self.d.errors()
        raise Fail("the library did not survive '%s': %s%s" % (cmd[:200], STATUS.get(code, "status %d" % code), ("\n" + err) if err else ""))

    def one(self, cmd):
        return self(cmd)[0]

    def attempt(self, cmd):
        """the answer, or None if the library threw"""
        out = self.d._exchange([cmd])
        if out and out[0].startswith("!"):
            return None
        if out and out[0].startswith("="):
            return out[0][1:].split()
        self._died(out, [cmd])

    def close(self):
        if self.dead is None:
            self.d._write("END\n")
            st = self.d._readline()
            self.dead = st
            if st is None:
                raise HarnessError("driver went away")
            code = int(st.split()[1])
            if code:
                raise Fail("the process ended badly: %s\n%s" % (STATUS.get(code, "status %d" % code), self.d.errors()))

    def abandon(self):
        if self.dead is None:
            self.d.kill()


class Driver:
    def __init__(self, path):
        self.path, self.p, self.n = path, None, 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, bufsize=0, env=dict(os.environ, MALLOC_PERTURB_="165"))
        self.rbuf = b""

    def kill(self):
        if self.p:
            # the child of the fork server sees its stdin close and leaves
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.p = None

    def _write(self, s):
        data = s.encode()
        view = memoryview(data)
        while view:
            k = os.write(self.p.stdin.fileno(), view[:32768])
            view = view[k:]

    def _readline(self):
        while b"\n" not in self.rbuf:
            if not select.select([self.p.stdout], [], [], WALL)[0]:
                self.kill()
                raise Fail("no answer within %d s" % WALL)
            c = os.read(self.p.stdout.fileno(), 1 << 16)
            if not c:
                return None
            self.rbuf += c
        l, self.rbuf = self.rbuf.split(b"\n", 1)
        return l.decode(errors="replace")

    def _exchange(self, cmds):
        data = ("\n".join(cmds) + "\n").encode()
        if "\n" in "".join(cmds):
            raise HarnessError("newline in command")
        t = None
        if len(data) > 16384:  # do not deadlock on two full pipes
            def w():
                try:
                    self._write(data.decode())
                except OSError:
                    pass
            t = threading.Thread(target=w)
            t.start()
        else:
            self._write(data.decode())
        out = []
        while len(out) < len(cmds):
            l = self._readline()
            if l is None:
                raise HarnessError("driver went away: " + self.errors())
            out.append(l)
            if l.startswith("STATUS"):
                break
        if t:
            t.join()
        return out

    def session(self, cpu=60):
        if self.p is None or self.p.poll() is not None or self.n > 20000:
            self.kill()
            self.start()
            self.n = 0
        self.n += 1
        return Session(self, cpu)

    def errors(self):
        """the sanitizer report of the last death, shortened"""
        self.err.seek(0)
        t = self.err.read().decode(errors="replace")
        self.err.seek(0)
        self.err.truncate(0)
        keep = [l for l in t.split("\n") if l.strip()]
        i = next((k for k, l in enumerate(keep) if "ERROR:" in l or "runtime error" in l), 0)
        return "\n".join(keep[i:i + 14])
