"""Running the real command line tool on rendered inputs, in scratch directories."""
import os, re, shutil, subprocess

ANSI = re.compile(r"\x1b\[[0-9;]*m")


class Result:
    def __init__(self, rc, out, err, files):
        self.rc, self.out, self.err, self.files = rc, out, ANSI.sub("", err), files

    def errors(self):
        """(path, line, column) of every error line on standard error."""
        r = []
        for line in self.err.split("\n"):
            m = re.match(r"\s*(/[^:]*):(\d+):(\d+): ((?:compile|syntax|general|[a-z]+) error)", line)
            if m:
                r.append((m.group(1), int(m.group(2)), int(m.group(3))))
        return r

    def crashed(self):
        return self.rc is None or self.rc not in (0, 1) or "goroutine " in self.err or "panic:" in self.err


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def write_files(d, files):
    for name, text in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)


def bubbler(binary, args, cwd, out, timeout=60):
    """out: directory expected to receive the files (created empty by the caller or absent)."""
    try:
        r = subprocess.run([binary] + args, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
        rc, so, se = r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, so, se = None, "", ""
    return Result(rc, so, se, tree(out) if os.path.isdir(out) else {})
