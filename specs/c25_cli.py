"""C25: the command-line tool."""
import os, re, shutil, stat, subprocess, sys, tempfile, atexit
from specs.common import *

CLI = ["annotation_cli (the whole script)"]
_copy = []

def program():
    """A private copy of the package, so that no run of the tool can write into /repo."""
    if not _copy:
        base = tempfile.mkdtemp(prefix="verif_cli_")
        shutil.copytree(os.path.join(REPO, "pash_annotations"), os.path.join(base, "pash_annotations"), ignore=shutil.ignore_patterns("__pycache__", "tests", "old_annotations"))
        _copy.append(base)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(base, ignore_errors=True))
    return _copy[0]

def state(top):
    """Everything below top: kind, mode, contents."""
    out = {}
    for root, dirs, files in os.walk(top):
        for n in dirs + files:
            p = os.path.join(root, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                c = ("link", os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                c = ("file", open(p, "rb").read(), st.st_mode, st.st_mtime_ns, st.st_ino)
            else:
                c = ("dir" if stat.S_ISDIR(st.st_mode) else "special", st.st_mode)
            out[os.path.relpath(p, top)] = c
    return out

def run(cwd, args):
    prog = program()
    env = dict(os.environ, PYTHONPATH=prog, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8", LC_ALL="C.UTF-8")
    r = subprocess.run([sys.executable, "-B", os.path.join(prog, "pash_annotations", "annotation_cli.py")] + args, cwd=cwd, env=env, capture_output=True, stdin=subprocess.DEVNULL, timeout=60)
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")

_reports = {}
def printed_report(line):
    """What the tool prints for this command without a file to save to."""
    if line not in _reports:
        top = tempfile.mkdtemp(prefix="verif_cwd_")
        try:
            _reports[line] = run(top, ["--command_invocation", line])
        finally:
            shutil.rmtree(top, ignore_errors=True)
    return _reports[line]

def steady(text):
    return re.sub(r"0x[0-9a-f]+", "0x", text)

COMMAND_LINES = ["grep -c pat a", "sort -rn a", "cat", "mv a b", "rm -f x", "unknown x", "tr -d x", "uniq -c", "sed d", "awk", "bigrams_aux a", "wc -l", "tee a",
                 "sort -o out in", "cut -f 1 é"]

def occupy(where, what):
    """Put something at that path."""
    if what == "file":
        open(where, "w").write("precious\n")
    elif what == "empty file":
        open(where, "w").close()
    elif what == "read-only file":
        open(where, "w").write("precious")
        os.chmod(where, 0o400)
    elif what == "directory":
        os.mkdir(where)
    elif what == "link to file":
        open(os.path.join(os.path.dirname(where), "target"), "w").write("precious")
        os.symlink("target", where)
    elif what == "dangling link":
        os.symlink("nowhere", where)
    elif what == "link to directory":
        os.mkdir(os.path.join(os.path.dirname(where), "targetdir"))
        os.symlink("targetdir", where)
    elif what == "pipe":
        os.mkfifo(where)

@contract("C25", CLI, prove="effects on the file system are outside the verifier; every kind of existing object is tried instead", weight=0.02)
def saving(d):
    line = d.choose("line", COMMAND_LINES)
    mode = d.choose("mode", ["new", "existing", "existing", "none"])
    name = d.choose("name", ["out", "out.txt", "with space", "./out", "sub/out", "sub/../out", "README.md", "setup.py", "annotation_cli.py", "util.py", "../beside", "-out", "out\u00e9"])
    absolute = d.bool("absolute")
    what = d.choose("what", ["file", "empty file", "read-only file", "directory", "link to file", "dangling link", "link to directory", "pipe"])
    elsewhere = d.bool("a file of that name elsewhere")
    top = tempfile.mkdtemp(prefix="verif_cwd_")
    try:
        cwd = os.path.join(top, "cwd")
        os.makedirs(os.path.join(cwd, "sub"))
        open(os.path.join(cwd, "bystander"), "w").write("bystander")
        if mode == "none":
            before = state(top), state(program())
            code, report, err = run(cwd, ["--command_invocation", line])
            d.check("nothing written without file", (state(top), state(program())) == before)
        else:
            code, report, err = printed_report(line)
        d.check("report without file", code == 0 and line in report and ">>> PARALLELIZABILITY INFORMATION" in report, lambda: (line, code, err[-300:]))
        if mode == "none":
            return
        where = os.path.join(cwd, name)
        if elsewhere:
            for other in (top, os.path.join(cwd, "sub"), program()):
                p = os.path.join(other, os.path.basename(name))
                if other != os.path.dirname(os.path.normpath(where)) and not os.path.lexists(p) and other != program():
                    open(p, "w").write("other")
        if mode == "existing":
            occupy(where, what)
        given = os.path.join(cwd, name) if absolute else name
        before = state(top), state(program())
        code, out, err = run(cwd, ["--command_invocation", line, "--save_to=" + given])
        after = state(top), state(program())
        d.check("no failure", code == 0, lambda: (mode, what, name, err[-300:]))
        d.check("no other place written", after[1] == before[1])
        if mode == "existing":
            d.check("existing things untouched", after[0] == before[0], lambda: (what, name))
            d.check("report printed after a notice", steady(out).endswith(steady(report)) and len(out) > len(report) and out[:len(out) - len(report)].endswith("\n")
                    and len(out[:len(out) - len(report)].strip()) > 0, lambda: (what, name, out[:200]))
        else:
            rel = os.path.relpath(os.path.normpath(where), top)
            d.check("the file is created", rel in after[0] and after[0][rel][0] == "file", lambda: (name, sorted(after[0])))
            d.check("with the whole report", steady(after[0][rel][1].decode("utf-8", "replace")).rstrip("\n") == steady(report).rstrip("\n"), lambda: (name, after[0][rel][1][:200]))
            rest = {k: v for k, v in after[0].items() if k != rel}
            d.check("no other file created or changed", rest == before[0], lambda: (name, [k for k in set(rest) ^ set(before[0])]))
            d.check("report not printed as well", ">>> PARSED" not in out)
    finally:
        shutil.rmtree(top, ignore_errors=True)

@contract("C25", CLI, prove="as above", weight=0.003)
def saving_twice(d):
    """The second run finds the file of the first."""
    first, second = d.choose("first", COMMAND_LINES), d.choose("second", COMMAND_LINES)
    top = tempfile.mkdtemp(prefix="verif_cwd_")
    try:
        run(top, ["--command_invocation", first, "--save_to", "out"])
        before = state(top)
        d.check("written", list(before) == ["out"] and first in before["out"][1].decode("utf-8", "replace"))
        code, out, err = run(top, ["--command_invocation", second, "--save_to", "out"])
        d.check("kept", state(top) == before)
        d.check("printed", code == 0 and second in out)
    finally:
        shutil.rmtree(top, ignore_errors=True)
