"""Running TLC and reading what the specifications print."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TLCError(Exception):
    pass


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def key(x):
    return hashlib.md5(canon(x).encode()).digest()


def unquote(line):
    return json.loads(line)          # TLC prints strings the way JSON writes them


def fmt(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(fmt(x) for x in v) + ">>"
    if isinstance(v, set):
        return "{" + ", ".join(fmt(x) for x in sorted(v)) + "}"
    return '"%s"' % v


def run(module, consts, invariants=(), properties=(), spec="Spec", view=None, constraint=None, workers=8, timeout=800,
        args=(), on_line=None, files=None, mem="6g"):
    """Runs TLC; calls on_line with every line printed by the specification (the
    ones starting with "@).  Returns the statistics.  Raises TLCError if TLC reports
    anything but success."""
    d = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, text in (files or {}).items():
            with open(os.path.join(d, n), "w") as fp:
                fp.write(text)
        cfg = ["SPECIFICATION " + spec] if spec else []
        if consts:
            cfg.append("CONSTANTS")
            cfg += [" %s = %s" % (k, fmt(v)) for k, v in consts.items()]
        if view:
            cfg.append("VIEW " + view)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        if properties:
            cfg.append("PROPERTIES " + " ".join(properties))
        cfg.append("CHECK_DEADLOCK FALSE")
        with open(os.path.join(d, "M.cfg"), "w") as fp:
            fp.write("\n".join(cfg) + "\n")
        env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xmx" + mem)
        p = subprocess.Popen(["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-config", "M.cfg",
                              *args, module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                             text=True, errors="replace")
        import threading
        t = threading.Timer(timeout, p.kill)
        t.start()
        st = {"generated": 0, "distinct": 0, "depth": 0, "ok": False}
        tail = []
        for line in p.stdout:
            if line.startswith('"@'):
                if on_line:
                    on_line(unquote(line))
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct", line)
            if m:
                st["generated"], st["distinct"] = int(m.group(1)), int(m.group(2))
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                st["depth"] = int(m.group(1))
            m = re.search(r"The number of states generated: (\d+)", line)
            if m:
                st["generated"] = int(m.group(1))
            if "No error has been found" in line:
                st["ok"] = True
            if line.strip() and not line.startswith("Picked up"):
                tail.append(line.rstrip())
                tail = tail[-60:]
        p.wait()
        t.cancel()
        st["tail"] = tail
        st["rc"] = p.returncode
        return st
    finally:
        shutil.rmtree(d, ignore_errors=True)
