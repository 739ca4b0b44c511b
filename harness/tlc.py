"""Running TLC."""
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def build():
    """Compile the module override Rat.java, unless it is up to date."""
    src = os.path.join(SPEC, "Rat.java")
    cls = os.path.join(BUILD, "classes")
    stamp = os.path.join(cls, "stamp")
    text = open(src).read()
    if os.path.exists(stamp) and open(stamp).read() == text:
        return cls
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp, src], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(os.path.join(tmp, "stamp"), "w") as fh:
        fh.write(text)
    if os.path.isdir(cls):
        shutil.rmtree(cls, ignore_errors=True)
    try:
        os.rename(tmp, cls)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return cls


class TlcError(Exception):
    """TLC did not do its work (this is not a verdict)."""


def run(module, cfg=None, env=None, heap="1500m", workers=1, timeout=800, args=()):
    """Run TLC; returns (exit code, output)."""
    cls = os.path.join(BUILD, "classes")
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", ":".join([cls, JARS, SPEC]),
           "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC, "-Dtlc2.tool.queue.IStateQueue=StateDeque", "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", *args, "-config", (cfg or module) + ".cfg", module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        raise TlcError("%s: no answer after %d s" % (module, timeout)) from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    """States generated and distinct states of a run."""
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])
