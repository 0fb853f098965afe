"""Run TLC."""
import os, re, subprocess, tempfile, shutil, time, json
from .build import VERIF, BUILD
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")

class TLCError(Exception):
    pass

class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and ("No error has been found" in out or "Progress" in out or "states generated" in out)
        self.violation = rc in (10, 11, 12, 13) or "is violated" in out
        self.evalerror = rc in (75, 76, 77) or ("Error: " in out and not self.violation and rc not in (0, 150))
        self.parseerror = rc == 150 or "Parsing or semantic analysis failed" in out

def run(module, cfg, env=None, workers=1, mem="2g", timeout=800, extra=(), simulate=None):
    """module: file in spec/ without .tla; cfg: file in spec/ or absolute path."""
    md = tempfile.mkdtemp(prefix="tlc", dir=os.path.join(BUILD, "tlc") if os.path.isdir(os.path.join(BUILD, "tlc")) else None)
    e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("LD_PRELOAD", None); e.pop("JAVA_TOOL_OPTIONS", None)
    cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
           "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-config", cfgp, "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-deadlock"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=SPEC, timeout=timeout, errors="replace")
        return Result(p.returncode, p.stdout + p.stderr)
    except subprocess.TimeoutExpired as x:
        raise TLCError("TLC timed out after %ss on %s" % (timeout, module))
    finally:
        shutil.rmtree(md, ignore_errors=True)
