"""Running TLC and reading its verdicts."""
import os, re, subprocess, tempfile, shutil, time, json

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    """TLC did not produce a verdict (timeout, out of memory, broken spec)."""


class TlcEval(Exception):
    """TLC could not evaluate the specification on a recorded value."""


def run(module, cfg_text, env=None, workers=8, timeout=600, heap="6g", scratch=None, deadlock=False):
    """Runs TLC on spec/<module>.tla, returns dict(states, distinct, out, violated)."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-DTLA-Library=" + d, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", module + ".cfg"]
        if not deadlock:
            cmd.append("-deadlock")  # -deadlock switches the deadlock check off
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out after %ds on %s" % (timeout, module))
        out = p.stdout.decode("utf-8", "replace")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") if False else out)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        res = dict(out=out, rc=p.returncode, wall=time.time() - t0, states=0, distinct=0, violated=None)
        if m:
            res["states"] = int(m[-1][0].replace(",", ""))
            res["distinct"] = int(m[-1][1].replace(",", ""))
        v = re.search(r"Error: Invariant (\S+) is violated", out) or re.search(r"Error: Action property (\S+) is violated", out)
        if v:
            res["violated"] = v.group(1)
            return res
        if re.search(r"Temporal properties were violated", out):
            res["violated"] = "temporal"
            return res
        if "Model checking completed. No error has been found." in out:
            return res
        if re.search(r"Error: (Evaluating|TLC threw an unexpected exception|The (first|second) argument|Attempted to|"
                     r"In evaluation|The following|Overflow|Invariant)", out) or "Attempted" in out or "Overflow" in out:
            raise TlcEval(out[-3000:])
        raise TlcError("TLC gave no verdict on %s (rc %s):\n%s" % (module, p.returncode, out[-3000:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def printed(out, tag):
    """The strings PrintT'ed with the given tag prefix."""
    r = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            r.append(line[1:-1] if line.endswith('"') else line[1:])
    return r


def vectors(out):
    """JSON values printed as PrintT("@@" \\o ToJson(..))."""
    r = []
    for s in printed(out, "@@"):
        s = s[2:]
        try:
            r.append(json.loads(s))
        except ValueError:
            r.append(json.loads(s.replace('\\"', '"').replace("\\\\", "\\")))
    return r
