"""Running TLC: model checking and generation of scenarios, and validation of recorded traces."""

import json
import os
import re
import subprocess

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


def tlc_cmd(module, cfg, metadir, workers=1, extra=(), heap="3g", tier=4):
    return [
        "java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC", f"-XX:TieredStopAtLevel={tier}", "-cp", JARS, "tlc2.TLC",
        "-config", cfg, "-workers", str(workers), "-metadir", metadir, "-noGenerateSpecTE", *extra,
        os.path.join(SPEC, module + ".tla"),
    ]  # fmt: skip


def start(scratch, name, module, cfg, workers=1, extra=(), env=None, heap="3g", tier=4):
    """Start TLC in a directory of its own; returns a handle for finish()."""
    d = scratch.sub("tlc-" + name)
    cfgfile = os.path.join(d, "model.cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    outfile = open(os.path.join(d, "out"), "w+")
    p = subprocess.Popen(
        tlc_cmd(module, cfgfile, os.path.join(d, "meta"), workers, extra, heap, tier),
        cwd=d, stdout=outfile, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env={**os.environ, **(env or {})},
    )  # fmt: skip
    return {"p": p, "out": outfile, "name": name, "module": module}


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def finish(h, timeout=800):
    try:
        rc = h["p"].wait(timeout)
    except subprocess.TimeoutExpired:
        h["p"].kill()
        h["p"].wait()
        raise TlcError(f"TLC {h['name']}: timeout")
    h["out"].seek(0)
    text = h["text"] = h["out"].read()
    h["out"].close()
    m = STATS.findall(text)
    stats = {"generated": int(m[-1][0]), "distinct": int(m[-1][1])} if m else {"generated": 0, "distinct": 0}
    return rc, text, stats


def cfg_text(consts, spec="Spec", view=None, constraints=(), invariants=(), properties=(), post=None):
    lines = [f"SPECIFICATION {spec}", "CHECK_DEADLOCK FALSE"]
    if view:
        lines.append(f"VIEW {view}")
    lines += [f"CONSTRAINT {c}" for c in constraints]
    lines += [f"INVARIANT {i}" for i in invariants]
    lines += [f"PROPERTY {p}" for p in properties]
    if post:
        lines.append(f"POSTCONDITION {post}")
    if consts:
        lines.append("CONSTANTS")
        for k, v in consts.items():
            v = f'"{v}"' if isinstance(v, str) and not v.startswith("{") else str(v).upper() if isinstance(v, bool) else v
            lines.append(f"  {k} = {v}")
    return "\n".join(lines) + "\n"


def printed(text):
    """The JSON values printed as "@@..." by the specification."""
    out = []
    for line in text.splitlines():
        if line.startswith('"@@'):
            out.append(json.loads(json.loads(line)[2:]))
    return out


def ok_or_raise(h, rc, text):
    if rc != 0:
        tail = "\n".join(line for line in text.splitlines() if not line.startswith('"@@'))[-3000:]
        raise TlcError(f"TLC {h['name']} ({h['module']}) exit {rc}:\n{tail}")


def start_validation(scratch, name, trace, module="TraceTree", heap="3g", tier=4):
    cfg = cfg_text({}, spec="Spec", post="Consumed")
    return start(scratch, name, module, cfg, env={"TRACE": trace}, heap=heap)


FAIL = re.compile(r'^"FAIL (\d+) ([A-Z]\d\d):(.*)"$')


def finish_validation(h, timeout=800):
    rc, text, stats = finish(h, timeout)
    ok_or_raise(h, rc, text)
    return parsed_fails(text), stats


def parsed_fails(text):
    return [(int(m[1]), m[2], m[3]) for m in map(FAIL.match, text.splitlines()) if m]
