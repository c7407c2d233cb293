"""Runner shared by all checks.

A check module (harness/checks/cNN.py) defines

  PROPERTY  the property id
  LEVEL     the verification level
  GROUPS    list of Group(name, function, quick cases, thorough cases)
  REQUIRED  monitors that must have been evaluated for the run to count
  ASSUMPTIONS (optional) list of strings for the evidence file

Every case runs the real code of /repo with its own random generator, derived
from (seed, group, index) only, so that a case can be replayed on its own. The
case function feeds the monitors through the Case object. A monitor evaluation
that fails, or an exception that leaves the case, is a violation.

Exit status: 0 the property held on everything executed, 1 violation, 2 no
answer (a required monitor saw nothing, the run was cut short, ...).
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
MAX_VIOLATIONS = 20
MAX_SECONDS = {"quick": 780, "thorough": 10800}

Group = collections.namedtuple("Group", "name function quick thorough")


class Budget(BaseException):
  """The code under test used up its step budget."""


class Inconclusive(BaseException):
  """The run cannot give an answer."""


class Tracer(object):
  """Watches the repository's code through sys.monitoring.

  Records which lines were executed (each line reports once, so the cost
  vanishes) and, inside a budget, counts loop iterations and calls. Once a
  budget is used up the monitor keeps raising, so that handlers in the code
  under test cannot swallow it.
  """
  TOOL = 4

  def __init__(self):
    self.lines = collections.defaultdict(set)
    self.functions = set()
    self.limit = None
    self.steps = 0
    self._mon = sys.monitoring
    self._mon.use_tool_id(self.TOOL, "verif")
    ev = self._mon.events
    self._mon.register_callback(self.TOOL, ev.LINE, self._line)
    self._mon.register_callback(self.TOOL, ev.JUMP, self._jump)
    self._mon.register_callback(self.TOOL, ev.PY_START, self._start)
    self._base = ev.LINE | ev.PY_START
    self._mon.set_events(self.TOOL, self._base)

  def _mine(self, code):
    return code.co_filename.startswith(REPO + "/")

  def _line(self, code, line):
    if self._mine(code):
      self.lines[code.co_filename].add(line)
    return self._mon.DISABLE

  def _start(self, code, offset):
    if not self._mine(code):
      return self._mon.DISABLE
    self.functions.add((code.co_filename, code.co_qualname))
    if self.limit is None:
      return self._mon.DISABLE
    return self._count()

  def _jump(self, code, offset, destination):
    if not self._mine(code):
      return self._mon.DISABLE
    if destination > offset:
      return None
    return self._count()

  def _count(self):
    self.steps += 1
    if self.limit is not None and self.steps > self.limit:
      raise Budget("more than %d steps" % self.limit)

  @contextlib.contextmanager
  def budget(self, limit):
    """Counts backward jumps and calls inside repository code."""
    self.limit = limit
    self.steps = 0
    self._mon.restart_events()
    self._mon.set_events(self.TOOL, self._base | self._mon.events.JUMP)
    try:
      yield self
    finally:
      self.limit = None
      self._mon.set_events(self.TOOL, self._base)

  def summary(self):
    return {os.path.relpath(f, REPO): sorted(v) for f, v in self.lines.items()}


class Case(object):
  """One execution, and the monitors watching it."""

  def __init__(self, check, group, index, seed, tier, tracer):
    self.check_id = check
    self.group = group
    self.index = index
    self.tier = tier
    self.tracer = tracer
    key = [seed, zlib.crc32((check + group).encode()), index]
    self.rng = np.random.default_rng(key)
    random.seed(repr(key))
    np.random.seed(int(self.rng.integers(2 ** 31)))
    self.counters = collections.Counter()
    self.inputs = []
    self.trivial = False
    self.violations = []
    self.description = {}
    self.fp_events = 0
    self._scratch = None

  # -- description of the case ------------------------------------------------
  def describe(self, **kwargs):
    """Notes what the case is made of, for replay files and samples."""
    self.description.update({k: plain(v) for k, v in kwargs.items()})

  def input(self, *values):
    """Registers generated inputs; they identify the case."""
    self.inputs.append(fingerprint(values))

  # -- monitors ---------------------------------------------------------------
  def check(self, monitor, ok, *detail):
    self.counters[monitor] += 1
    if not bool(ok):
      self.violations.append({
          "monitor": monitor,
          "observed": " ".join(str(plain(d)) for d in detail)[:2000]})
    return bool(ok)

  def close(self, monitor, observed, expected, tol, *detail):
    """Compares arrays within an absolute tolerance; NaN never passes."""
    observed = np.asarray(observed, dtype=float)
    expected = np.asarray(expected, dtype=float)
    if observed.shape != expected.shape:
      return self.check(monitor, False, "shape", observed.shape, "expected",
                        expected.shape, *detail)
    error = np.max(np.abs(observed - expected)) if observed.size else 0.0
    return self.check(monitor, error <= tol, "observed", observed.tolist(),
                      "expected", expected.tolist(), "error", float(error),
                      "tolerance", tol, *detail)

  def raises(self, monitor, exceptions, function, *args, **kwargs):
    try:
      out = function(*args, **kwargs)
    except exceptions:
      return self.check(monitor, True)
    return self.check(monitor, False, "returned", repr(out)[:500],
                      "instead of raising")

  def count(self, name, n=1):
    """Counts an event without judging it."""
    self.counters["event:" + name] += n

  @contextlib.contextmanager
  def unchanged(self, monitor, *values):
    """The values are the same afterwards: bit for bit, quaternions up to rounding."""
    before = [snapshot(v) for v in values]
    yield
    after = [snapshot(v) for v in values]
    self.check(monitor, before == after, "before", before, "after", after)

  def scratch(self):
    """A fresh directory that is removed with the case."""
    if self._scratch is None:
      self._scratch = tempfile.mkdtemp(prefix="verif-%s-" % self.check_id)
    return self._scratch

  def cleanup(self):
    if self._scratch is not None:
      shutil.rmtree(self._scratch, ignore_errors=True)
      self._scratch = None


def plain(v):
  """JSON friendly, short form of a value."""
  if isinstance(v, np.ndarray):
    return v.tolist() if v.size <= 64 else {"shape": list(v.shape), "hash": fingerprint([v])}
  if isinstance(v, (np.floating, np.integer, np.bool_)):
    return v.item()
  if isinstance(v, (list, tuple)):
    return [plain(x) for x in v][:64]
  if isinstance(v, dict):
    return {str(k): plain(x) for k, x in v.items()}
  if isinstance(v, (str, int, float, bool)) or v is None:
    return v
  return repr(v)[:300]


class _Components(object):
  """Components of a quaternion or dual quaternion, equal up to rounding."""

  def __init__(self, v):
    self.v = np.array(v, dtype=float)

  def __eq__(self, other):
    if self.v.shape != other.v.shape:
      return False
    size = np.max(np.abs(self.v)) if self.v.size else 0.0
    return bool(np.array_equal(self.v, other.v, equal_nan=True) or
                np.all(np.abs(self.v - other.v) <= 1e-14 * size))

  def __repr__(self):
    return repr(self.v.tolist())


def snapshot(v):
  """Value of an object graph as nested tuples, without private attributes."""
  for name in ("dq", "q"):
    if isinstance(getattr(v, name, None), np.ndarray):
      return (type(v).__name__, _Components(getattr(v, name)))
  if isinstance(v, np.ndarray):
    if v.dtype == object:
      return ("array", v.shape, tuple(snapshot(x) for x in v.ravel()))
    return ("array", v.shape, v.dtype.str, v.tobytes())
  if isinstance(v, (list, tuple)):
    return (type(v).__name__, tuple(snapshot(x) for x in v))
  if isinstance(v, dict):
    return ("dict", tuple(sorted((repr(k), snapshot(x)) for k, x in v.items())))
  if hasattr(v, "__dict__"):
    return (type(v).__name__, snapshot({k: x for k, x in vars(v).items() if not k.startswith("_")}))
  return repr(v)


def fingerprint(v):
  return hashlib.sha1(repr(snapshot(v)).encode()).hexdigest()[:16]


class _Sink(io.TextIOBase):
  def __init__(self):
    self.chars = 0

  def writable(self):
    return True

  def write(self, s):
    self.chars += len(s)
    return len(s)


def _known_findings(pid):
  out = {}
  if os.path.exists(FINDINGS):
    for line in open(FINDINGS):
      m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
      if m and m.group(1) == pid:
        out[m.group(2)] = m.group(3)
  return out


def run_case(module, group, index, seed, tier, tracer):
  case = Case(module.PROPERTY, group.name, index, seed, tier, tracer)
  sink = _Sink()

  def on_fp(kind, flag):
    case.fp_events += 1

  cwd = os.getcwd()
  argv = list(sys.argv)
  old = np.geterr()
  old_call = np.seterrcall(on_fp)
  np.seterr(divide="call", invalid="call", over="call", under="ignore")
  try:
    with contextlib.redirect_stdout(sink):
      group.function(case)
  except (Inconclusive, KeyboardInterrupt):
    raise
  except Budget as e:
    case.check("terminates", False, str(e), traceback.format_exc()[-1500:])
  except (MemoryError, RecursionError) as e:
    case.check("no exception", False, repr(e))
  except (Exception, SystemExit) as e:
    case.check("no exception", False, repr(e)[:300], traceback.format_exc()[-2000:])
  finally:
    np.seterr(**old)
    np.seterrcall(old_call)
    os.chdir(cwd)
    sys.argv[:] = argv
    case.cleanup()
    if "matplotlib.pyplot" in sys.modules:
      sys.modules["matplotlib.pyplot"].close("all")
  case.counters["event:printed characters"] += sink.chars
  if case.fp_events:
    case.counters["event:floating point events"] += case.fp_events
  return case


def _case_result(case):
  return {
      "group": case.group, "index": case.index,
      "counters": dict(case.counters),
      "input": fingerprint(case.inputs) if case.inputs else None,
      "trivial": case.trivial, "violations": case.violations,
      "description": case.description}


_SHARED = {}


def _worker(job):
  module, tier, seed, tracer = (_SHARED["module"], _SHARED["tier"],
                                _SHARED["seed"], _SHARED["tracer"])
  gi, index = job
  out = _case_result(run_case(module, module.GROUPS[gi], index, seed, tier, tracer))
  out["lines"] = {f: sorted(s) for f, s in tracer.lines.items()}
  out["functions"] = sorted(tracer.functions)
  tracer.lines.clear()
  tracer.functions.clear()
  return out


def jobs_of(module, tier):
  """Interleaves the groups so that a cut run still touches all of them."""
  counts = [getattr(g, tier) for g in module.GROUPS]
  return [(gi, i) for gi, n in enumerate(counts) for i in range(n)]


def _on_alarm(signum, frame):
  raise Inconclusive("time cap reached")


def main(argv):
  pid, tier = argv[1], argv[2]
  seed = int(os.environ.get("VERIF_SEED", "1"))
  start = time.time()
  tracer = Tracer()
  module = importlib.import_module("checks." + pid.lower())
  assert module.PROPERTY == pid

  if tier == "replay":
    with open(argv[3]) as f:
      replay = json.load(f)
    status = 0
    for v in replay["violations"]:
      group = [g for g in module.GROUPS if g.name == v["group"]][0]
      case = run_case(module, group, v["index"], replay["seed"], replay["tier"], tracer)
      print("%s[%d]: %d monitor evaluations" % (
          v["group"], v["index"], sum(n for k, n in case.counters.items()
                                      if not k.startswith("event:"))))
      for w in case.violations:
        print("  failed monitor %s: %s" % (w["monitor"], w["observed"]))
        status = 1
    if status:
      print("VIOLATION property=%s replay=%s" % (pid, argv[3]))
    return status

  jobs = jobs_of(module, tier)
  workers = min(getattr(module, "WORKERS", 1), len(jobs), os.cpu_count() or 1)
  signal.signal(signal.SIGALRM, _on_alarm)
  signal.alarm(MAX_SECONDS[tier])

  counters = collections.Counter()
  per_group = collections.Counter()
  distinct, samples, violations = set(), [], []
  lines = collections.defaultdict(set)
  functions = set()
  executed = 0
  cut = None

  def take(result):
    counters.update(result["counters"])
    per_group[result["group"]] += 1
    evaluated = any(not k.startswith("event:") for k in result["counters"])
    if evaluated and result["input"] and not result["trivial"]:
      distinct.add((result["group"], result["input"]))
    if result["description"] and per_group[result["group"]] <= 2:
      samples.append({"group": result["group"], "index": result["index"],
                      **result["description"]})
    for v in result["violations"]:
      violations.append(dict(v, group=result["group"], index=result["index"],
                             case=result["description"]))
    for f, s in result.get("lines", {}).items():
      lines[f].update(s)
    functions.update(tuple(x) for x in result.get("functions", []))

  known = _known_findings(pid)
  _SHARED.update(module=module, tier=tier, seed=seed, tracer=tracer)
  try:
    if workers > 1:
      with multiprocessing.get_context("fork").Pool(
          workers, initializer=lambda: signal.alarm(0)) as pool:
        for result in pool.imap_unordered(_worker, jobs, chunksize=getattr(module, "CHUNK", 1)):
          executed += 1
          take(result)
          if len([v for v in violations if _key(v) not in known]) >= MAX_VIOLATIONS:
            cut = "stopped after %d violations" % MAX_VIOLATIONS
            pool.terminate()
            break
    else:
      for job in jobs:
        executed += 1
        take(_worker(job))
        if len([v for v in violations if _key(v) not in known]) >= MAX_VIOLATIONS:
          cut = "stopped after %d violations" % MAX_VIOLATIONS
          break
  except Inconclusive as e:
    cut = str(e)
  signal.alarm(0)

  # imap_unordered delivers in any order: report in job order.
  order = {g.name: i for i, g in enumerate(module.GROUPS)}
  violations.sort(key=lambda v: (order[v["group"]], v["index"]))
  samples.sort(key=lambda s: (order[s["group"]], s["index"]))

  evaluations = {k: n for k, n in sorted(counters.items()) if not k.startswith("event:")}
  events = {k[6:]: n for k, n in sorted(counters.items()) if k.startswith("event:")}
  new = [v for v in violations if _key(v) not in known]
  old = [v for v in violations if _key(v) in known]

  wall = time.time() - start
  evidence = {
      "property": pid, "tier": tier, "seed": seed, "level": module.LEVEL,
      "coverage": {
          "evaluations": sum(evaluations.values()),
          "distinct_nontrivial": len(distinct),
          "rule": getattr(module, "RULE", "a case counts once if its generated inputs differ from "
                          "those of all other cases and at least one monitor judged an "
                          "execution on them"),
          "samples": samples[:8],
          "executions": executed,
          "executions_per_group": dict(per_group),
          "monitor_evaluations": evaluations,
          "events": events,
          "repo_lines_executed": {os.path.relpath(f, REPO): len(s) for f, s in sorted(lines.items())},
          "repo_functions_entered": len(functions)},
      "assumptions": getattr(module, "ASSUMPTIONS", []),
      "violations": len(violations),
      "wall_s": round(wall, 3)}
  if violations:
    evidence["coverage"]["failed_monitors"] = [
        {"monitor": v["monitor"], "group": v["group"], "index": v["index"],
         "observed": v["observed"][:300]} for v in violations[:MAX_VIOLATIONS]]
  if cut:
    evidence["coverage"]["cut"] = cut
  os.makedirs(EVIDENCE, exist_ok=True)
  with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
    json.dump(evidence, f, indent=1)
    f.write("\n")

  print("%s %s seed=%d: %d executions, %d monitor evaluations, %d distinct inputs, %.1f s" % (
      pid, tier, seed, executed, sum(evaluations.values()), len(distinct), wall))
  for k, n in evaluations.items():
    print("  %-52s %8d" % (k, n))
  for key in sorted({_key(v) for v in old}):
    print("KNOWN-FINDING: property=%s %s" % (pid, known[key]))
  if new:
    replay = os.path.join(EVIDENCE, "replay-%s.json" % pid)
    with open(replay, "w") as f:
      json.dump({"property": pid, "tier": tier, "seed": seed, "violations": new[:MAX_VIOLATIONS]}, f, indent=1)
      f.write("\n")
    for v in new[:5]:
      print("failed monitor '%s' in %s[%d]: %s" % (
          v["monitor"], v["group"], v["index"], v["observed"][:600]))
      print("  case: %s" % json.dumps(v["case"])[:600])
    print("VIOLATION property=%s replay=%s" % (pid, replay))
    return 1
  if cut:
    print("no answer: %s" % cut)
    return 2
  missing = [m for m in module.REQUIRED if not counters.get(m)]
  if missing:
    print("no answer: monitors never evaluated: %s" % ", ".join(missing))
    return 2
  print("held on %d executions" % executed)
  return 0


def _key(v):
  return "%s/%s" % (v["group"], v["monitor"].replace(" ", "-"))


if __name__ == "__main__":
  # checks import this file as "core"; make that the same module.
  sys.modules["core"] = sys.modules["__main__"]
  sys.exit(main(sys.argv))
