"""Runs the repository's programs, in this process or as a real child process."""
import contextlib
import io
import json
import os
import runpy
import subprocess
import sys

import core

PYTHON = "/opt/venv/bin/python"
HARNESS = os.path.dirname(os.path.abspath(__file__))


def path_of(name):
  return os.path.join(core.REPO, name)


def run_here(name, args, cwd, env=None):
  """Runs a script under the tracer; returns (exit status, printed text, error text)."""
  saved = dict(os.environ)
  os.environ.update(env or {})
  out, err = io.StringIO(), io.StringIO()
  argv, old, modules = list(sys.argv), os.getcwd(), set(sys.modules)
  status = 0
  sys.argv[:] = [path_of(name)] + [str(a) for a in args]
  os.chdir(cwd)
  try:
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
      runpy.run_path(path_of(name), run_name="__main__")
  except SystemExit as e:
    status = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
  except Exception as e:  # The interpreter would end with status 1.
    status = 1
    err.write(repr(e))
  finally:
    os.environ.clear()
    os.environ.update(saved)
    sys.argv[:] = argv
    os.chdir(old)
    for m in set(sys.modules) - modules:
      if getattr(sys.modules[m], "__file__", None) and "/bin/" in str(sys.modules[m].__file__):
        del sys.modules[m]
  return status, out.getvalue(), err.getvalue()


def run_child(name, args, cwd, env=None, timeout=300):
  e = dict(os.environ)
  e.update(env or {})
  p = subprocess.run([PYTHON, "-W", "ignore", path_of(name)] + [str(a) for a in args], cwd=cwd,
                     env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                     stderr=subprocess.PIPE, timeout=timeout)
  return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


def listing(directory):
  """Every file below a directory with its content."""
  out = {}
  for base, dirs, files in os.walk(directory):
    for d in dirs:
      out[os.path.relpath(os.path.join(base, d), directory) + "/"] = None
    for f in files:
      p = os.path.join(base, f)
      if os.path.islink(p):
        out[os.path.relpath(p, directory)] = os.readlink(p)
        continue
      with open(p, "rb") as h:
        out[os.path.relpath(p, directory)] = h.read()
  return out


def write_table(path, table, separator=", "):
  with open(path, "w") as f:
    for row in table:
      f.write(separator.join(repr(float(v)) for v in row) + "\n")


def read_table(path):
  with open(path) as f:
    return [[float(v) for v in line.split(",")] for line in f if line.strip()]


ROSRUN = """#!/bin/bash
printf '%s\\0' "$#" "$@" >> "$VERIF_CALLS"
n=$(tr -cd '\\1' < "$VERIF_COUNT" | wc -c)
printf '\\1' >> "$VERIF_COUNT"
if [ "$1" = hand_eye_calibration ] && [ -n "$VERIF_PASS" ]; then
  shift
  program=$1
  shift
  exec @PYTHON@ -W ignore "@REPO@/hand_eye_calibration/bin/$program" "$@"
fi
if [ "$1" = hand_eye_calibration_batch_estimation ] && [ "$2" = batch_estimator ] && [ -n "$VERIF_PLAN" ]; then
  shift 2
  exec @PYTHON@ -S -E "@HARNESS@/estimator.py" "$@"
fi
for k in $VERIF_FAIL; do
  if [ "$k" = "$n" ] || [ "$k" = all ]; then exit 3; fi
done
exit 0
"""


def rosrun(directory, fail=(), start=False):
  """A stand-in for rosrun that records its calls; returns the environment.

  fail: numbers of the calls that end with a non-zero status. With start the
  repository's own programs are started, others are only recorded."""
  tools = os.path.join(directory, "tools")
  os.makedirs(tools, exist_ok=True)
  path = os.path.join(tools, "rosrun")
  with open(path, "w") as f:
    f.write(ROSRUN.replace("@PYTHON@", PYTHON).replace("@REPO@", core.REPO).replace("@HARNESS@", HARNESS))
  os.chmod(path, 0o755)
  for name in ("calls", "count"):
    open(os.path.join(tools, name), "w").close()
  return {"PATH": tools + ":" + os.environ["PATH"], "VERIF_CALLS": os.path.join(tools, "calls"),
          "VERIF_COUNT": os.path.join(tools, "count"), "VERIF_FAIL": " ".join(str(k) for k in fail),
          "VERIF_PASS": "1" if start else ""}


def estimator(directory, plan):
  """A stand-in rosrun whose batch estimator follows the plan; returns the environment.

  plan: results per pair of file names, salt, share of failing calls, delay."""
  env = rosrun(directory)
  env["VERIF_PLAN"] = os.path.join(directory, "tools", "plan.json")
  env["VERIF_LOG"] = os.path.join(directory, "tools", "log")
  with open(env["VERIF_PLAN"], "w") as f:
    json.dump(plan, f)
  open(env["VERIF_LOG"], "w").close()
  return env


def estimator_log(env):
  with open(env["VERIF_LOG"]) as f:
    return [json.loads(line) for line in f]


def calls(env):
  """The argument lists rosrun was started with."""
  with open(env["VERIF_CALLS"], "rb") as f:
    parts = f.read().decode().split("\0")[:-1]
  out = []
  while parts:
    n = int(parts[0])
    out.append(parts[1:1 + n])
    parts = parts[1 + n:]
  return out


def options(args):
  """Command line options as a dictionary, whatever their order and notation."""
  out, i = {}, 0
  while i < len(args):
    a = args[i]
    i += 1
    if not a.startswith("-"):
      out.setdefault("", []).append(a)
      continue
    a = a.lstrip("-")
    if "=" in a:
      k, v = a.split("=", 1)
    elif i < len(args) and not args[i].startswith("--"):
      k, v = a, args[i]
      i += 1
    else:
      k, v = a, True
    out[k] = v
  return out
