"""C27: starting commands, creating paths, reading tables and switches."""
import argparse
import contextlib
import io
import json
import os
import shlex
import signal

import numpy as np

import programs
from core import Group
from hand_eye_calibration import bash_utils

PROPERTY = "C27"
LEVEL = "exploration"
WORKERS = 4
ASSUMPTIONS = ["commands are started inside a scratch directory; the started program only records "
               "its arguments"]

RECORDER = r'''
import json, os, sys, time
with open(os.environ["VERIF_RECORD"], "a") as f:
  f.write(json.dumps([sys.argv[1:], sys.stdin is not None and os.getcwd(), os.getpid()]) + "\n")
time.sleep(float(os.environ["VERIF_DELAY"]))
with open(os.environ["VERIF_RECORD"] + ".end", "a") as f:
  f.write("%d\n" % os.getpid())
status = int(os.environ["VERIF_STATUS"])
if status < 0:
  os.kill(os.getpid(), -status)
  time.sleep(60)
sys.exit(status)
'''

LETTERS = list("abcXYZ0189-_=/.,:+@%") + [" ", " ", "\t", "'", '"', "$", "*", "?", "~", "\\", ";",
                                            "|", "&", ">", "<", "(", ")", "#", "!", "`", "{", "}",
                                            "é", "ß", "→", "\n"]


def word(rng):
  n = int(rng.integers(0, 9)) if rng.integers(6) else 0
  start = ["#", "-", "--", "~", "!"][rng.integers(5)] if rng.integers(6) == 0 else ""
  return start + "".join(LETTERS[int(i)] for i in rng.integers(0, len(LETTERS), size=n))


def quoted(rng, w):
  """One of several ways to write an argument in a command line."""
  kind = rng.integers(3)
  if kind == 1 and '"' not in w and "\\" not in w:
    return '"%s"' % w
  if kind == 2 and w and all(ch.isalnum() or ch in "-_=/.,:+@%#!~^" for ch in w) and (
      w[0].isalnum() or w[0] == "-" or w[0] == "#"):
    return w
  return shlex.quote(w)


def lines(path):
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return f.read().splitlines()


def command(c):
  rng = c.rng
  d = c.scratch()
  script = os.path.join(d, "record me.py")
  with open(script, "w") as f:
    f.write(RECORDER)
  record = os.path.join(d, "record")
  words = [word(rng) for _ in range(int(rng.integers(0, 7)))]
  status = int([0, 0, 0, 1, 2, 3, 7, 42, 126, 127, 128, 200, 254, 255, -signal.SIGTERM, -signal.SIGKILL][
      rng.integers(16)])
  dry = c.index % 5 == 4
  gap = ["  ", " ", " \t ", " \\\n "][rng.integers(3)]
  cmd = gap.join([programs.PYTHON, "-S", "-E", quoted(rng, script)] + [quoted(rng, w) for w in words])
  if rng.integers(3) == 0:
    cmd = "  " + cmd + " "
  if rng.integers(2):
    marker = os.path.join(d, "injected")
    # A shell would act on this.
    extra = ["$(touch %s)" % marker, "; touch %s" % marker, "> %s" % marker, "$HOME", "*"][rng.integers(5)]
    words.append(extra)
    cmd += " " + shlex.quote(extra)
  c.input(words, status, dry)
  c.describe(words=words, status=status, dry=dry, command=cmd)
  saved = dict(os.environ)
  os.environ.update(VERIF_RECORD=record, VERIF_STATUS=str(status),
                    VERIF_DELAY=str([0.0, 0.0, 0.05][rng.integers(3)]))
  before = programs.listing(d)
  error = None
  try:
    out = bash_utils.run(cmd, True) if dry else bash_utils.run(cmd)
  except Exception as e:
    error = e
  finally:
    os.environ.clear()
    os.environ.update(saved)
  started = [json.loads(x) for x in lines(record)]
  ended = lines(record + ".end")
  if dry:
    c.check("a dry run starts nothing", not started and programs.listing(d) == before and error is None,
            started, repr(error))
    return
  if not c.check("started once", len(started) == 1, started, repr(error)):
    return
  c.check("arguments exactly as quoted", started[0][0] == words, started[0][0], words)
  c.check("waits for the end", ended == [str(started[0][2])], ended, started[0][2])
  if status == 0:
    c.check("no error for status zero", error is None and out is None, repr(error))
  else:
    c.check("error for other statuses", error is not None, status)
    if error is not None:
      rest = str(error).replace(cmd, "")
      c.check("error names the exit status", str(status) in rest, status, str(error)[-200:])
  c.check("nothing else happens", set(programs.listing(d)) == set(before) | {"record", "record.end"},
          sorted(programs.listing(d)))


def missing(c):
  """Commands that do not exist."""
  d = c.scratch()
  c.input(c.index)
  name = os.path.join(d, ["no such program", "plain.txt", "dir"][c.index % 3])
  if c.index % 3 == 1:
    open(name, "w").close()
  elif c.index % 3 == 2:
    os.makedirs(name)
  c.raises("impossible commands are reported", Exception, bash_utils.run, shlex.quote(name) + " a b")
  bash_utils.run(shlex.quote(name) + " a b", dry_run=True)


def part(rng):
  return ["a", "b c", "d.e", "..f", "ü", "x" * 40, "1"][rng.integers(7)]


def paths(c):
  rng = c.rng
  d = c.scratch()
  depth = int(rng.integers(0, 6))
  parts = [part(rng) for _ in range(depth)]
  kind = ["free", "some exist", "all exist", "blocked", "last is a file", "slash", "relative", "dots",
          "no directory", "dangling link", "linked"][c.index % 11]
  name = ["file.csv", "x", "result file.txt"][rng.integers(3)]
  if kind in ("some exist", "all exist", "blocked", "last is a file", "dangling link", "linked") and depth == 0:
    parts, depth = ["a"], 1
  known = parts[:int(rng.integers(0, depth + 1))] if kind == "some exist" else []
  if kind == "all exist":
    known = parts
  os.makedirs(os.path.join(d, *known) if known else d, exist_ok=True)
  keep = os.path.join(d, *(list(known) + ["keep"]))
  with open(keep, "w") as f:
    f.write("contents")
  target = os.path.join(d, *(parts + [name]))
  block = None
  if kind == "blocked":
    block = os.path.join(d, parts[0])
    open(block, "w").close()
    if depth == 1:
      target = os.path.join(d, parts[0], "more", name)
  elif kind == "last is a file":
    os.makedirs(os.path.join(d, *parts[:-1]), exist_ok=True)
    block = os.path.join(d, *parts)
    open(block, "w").close()
  elif kind == "dangling link":
    os.makedirs(os.path.join(d, *parts[:-1]), exist_ok=True)
    block = os.path.join(d, *parts)
    os.symlink(os.path.join(d, "nowhere"), block)
  elif kind == "linked":
    os.makedirs(os.path.join(d, "real"))
    os.makedirs(os.path.join(d, *parts[:-1]), exist_ok=True)
    os.symlink(os.path.join(d, "real"), os.path.join(d, *parts))
  elif kind == "slash":
    target = os.path.join(d, *(parts + [""]))
  elif kind == "dots":
    target = os.path.join(d, *(parts + [".", name]))
  elif kind == "no directory":
    target, parts = name, []
  if kind == "relative":
    target = os.path.join(*(parts + [name]))
  c.input(kind, parts, known, name)
  c.describe(kind=kind, target=target, existing=known)
  before = programs.listing(d)
  old = os.getcwd()
  os.chdir(d)
  try:
    if block is not None:
      c.raises("genuine failures are reported", Exception, bash_utils.create_path, target)
      c.check("nothing else changes", programs.listing(d) == before, sorted(programs.listing(d)))
      return
    bash_utils.create_path(target)
    after = programs.listing(d)
    expected = dict(before)
    if kind != "linked":
      for i in range(len(parts)):
        expected[os.path.join(*parts[:i + 1]) + "/"] = None
    c.check("exactly the missing directories", after == expected, sorted(after), sorted(expected))
    c.check("parent exists", os.path.isdir(os.path.dirname(os.path.join(d, target))))
    bash_utils.create_path(target)
    c.check("again without effect", programs.listing(d) == after)
  finally:
    os.chdir(old)


def race(c):
  """Somebody else creates the directory at the same time."""
  d = c.scratch()
  parts = ["p%d" % i for i in range(1 + c.index % 3)]
  directory = os.path.join(d, *parts)
  c.input(c.index)
  original = os.makedirs
  calls = []

  def makedirs(name, *args, **kwargs):
    if not calls:
      calls.append(name)
      original(directory)
    return original(name, *args, **kwargs)

  os.makedirs = makedirs
  try:
    bash_utils.create_path(os.path.join(directory, "file"))
  finally:
    os.makedirs = original
  c.count("races met", len(calls))
  c.check("directory created by somebody else", os.path.isdir(directory))


def tables(c):
  rng = c.rng
  rows, cols = int(rng.integers(1, 12)), int(rng.integers(1, 10))
  scale = float(10.0 ** rng.integers(-12, 13))
  table = rng.normal(size=(rows, cols)) * scale
  if rng.integers(3) == 0:
    table = np.round(table)
  if rng.integers(4) == 0:
    table[rng.integers(rows), rng.integers(cols)] = [np.inf, -np.inf, np.nan, 0.0, -0.0, 1478163000.123456][
        rng.integers(6)]
  kind = ["repr", "%.18e", "%.17g", "int", "padded", "signed"][c.index % 6]
  if kind == "int":
    table = np.round(rng.uniform(-1e6, 1e6, size=(rows, cols)))

  def text(v):
    if kind == "int":
      return str(int(v))
    if kind in ("%.18e", "%.17g"):
      return kind % v
    if kind == "signed":
      return "%+.17g" % v
    return (" " if kind == "padded" else "") + repr(float(v)) + (" " if kind == "padded" else "")

  path = os.path.join(c.scratch(), "table.csv")
  end = ["\n", "\r\n"][rng.integers(2)]
  body = end.join(",".join(text(v) for v in row) for row in table) + (end if rng.integers(3) else "")
  with open(path, "w", newline="") as f:
    f.write(body)
  c.input(body)
  c.describe(shape=[rows, cols], kind=kind)
  out = bash_utils.readArrayFromCsv(path)
  c.check("shape of the table", np.shape(out) == (rows, cols), np.shape(out), (rows, cols))
  c.check("values of the table", np.array_equal(out, table, equal_nan=True), out, table)
  with open(path, newline="") as f:
    c.check("file unchanged", f.read() == body)


def refused(c):
  rng = c.rng
  path = os.path.join(c.scratch(), "table.csv")
  kind = ["word", "ragged", "missing"][c.index % 3]
  body = {"word": "1,2\n3,%s\n" % ["x", "1.2.3", "", "1 2", "0x1g"][rng.integers(5)],
          "ragged": "1,2,3\n4,5\n", "missing": None}[kind]
  c.input(kind, body, c.index)
  if body is not None:
    with open(path, "w") as f:
      f.write(body)
  c.raises("tables that are none are refused", Exception, bash_utils.readArrayFromCsv, path)


def case_of(rng, w):
  return "".join(ch.upper() if rng.integers(2) else ch for ch in w)


def switches(c):
  rng = c.rng
  kind = c.index % 3
  if kind == 0:
    w = case_of(rng, ["true", "1", "yes"][rng.integers(3)])
    c.input(w)
    c.check("words for true", bash_utils.str_to_bool(w) is True, w)
  elif kind == 1:
    w = case_of(rng, ["false", "0", "no"][rng.integers(3)])
    c.input(w)
    c.check("words for false", bash_utils.str_to_bool(w) is False, w)
  else:
    w = ["2", "10", "-1", "maybe", "falsee", "nope", "yesno", "truefalse", "truee", "01", "none", "1.0",
         word(rng) + "?", "tru", "fals", "ja"][rng.integers(16)]
    c.input(w)
    c.raises("other words are refused", (argparse.ArgumentTypeError, ValueError), bash_utils.str_to_bool, w)
  # The same through a command line.
  parser = argparse.ArgumentParser()
  parser.add_argument("--flag", type=bash_utils.str_to_bool, default=None)
  try:
    with contextlib.redirect_stderr(io.StringIO()):
      got = parser.parse_args(["--flag=" + w]).flag
  except SystemExit:
    got = "refused"
  c.check("switches on the command line", got == [True, False, "refused"][kind], w, got)


GROUPS = [
    Group("command", command, 300, 6000),
    Group("missing", missing, 6, 30),
    Group("paths", paths, 330, 6600),
    Group("race", race, 12, 60),
    Group("tables", tables, 300, 6000),
    Group("refused", refused, 30, 300),
    Group("switches", switches, 240, 2400)]
REQUIRED = ["arguments exactly as quoted", "waits for the end", "error names the exit status",
            "no error for status zero", "a dry run starts nothing", "exactly the missing directories",
            "genuine failures are reported", "values of the table", "words for true", "words for false",
            "other words are refused", "switches on the command line"]
