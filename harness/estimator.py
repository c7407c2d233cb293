"""A stand-in for the batch estimator: records its calls, fails on demand.

Started by the stand-in rosrun in place of the real program. It reads the
initial guess, picks an outcome from the plan by a checksum of the guess, writes
one of the prepared results and appends one line to the log."""
import hashlib
import json
import os
import signal
import sys
import time


def main():
  with open(os.environ["VERIF_PLAN"]) as f:
    plan = json.load(f)
  opts, rest, i, argv = {}, [], 0, sys.argv[1:]
  while i < len(argv):
    a = argv[i]
    i += 1
    if not a.startswith("-"):
      rest.append(a)
    elif "=" in a:
      k, v = a.lstrip("-").split("=", 1)
      opts[k] = v
    elif i < len(argv) and not argv[i].startswith("--"):
      opts[a.lstrip("-")] = argv[i]
      i += 1
    else:
      opts[a.lstrip("-")] = ""
  entry = {"arguments": argv, "rest": rest, "options": opts, "status": 97}
  problem = None
  try:
    with open(opts["init_guess_file"]) as f:
      text = f.read()
    entry["guess"] = json.loads(text)
    results = plan["results"][os.path.basename(opts["pose1_csv"]) + "|" + os.path.basename(opts["pose2_csv"])]
    out = opts["output_file"]
    key = plan["salt"] + text + opts["pose1_csv"] + opts["pose2_csv"] + opts["init_guess_file"]
    h = int(hashlib.md5(key.encode()).hexdigest(), 16)
    k = (h >> 40) % len(results)
    entry["had_output"] = os.path.exists(out)
    time.sleep(((h >> 20) % 1000) / 1000.0 * plan.get("delay", 0.0))
    mode = "good"
    if h % 1000 < 1000 * plan["fail"]:
      mode = ["status", "garbage", "killed", "late"][(h >> 10) % 4]
    entry["mode"], entry["result"] = mode, k
    if mode == "garbage":
      with open(out, "w") as f:
        f.write("{ not json")
    elif mode in ("good", "late"):
      with open(out, "w") as f:
        json.dump(results[k], f)
    entry["status"] = {"good": 0, "status": 1, "garbage": 255, "late": 3, "killed": -9}[mode]
  except Exception as e:
    problem = repr(e)
  entry["problem"] = problem
  data = (json.dumps(entry) + "\n").encode()
  fd = os.open(os.environ["VERIF_LOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
  os.write(fd, data)
  os.close(fd)
  if entry["status"] == -9:
    os.kill(os.getpid(), signal.SIGKILL)
  sys.exit(entry["status"])


if __name__ == "__main__":
  main()
