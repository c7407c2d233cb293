"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
DEFAULT = ("runtime monitoring: the real functions run on seeded hostile and realistic workloads "
           "while monitors compare every observed result with an independent reference model")
TECHNIQUE = {
    "C11": "runtime monitoring with a deterministic step-budget sanitizer (sys.monitoring) for "
           "termination, and an outcome monitor judging every reported result against the data",
    "C19": "runtime monitoring of the command line tools on generated recordings: exit status, "
           "files written and files read are compared with the known truth",
    "C22": "runtime monitoring of the exporter fed by a recorded message history through stand-ins "
           "for the ROS modules; the file is judged against the history",
    "C23": "runtime monitoring of started commands: a stand-in rosrun records every call, a monitor "
           "compares the trace with the configuration",
    "C25": "runtime monitoring with input-mutation and determinism sanitizers (snapshots before and "
           "after, re-execution under different histories)",
    "C26": "runtime monitoring of the experiment program with a stand-in estimator that records its "
           "calls and injects failures; trace and result files are judged",
    "C27": "runtime monitoring of started commands and of the scratch file system before and after",
    "C28": "runtime monitoring of the parallel experiment program with a stand-in estimator that "
           "records its calls and injects failures and delays; trace and result file are judged",
    "C29": "runtime monitoring of the drawing calls: what reaches the figures is compared with an "
           "independent evaluation of the given data",
}
NO_LIBRARIES = ("C++ program that consists almost entirely of calls into %s, which are not "
                "present here; it can neither be built nor run, so there is no execution to monitor")
NOT_APPLICABLE = {
    "N01": NO_LIBRARIES % "oomact, gflags, glog and ROS",
    "N02": NO_LIBRARIES % "aslam_cv, OpenCV, gflags, glog and ROS",
}
NOTE = ("held on the executions of the run only; nothing is claimed about inputs that were not "
        "executed")

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
  pid = p["id"]
  path = os.path.join(HERE, "harness", "checks", pid.lower() + ".py")
  if os.path.exists(path):
    checks.append({
        "property": pid,
        "quick_cmd": "./run_check.sh %s quick" % pid,
        "thorough_cmd": "./run_check.sh %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": TECHNIQUE.get(pid, DEFAULT),
        "level": "exploration",
        "level_note": NOTE})
  else:
    na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "check not built yet")})
manifest = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
            "notes": "Checks run the code in /repo directly; there is nothing to build."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
  json.dump(manifest, f, indent=1)
  f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
