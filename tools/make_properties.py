"""Writes /verif/properties.jsonl. Edit the list below, run, commit both."""
import json
import os

HE = "hand_eye_calibration/python/hand_eye_calibration/"
BIN = "hand_eye_calibration/bin/"
EX = "hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/"
EXBIN = "hand_eye_calibration_experiments/bin/"
Q, DQ, DH, TA = (HE + "quaternion.py", HE + "dual_quaternion.py",
                 HE + "dual_quaternion_hand_eye_calibration.py",
                 HE + "time_alignment.py")

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, **extra):
  assert len(title) <= 80, (pid, len(title))
  anchors = {"files": files,
             "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
  anchors.update(extra)
  PROPS.append({"id": pid, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why, "anchors": anchors})


prop("C01", "Quaternion arithmetic is the arithmetic of 3D rotations",
     "For all quaternions, product, quotient, conjugate, inverse and norm follow the Hamilton algebra with components ordered x, y, z, w, and sums, differences, negation and scalar multiples act component by component. "
     "For unit quaternions the product acts on vectors like the composition of the two rotations, the inverse undoes the rotation, and a quaternion and its negative rotate every vector alike. "
     "Operations return new values and never change their operands, apart from normalisation in place, which yields length one and keeps the direction.",
     ["inputs"], "all pairs of finite quaternions (unit and non-unit, either sign, nearly equal, nearly opposite, exact half turns) and all vectors",
     "The unit tests multiply a handful of fixed or random quaternions; an error confined to one component, sign or magnitude range is not exercised.",
     [Q], [("Hamilton product, conjugate, inverse, rotation of vectors", Q)])

prop("C02", "Rotations survive every change of representation",
     "Converting a rotation between quaternion, rotation matrix, homogeneous matrix and angle with axis yields the same rotation again, for every angle including zero, tiny angles, exact and near half turns, and both signs of the quaternion. "
     "Matrices are proper orthonormal rotations, axes have unit length whenever there is a rotation, and no conversion of a valid rotation yields NaN. "
     "Random rotations have unit length and a rotation angle inside the requested range.",
     ["inputs"], "all rotations, in particular angles of 0, 1e-9..1e-3 rad, pi and pi +- 1e-9..1e-3 about every axis, with either quaternion sign",
     "The tests convert generic rotations; half turns and tiny angles, where the formulas change branch or lose precision, are not covered for all axes.",
     [Q], [("branches by trace and largest diagonal element", Q), ("angle and axis from vector and scalar part", Q)])

prop("C03", "Dual quaternions compose, invert and act like rigid motions",
     "Building a dual quaternion from a pose or a 4x4 matrix and converting it back gives the same rigid motion, in both formats and whatever sign or length the rotation quaternion had. "
     "Products and inverses of dual quaternions equal products and inverses of the matrices, the identity is neutral, and points are mapped by a motion as its matrix maps them, or as the inverse matrix does for the opposite convention. "
     "Exported poses have unit quaternions with a non-negative scalar part.",
     ["inputs"], "all rigid motions (translations from 0 to kilometres, all rotations including half turns) and points, alone and in long products",
     "The tests use a few motions; agreement with matrices for every translation scale, sign and rotation angle needs a reference model over many inputs.",
     [DQ, Q], [("dual quaternion product, inverse, pose conversion", DQ)])

prop("C04", "Orientation interpolation follows the shortest arc at constant speed",
     "Spherical interpolation between two orientations hits both ends, always gives a unit quaternion, and the rotation angle from the first orientation grows in proportion to the fraction along the shortest arc, whichever of the two signs the quaternions carry; the linear variants blend the components in that proportion. "
     "Interpolation by time stamp uses the fraction of elapsed time, for stamps of any magnitude. "
     "The angular velocity between two orientations, applied for the elapsed time, turns the first orientation into the second along that shortest arc.",
     ["inputs"], "all pairs of orientations (identical, nearly identical, up to a half turn apart, same or opposite sign), all fractions in [0, 1], all time intervals including Unix-epoch stamps",
     "The tests check a few fractions of one arc; constancy of speed, sign independence and the switch for nearly equal orientations are properties over all pairs.",
     [Q], [("slerp with sign flip and small-angle branch", Q), ("angular velocity", Q)])

prop("C05", "Rotation and pose errors form a true distance",
     "The pose error reports the Euclidean distance of the positions and the smallest rotation angle between the orientations in degrees, which lies in [0, 180] and is finite for all poses. "
     "It does not depend on quaternion signs, is symmetric, is zero for equal poses and resolves differences down to about a millionth of a degree. "
     "The angle between two quaternions is a value in [0, 2*pi] that equals that smallest angle or its complement to a full turn.",
     ["inputs"], "all pairs of poses: equal, opposite sign, nearly equal, half a turn apart, huge and tiny positions",
     "The tests compare two or three pairs; rounding makes arccos-style formulas fail only on a fraction of nearly equal or opposite pairs.",
     [Q, DH], [("angle between quaternions", Q), ("position and orientation error", DH)])

prop("C06", "Resampled poses are the interpolated trajectory at the requested times",
     "Resampling a stamped trajectory returns one pose per requested time carrying exactly that time, in the requested order. "
     "At a recorded stamp it returns the recorded pose; between two stamps the position is interpolated linearly and the orientation along the shortest arc between the two neighbouring poses. "
     "Shifting all stamps and request times by a constant, even to Unix time, does not change the resampled poses.",
     ["inputs"], "all trajectories with increasing stamps (two poses to many, irregular spacing, quaternion sign flips) and all request times inside them, including first, last and repeated ones",
     "The alignment tests do not even load on current SciPy; no existing test resamples at Unix-epoch stamps or uneven spacing.",
     [TA, Q], [("neighbour search and interpolation per sample", TA)])

prop("C07", "Aligned pose pairs are simultaneous, complete and never span a gap",
     "Given a clock offset, alignment yields two pose lists of equal length with identical, increasing stamps, taken from the sensor with the larger median time step, lying in the common time interval; the first sensor's stamps are shifted by the offset. "
     "Every pose is the interpolation of its own sensor's trajectory at that time, and a stamp is used only if the faster sensor has poses within 0.1 s on both sides or exactly there. "
     "Every eligible stamp is used, except that stamps reaching into the last interval of the faster sensor may be left out; without overlap both lists are empty.",
     ["inputs", "fault_sequences"], "all pairs of trajectories: different rates, offsets of either sign, partial, single-pose or no overlap, data drops of any length in either sensor, Unix-epoch stamps",
     "No passing test exercises alignment; gaps, boundary stamps and lack of overlap depend on the relative placement of many stamps.",
     [TA], [("common interval, neighbour distance test and resampling", TA)])

prop("C08", "The estimated clock offset is the true one, in any frame and time scale",
     "For two sensors rigidly attached to the same moving body whose clocks differ by a constant, both recording the whole of an informative motion, the estimated offset to be added to the first sensor's stamps equals the true difference within two of the larger sampling steps. "
     "Shifting one sensor's stamps by a constant changes the estimate by that constant, up to two of these steps. "
     "Up to two steps the estimate does not depend on either sensor's reference frame or mounting rotation, on quaternion signs or on the direction of rotation.",
     ["inputs"], "all smooth non-periodic rotations (including rotation about a single axis of either sign), offsets of either sign, equal or different rates, Unix-epoch stamps",
     "The only tests of the offset fail to load; whether the correlation peak sits at the right place depends on the motion, the rates and the signs.",
     [TA], [("angular rate signals, clipping, smoothing and cross-correlation", TA)])

prop("C09", "On exact data every algorithm finds the true hand-eye transform",
     "For pose pairs generated from one fixed hand-eye transform without noise and with rotations about several axes, every offered algorithm variant reports success and returns that transform. "
     "The result does not depend on the two base frames, on quaternion signs, on the order of the pairs or on the size of the translations. "
     "The reported errors are zero up to rounding and the reported singular values flag the problem as well conditioned.",
     ["inputs", "configurations"], "all hand-eye transforms (general, identity, pure rotation, pure translation, half turn, metres away), all base frames, all algorithm configurations, random and smooth trajectories",
     "The hand-eye test file needs ROS and does not run here; it uses one transform and one path. Invariance under frames, signs and order is a relation over pairs of runs.",
     [DH], [("linear system from pose pairs and its null space", DH), ("random sampling and exhaustive search", DH)])

prop("C10", "Outliers and noise do not pull the calibration away",
     "With moderate measurement noise the returned transform stays within an error proportional to that noise. "
     "When a minority of the pose pairs is grossly wrong, wherever they sit in the sequence, the algorithms that search for inliers still report success and the transform of the consistent majority, and do not count more inliers than pairs fit the model. "
     "Wrong pairs that agree with each other, as after a slipped mount, do not win over the larger rest either (the baseline without exhaustive search takes the first set that is larger than required). "
     "A pose pair that is grossly wrong never determines the result.",
     ["inputs", "fault_sequences", "configurations"], "all placements (start, middle, end, scattered) of up to 30 percent gross outliers, noise levels up to a millimetre and a tenth of a degree, all inlier-searching variants, any random seed",
     "Rejecting outliers depends on which pairs are sampled; existing tests never inject outliers together with the prefilter.",
     [DH], [("sample rejection, inlier classification, refinement", DH), ("alignment of all poses at the sampled pair", DH)])

prop("C11", "Solving always ends and reports success only with a valid solution",
     "Every algorithm variant terminates after a bounded number of samples on any finite pose pairs. "
     "When the data admit no calibration (all pairs inconsistent, no motion, rotation about a single axis only, too few pairs) it either reports failure without a transform or raises an error, or flags the singular values as bad; it never presents such a result as a good calibration. "
     "When it reports success, the transform is finite and of unit length with non-negative scalar part, the inlier count lies between the required minimum and the number of pairs, and the number of kept poses and the errors are those of the data.",
     ["inputs", "configurations", "histories"], "all data sets, solvable or not, all variants, all random sequences",
     "Termination and honesty of the outcome concern exactly the inputs for which nobody writes an expected value.",
     [DH], [("iteration bounds, failure returns and final evaluation", DH)])

prop("C12", "Screw parameters describe the motion and are shared by rigid companions",
     "The screw parameters of a rigid motion are its rotation angle in degrees, a unit vector along its rotation axis and the translation along that axis; for a pure translation they are a zero angle, the direction and the distance. "
     "Two sensors on the same rigid body see motions with equal angle and equal translation along the axis, and axes related by the mounting rotation. "
     "They are finite for all motions, including tiny and half turn rotations.",
     ["inputs"], "all rigid motions and mountings, including angles of 1e-9 rad to pi and beyond, either quaternion sign, zero and kilometre translations",
     "The tests evaluate one or two screws; the branch for vanishing rotation and the sign conventions need all angles and signs.",
     [DQ], [("screw axis, angle and pitch", DQ)])

prop("C13", "Prefiltering keeps a representative set of distinct motions, in pairs",
     "Prefiltering returns a subsequence of the given pose pairs, still in order and with both members of each pair unchanged and together. "
     "Between two kept pairs the cosine between the screw axes does not exceed the threshold in either sensor, and every removed pair either has no screw axis or exceeds it with an earlier kept pair. "
     "If fewer than two pairs remain it raises an error.",
     ["inputs", "configurations"], "all lists of pose pairs (identity motions, pure translations, duplicates, opposite axes) and all thresholds",
     "No test reads the filter's output; removal while iterating fails only for particular neighbourhoods of removed pairs.",
     [DH, DQ], [("pairwise comparison of screw axes with removal", DH)])

prop("C14", "Re-basing a path keeps every relative motion",
     "Aligning a path at one of its poses gives as many poses, starting with that pose at the origin followed by the rest in cyclic order, and every relative motion between two poses is unchanged. "
     "Rotations come out with non-negative scalar part unless that is switched off, and the result does not depend on the base frame. "
     "Synthesising the second sensor's path from the first path, the mounting and the base frames gives exactly the composed motions.",
     ["inputs"], "all paths of one or more poses, all indices, base frames and signs",
     "Existing tests align short paths at the first pose only.",
     [DH], [("re-basing and rotation of the sequence", DH)])

prop("C15", "Reported errors and inliers are the definition applied to the data",
     "The reported errors are the root mean squares of the position distances in metres and of the smallest rotation angles in degrees over all pose pairs, and a pair is an inlier exactly if both its errors are below the thresholds. "
     "Evaluating a calibration on two raw trajectories applies the clock offset, pairs the poses, transfers the second path by the calibration and returns those errors and the number of inliers. "
     "The true calibration of exact data has zero error and only inliers, a wrong one has the error it causes, and trajectories without common time give infinite error and no inliers.",
     ["inputs", "configurations"], "all pose lists, thresholds, calibrations, clock offsets and trajectories, including no overlap",
     "No running test evaluates a calibration; off-by-one, unit and threshold errors only show against an independent recomputation.",
     [DH, HE + "calibration_verification.py"], [("error accumulation and thresholding", DH), ("evaluation on raw trajectories", HE + "calibration_verification.py")])

prop("C16", "The loop error is the mismatch of the closed chain of calibrations",
     "For calibrations between all pairs of sensors, the loop error chains the calibrations of consecutive sensors from the first to the last, goes back by the direct calibration between first and last, and reports the distance and the smallest angle in degrees by which the result misses the identity. "
     "It is zero for mutually consistent calibrations and does not change with quaternion signs. "
     "The given calibrations are left unchanged.",
     ["inputs"], "two to many sensors, all rigid transforms, consistent or perturbed in any one pair",
     "No test computes a loop; the position of the consecutive pairs in the list of all pairs depends on the number of sensors.",
     [HE + "calibration_verification.py"], [("choice of pairs for the chain and its product", HE + "calibration_verification.py")])

prop("C17", "Pose files round-trip exactly and conventions are converted",
     "Writing stamped poses and reading them back gives the same number of poses in the same order with the same stamps, positions and rotations up to file precision, and unit quaternions. "
     "Reading a file declared to be in the JPL convention gives the conjugate rotations, both in the returned pose table and in the returned orientations, which always agree with each other. "
     "Reading does not alter the file, and quaternions that are not of unit length in the file are normalised.",
     ["inputs", "configurations"], "all pose tables of one or more rows, stamps from zero to Unix time with microseconds, positions from micrometres to kilometres, both conventions, spaces after commas or not",
     "No test reads or writes a pose file.",
     [HE + "csv_io.py", HE + "bash_utils.py"], [("reading, normalisation, convention switch and fixed precision output", HE + "csv_io.py")])

prop("C18", "Calibration files round-trip and compose",
     "Saving a calibration and loading it gives the same delay and rigid transform; saving or loading in the other quaternion convention stores the conjugate rotation, and doing both gives the original. "
     "The file holds the delay, a unit rotation under the names i, j, k, w and the translation under x, y, z as numbers, so other programs can read it. "
     "Composing two calibrations adds the delays and composes the transforms, and saving leaves the calibration unchanged.",
     ["inputs", "configurations"], "all delays and rigid transforms, both conventions, chains of compositions",
     "No test touches calibration files.",
     [HE + "extrinsic_calibration.py"], [("JSON layout, convention switch, product", HE + "extrinsic_calibration.py")])

prop("C19", "The command line tools turn raw recordings into the right calibration",
     "Running alignment and then calibration on two recorded pose files of rigidly connected sensors writes aligned pose files, the clock offset, the extrinsics and the calibration file, all consistent with each other and with the true offset and transform. "
     "This holds whether poses are given directly or inverted and in either quaternion convention, with plots requested or not. "
     "Input files are never changed, contradictory or missing inputs are refused with a non-zero exit status, and no calibration is written when none was found.",
     ["inputs", "configurations"], "all recordings with informative motion, offsets, rates and mountings, all combinations of input forms and output options",
     "No test starts the command line tools.",
     [BIN + "compute_aligned_poses.py", BIN + "compute_hand_eye_calibration.py", "hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh"],
     [("argument handling and file flow", BIN + "compute_hand_eye_calibration.py"), ("alignment tool", BIN + "compute_aligned_poses.py")])

prop("C20", "Experiment results are recorded faithfully and read back as written",
     "Each result line holds the values of its own pose pair under the matching header column, including algorithm name, prefilter and optimisation flags, files, success, errors, counts, run times, loop errors and perturbations, and inconsistent numbers of entries are refused. "
     "Reading result files back groups errors and run times by data set and method exactly as written, adding optimisation time to the run time. "
     "Failed and ill-conditioned rows and rows whose optimisation failed are left out of the statistics, loop errors that could not be computed are left out of the perturbation data, missing perturbations count as zero, and several files are concatenated.",
     ["inputs", "histories"], "all result entries of one or more pose pairs, all methods, several data sets and files, failed, missing and perturbed rows",
     "No test writes or reads experiment results.",
     [EX + "experiment_results.py", EX + "experiment_plotting_tools.py"], [("header and line layout", EX + "experiment_results.py"), ("column positions and grouping", EX + "experiment_plotting_tools.py")])

prop("C21", "Every named algorithm configuration does what its name says",
     "The full list of configurations contains each combination of algorithm, prefilter and optimisation once under its own name, and the name states truthfully whether poses are prefiltered, whether the search is exhaustive, random or the baseline, how inliers are classified and whether optimisation follows. "
     "Configurations are independent: changing one never changes another or one requested later. "
     "Solving with a configuration uses its thresholds, sample size and filter settings.",
     ["configurations", "histories"], "all sixteen configurations and the perturbation experiment's, all settings changed one at a time, any order of requests",
     "No test looks at configurations; sharing between objects shows only in particular orders of use.",
     [HE + "algorithm_config.py", EX + "all_algorithm_configs.py", DH], [("configuration factories", HE + "algorithm_config.py"), ("list of all configurations", EX + "all_algorithm_configs.py")])

prop("C22", "Exported transforms are those recorded, once per stamp and in order",
     "Exporting a transform from a recording writes one line per transform message of the source frame whose transform to the target frame is available, with the stamp at full precision, the translation and the Hamilton quaternion in the documented column order. "
     "Stamps in the file increase strictly, messages that cannot be resolved are skipped without affecting the others, and other frames never appear. "
     "The complete file is on disk when the export returns and can be read as a pose file.",
     ["inputs", "histories", "fault_sequences"], "all message sequences: several transforms per message, other topics and frames, missing transforms at any place, repeated stamps, none at all",
     "There is no test for the export and ROS is not installed; the behaviour depends on the history of messages.",
     [BIN + "tf_to_csv.py"], [("lookup per message and line output", BIN + "tf_to_csv.py")],
     hook_needed="stand-ins for rosbag, rospy, tf and tf2_msgs, provided by the harness")

prop("C23", "Export jobs call the right tool with exactly the configured arguments",
     "For every recording in a configuration file, one transform export per frame pair and one target extraction per camera is started, in order, each with exactly the configured recording, frames or topic, calibration files and its own output file name. "
     "The target extraction passes on the tag layout from its configuration file unchanged. "
     "Mismatched frame or camera lists are refused, and output names of different jobs do not collide.",
     ["configurations", "inputs"], "all configuration files: several recordings, none to many frame pairs and cameras, names with dots and spaces, all tag layouts",
     "No test runs the wrappers; they only start other programs.",
     [BIN + "bag_to_csv_with_config.py", BIN + "target_extractor_interface.py"], [("argument lists", BIN + "bag_to_csv_with_config.py"), ("argument list for the extractor", BIN + "target_extractor_interface.py")],
     hook_needed="a stand-in for rosrun on PATH that records its arguments")

prop("C24", "Perturbed initial guesses stay in range and are reported truthfully",
     "Perturbing a calibration changes the delay by an amount whose magnitude, the translation by a vector whose length and the rotation by an angle that lie in the requested ranges. "
     "The reported perturbations are exactly those applied: the perturbed delay and translation are the originals plus the reported values, and the perturbed rotation differs by the reported angle in radians. "
     "The result is a valid rigid transform and the original calibration is unchanged. "
     "Repeated perturbations spread over the whole requested ranges, in all directions and with both signs of the delay.",
     ["inputs", "histories"], "all calibrations, all ranges with positive width, all random sequences, both signs of the delay",
     "No test perturbs a calibration; ranges can only be judged over many random draws.",
     [EXBIN + "optimization_experiments.py", Q], [("random time, direction, length and rotation", EXBIN + "optimization_experiments.py"), ("random rotation in an angle range", Q)])

prop("C25", "Calibrating neither alters its inputs nor depends on hidden state",
     "After alignment, solving, filtering, evaluation or file output the caller's poses, stamps, configurations and transforms still describe the same data as before. "
     "With the same inputs and random seed every function returns the same result again, whatever was computed before; deterministic ones need no seed. "
     "Asking for plots changes no result.",
     ["histories", "inputs", "configurations"], "all call sequences of the library functions on shared inputs, with and without plots",
     "Tests use fresh data for each call, so aliasing and state carried from call to call stay invisible.",
     [DH, TA, DQ, HE + "calibration_verification.py"], [("copies of pose lists", DH), ("copies of pose tables", TA)])

prop("C26", "A set of experiments covers every algorithm and pair and survives failures",
     "Comparing algorithms on several pose files writes a header and, for every algorithm configuration and repetition, one result line per pair of files in a fixed order, with the right files, flags and values; repeated runs append. "
     "With optimisation the external estimator is started once per pair with that pair's files, initial guess and sensor types, and its result is what gets evaluated; if it fails, that pair is marked as failed, no loop error is claimed and the run continues. "
     "The transforms found are stored per algorithm and pair.",
     ["configurations", "fault_sequences", "inputs"], "two or more pose files, absolute or relative sensors, any subset of estimator calls failing",
     "The experiment program needs external ROS executables and is not tested.",
     [EXBIN + "compute_set_of_hand_eye_calibrations.py", HE + "bash_utils.py"], [("loop over configurations and pairs", EXBIN + "compute_set_of_hand_eye_calibrations.py"), ("start of external programs with exit status check", HE + "bash_utils.py")],
     hook_needed="a stand-in estimator started through a stand-in rosrun")

prop("C27", "External commands and paths are handled exactly",
     "Running an external command passes its arguments exactly as quoted, waits for it, and raises an error naming the exit status if that is not zero; a dry run starts nothing. "
     "Creating the path of a file creates all missing parent directories and nothing else, tolerates existing ones and names without directory, and reports genuine failures. "
     "Numeric files are read as the table they contain, and on or off options accept the usual words for true and false and refuse others.",
     ["inputs", "fault_sequences"], "all argument strings, exit statuses, nesting depths, existing and blocked directories, numeric tables",
     "No test touches these helpers; exit statuses and existing paths are environment states.",
     [HE + "bash_utils.py"], [("command execution, path creation, numeric file reading", HE + "bash_utils.py")])

prop("C28", "The perturbation study runs every experiment once and records it",
     "The perturbation study runs the estimator once for every combination of perturbation ranges, repetition and pair of pose files, each with its own files, an initial guess perturbed within that combination's ranges, and records one result line per run in a fixed order. "
     "Recorded perturbations are those in the initial guess handed to the estimator, and different runs draw different perturbations. "
     "Runs of the estimator that fail are recorded as failed without loop error and do not affect other runs.",
     ["configurations", "schedules", "fault_sequences"], "all sets of pose files that admit an initial calibration, any subset of estimator runs failing, any distribution of the experiments over parallel workers",
     "The program needs the external estimator and runs in parallel worker processes; no test starts it.",
     [EXBIN + "optimization_experiments.py"], [("experiment list, worker pool and ordered output", EXBIN + "optimization_experiments.py")],
     hook_needed="a stand-in estimator started through a stand-in rosrun")

prop("C29", "Error maps average each experiment in its own perturbation cell",
     "The perturbation error maps assign every experiment to the cell of its perturbation magnitudes and show the mean position and orientation loop error of exactly that cell's experiments, for each slice of the third perturbation. "
     "Cells are labelled with their own ranges, and incomplete or out-of-range data are refused rather than drawn. "
     "Box and run time plots show exactly the values of each method.",
     ["inputs", "configurations"], "all plot orders, all perturbation samples on a complete grid, missing and surplus samples, several methods and data sets",
     "No test draws plots; a swapped axis gives a plausible picture.",
     [EXBIN + "generate_plots.py"], [("binning by perturbation and averaging", EXBIN + "generate_plots.py")])

prop("N01", "The batch estimator refines an initial calibration",
     "Refining an initial guess on two pose recordings never gives a worse fit than the initial guess, and exact data give the true transform and delay.",
     ["inputs"], "all recordings and initial guesses near the truth",
     "There are no tests of the estimator.",
     ["hand_eye_calibration_batch_estimation/src/batch_estimator.cc"], [("batch optimisation in an external library", "hand_eye_calibration_batch_estimation/src/batch_estimator.cc")])

prop("N02", "Target extraction exports the camera pose of every good image",
     "For every image in which the target is found with enough inliers, the camera pose is exported once with the image's own stamp, a unit quaternion with non-negative scalar part and the position in metres.",
     ["inputs"], "all image sequences, cameras and targets",
     "There are no tests of the extractor.",
     ["hand_eye_calibration_target_extractor/src/target_extractor.cc"], [("detection and pose estimation in external libraries", "hand_eye_calibration_target_extractor/src/target_extractor.cc")])

if __name__ == "__main__":
  out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
  with open(out, "w") as f:
    for p in PROPS:
      f.write(json.dumps(p) + "\n")
  print(len(PROPS))
