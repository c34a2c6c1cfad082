"""Writes properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
T = "norfair/tracker.py"; D = "norfair/distances.py"; F = "norfair/filter.py"; C = "norfair/camera_motion.py"
M = "norfair/metrics.py"; V = "norfair/video.py"; U = "norfair/utils.py"

p("C01", "Only live, initialised objects are reported, each exactly once",
  "After every tracker update, the list it returns, the active-objects accessor and the current object count all describe the same set: exactly the tracked objects that have finished initialising and whose hit counter is not negative, each listed once. An object that is still initialising, was discarded or was absorbed into another object is never reported.",
  ["inputs", "histories", "configurations"],
  "every tracker configuration, every sequence of update calls, any number of objects and detections",
  "the tests run a handful of scripted one- or two-object scenarios; the claim is over all histories and any number of objects",
  [T], [("Tracker.update / get_active_objects", T), ("Tracker._update_objects_in_place", T)],
  [("tracked_objects", "objects known to the tracker", T)], ["Tracker.update", "Tracker.get_active_objects", "Tracker.current_object_count"])
p("C02", "Hit counters rise and fall as configured and decide each object's lifetime",
  "Every update ages each tracked object by one frame and lowers its hit counter by one; a match with a detection then raises it by twice the period, but not above the configured maximum, and nothing else changes it (a re-identified object restarts at twice the period it was created with). A new object starts at age 0 with its counter equal to the period, an object becomes initialised exactly when its counter first exceeds the initialisation delay and never goes back, and with re-identification off an object is discarded in the first update that finds its counter negative, never earlier.",
  ["inputs", "histories", "configurations"],
  "all counters, periods, maxima, delays and all sequences of matched and missed frames",
  "tests walk one object up and down for three delays and fixed period 1; counters, periods and maxima are otherwise unconstrained",
  [T], [("TrackedObject.hit", T), ("TrackedObject.tracker_step", T), ("TrackedObject.merge", T), ("Tracker.update", T)],
  [("hit_counter", "remaining inertia of an object", T), ("age", "frames since creation", T)], ["TrackedObject.hit_counter", "TrackedObject.age", "Tracker.update"])
p("C03", "Identifiers are unique, sequential, stable and given on initialisation",
  "An object has no id and no global id while it is initialising and receives both, once, at the moment it becomes initialised; afterwards neither ever changes, even when the object is re-identified. The ids given out by one tracker are 1, 2, 3, ... without repetition and its total object count equals how many it gave out; global ids are never repeated across all trackers of the process, and every object, initialised or not, gets its own initialising id.",
  ["inputs", "histories", "configurations"],
  "all histories of one or several interleaved trackers, any number of objects becoming initialised in the same frame",
  "tests compare counts in two scripted scenarios; uniqueness is a claim over whole histories and over several trackers",
  [T], [("_TrackedObjectFactory.get_ids / get_initializing_id", T), ("TrackedObject._acquire_ids", T)],
  [("count / global_count / initializing_count", "ids handed out so far", T)], ["TrackedObject.id", "TrackedObject.global_id", "Tracker.total_object_count"])
p("C04", "Matching is one-to-one, under the threshold, greedy and complete",
  "For every distance matrix and threshold, matching pairs each candidate and each object at most once, returns only pairs whose distance is strictly below the threshold, and always terminates. Pairs are chosen greedily: every pair that is below the threshold but not chosen shares its candidate or its object with a chosen pair of no greater distance, so no unmatched candidate and unmatched object below the threshold are left over.",
  ["inputs"],
  "all matrices of any size (including infinite entries and ties) and all thresholds (including very large and infinite ones)",
  "the tests only ever present one or two candidate/object pairs with small thresholds",
  [T], [("Tracker.match_dets_and_objs", T)], (), ["Tracker.match_dets_and_objs"])
p("C05", "Every detection is used exactly once, initialised objects first",
  "In each update every detection handed in either updates exactly one existing object or starts exactly one new object - never both, never neither - and every object absorbs at most one detection. Detections are offered first to the initialised live objects and only what those leave over to the objects still initialising; nothing is matched to an object whose hit counter had already run out, and distances containing NaN are rejected with an error.",
  ["inputs", "histories", "configurations"],
  "all lists of detections, all sets of tracked objects and all distance functions",
  "tests feed at most two detections, always well separated, so contention between objects and detections never happens",
  [T], [("Tracker.update", T), ("Tracker._update_objects_in_place", T)], (), ["Tracker.update", "TrackedObject.last_detection"])
p("C06", "The distance matrix holds every pair's own distance, and only equal labels",
  "For both scalar and vectorized distances, the entry for candidate i and object j is the distance of exactly that candidate and that object when their labels are equal, and +infinity when their labels differ, whatever the number, order and mix of labels (any hashable, or none). Hence objects and detections with different labels are never matched or merged.",
  ["inputs"],
  "all sequences of candidates and objects with arbitrary labels, detections or tracked objects as candidates",
  "the tests compute 1x1 matrices without labels",
  [D], [("ScalarDistance.get_distances", D), ("VectorizedDistance.get_distances", D)], (), ["get_distances", "Tracker.update"])
p("C07", "Predefined pointwise distances equal their documented formulas",
  "For every pair of point sets of the same shape, the frobenius, mean manhattan and mean euclidean distances, the normalised mean euclidean distance (each axis divided by image width and height) and the keypoint voting distance (1 / (1 + number of points closer than the distance threshold whose detection score and last-detection score both exceed the score threshold)) equal their documented formulas. None of them modifies the detection or the object.",
  ["inputs"], "any number of points, any coordinates, scores and thresholds",
  "tests evaluate a few small two- and three-point examples", [D],
  [("frobenius, mean_manhattan, mean_euclidean", D), ("create_keypoints_voting_distance", D), ("create_normalized_mean_euclidean_distance", D)], (), ["distance functions"])
p("C08", "IoU distance is one minus intersection over union for every pair of boxes",
  "For any two sets of valid boxes the IoU distance matrix has, at row i and column j, one minus the intersection area over the union area of candidate i and object j: a number in [0, 1] that is symmetric, 0 exactly for equal boxes and 1 exactly when the boxes do not overlap. Candidates that are not an (N, 4) array are rejected with an assertion error.",
  ["inputs"], "all sets of valid boxes of any size", "tests use eight hand-picked pairs of integer boxes",
  [D], [("iou", D)], (), ["norfair.distances.iou"])
p("C09", "The optimized Kalman filter is a textbook Kalman filter per coordinate",
  "For every coordinate independently, predicting advances the position by the velocity, and updating with a measurement produces exactly the textbook posterior mean and covariance of a constant-velocity filter with the configured process and measurement noise; coordinates that are masked out of an update keep their mean and get only the predicted covariance. Variances stay positive and each 2x2 covariance positive semidefinite after any sequence of updates.",
  ["inputs", "histories"], "any number of coordinates, any measurements, masks and valid noise parameters, any sequence of predictions and updates",
  "tests only check that an estimate lands in an interval after four frames", [F],
  [("OptimizedKalmanFilter.predict / update", F)], [("x, pos_variance, pos_vel_covariance, vel_variance", "filter state", F)], ["filter state"])
p("C10", "New filters start at the first detection with zero velocity as configured",
  "Each filter factory creates a filter whose state is the flattened first detection with zero velocity, independent of any other filter and of the detection's array, with the factory's noise parameters in the documented places (R scales the measurement noise, Q the velocity block of the process noise, P the velocity block of the initial covariance). The no-filter variant always reports the last measured value of each measured coordinate and leaves unmeasured ones unchanged.",
  ["inputs", "configurations"], "any number of points and dimensions, any parameter values", "tests only use default parameters and one point",
  [F], [("*FilterFactory.create_filter", F), ("NoFilter.update / predict", F)], (), ["filter_factory.create_filter"])
p("C11", "Points under the score threshold never influence the estimate",
  "When a detection with scores is matched, the coordinates of points whose score does not exceed the detection threshold are ignored: they are masked out of the filter update and never written to the estimate, while every other point is fed to the filter unchanged. A point that is seen for the first time takes exactly its measured position, points never seen before this match keep zero velocity, and a detection without scores counts all its points as seen.",
  ["inputs", "histories"], "any number of points, all score patterns, all previous visibility patterns", "no test uses scores with the tracker at all (listed as a TODO)",
  [T], [("TrackedObject.hit", T), ("TrackedObject.__init__", T)], [("detected_at_least_once_points", "points seen so far", T)], ["TrackedObject.estimate", "TrackedObject.estimate_velocity"])
p("C12", "A point is live exactly while it was matched recently enough",
  "Every point of an object has its own counter: 1 at creation if its score exceeds the threshold (or there are no scores) and 0 otherwise, lowered by one per update, raised by twice the period by each match in which the point's score exceeds the threshold, and kept between 0 and the configured maximum (at least the creation period) after each match. A point is reported live exactly when its counter is positive.",
  ["inputs", "histories", "configurations"], "any number of points, all score patterns, periods and maxima, all histories", "point counters are not tested (listed as a TODO)",
  [T], [("TrackedObject.hit / tracker_step / live_points", T)], [("point_hit_counter", "inertia per point", T)], ["TrackedObject.live_points"])
p("C13", "Past detections are bounded, ordered by age and fairly spread",
  "An object never remembers more past detections than configured (none if zero), they are ordered by age, and each carries the object's age at which it was stored. A new detection is stored while there is room; afterwards it replaces the oldest one exactly when the object's age has reached the oldest stored age times the configured length, and otherwise the stored history is unchanged.",
  ["inputs", "histories", "configurations"], "all configured lengths and histories of distinct detections", "past detections are not tested (listed as a TODO)",
  [T], [("TrackedObject._conditionally_add_to_past_detections", T), ("TrackedObject.merge", T)], [("past_detections", "remembered detections", T)], ["TrackedObject.past_detections"])
p("C14", "Re-identification revives objects in time and never loses matched ones",
  "With re-identification on, an object whose hit counter runs out is kept hidden and destroyed only once its re-identification countdown, started at the configured maximum and lowered once per update, has become negative; being matched or re-identified cancels the countdown, so a matched object is never destroyed by it. An unmatched initialised or hidden object whose re-identification distance to an object that was matched while still initialising is below the threshold keeps its own ids and takes over that object's position, last detection and point state, and the other object disappears from the tracker.",
  ["inputs", "histories", "configurations"], "all histories, re-identification distances, counters and thresholds", "one scripted scenario with a single object",
  [T], [("Tracker.update", T), ("TrackedObject.merge / tracker_step / hit", T)], [("reid_hit_counter", "remaining time to be re-identified", T)], ["Tracker.update"])
p("C15", "Camera transformations and their inverses cancel out",
  "For translations, and for homographies wherever points are not sent to infinity, converting points from relative to absolute coordinates and back (or the other way round) returns the same points, each point being transformed independently of the others and the input array left unchanged. A translation adds its movement vector to get relative coordinates; a homography maps points by its matrix to get relative coordinates and by the inverse matrix to get absolute ones.",
  ["inputs"], "all movement vectors, all invertible matrices, any number of points", "not tested at all with real transformations",
  [C], [("TranslationTransformation", C), ("HomographyTransformation", C)], (), ["abs_to_rel", "rel_to_abs"])
p("C16", "Tracking under camera motion happens in absolute coordinates",
  "When an update is given a coordinate transformation, each detection's absolute points become the transformation to absolute of its relative points, however often that detection was processed before, and objects are created from and updated with those absolute points. An object's relative estimate is the latest given transformation applied to its absolute estimate, absolute estimates need no transformation back, and asking for absolute coordinates of an object that never got a transformation is an error; without transformations estimates are returned as they are, and an update with a transformation works for any detections, including none.",
  ["inputs", "histories"], "all transformations, detections (including none) and histories", "one frame with one detection and a mock",
  [T], [("Detection.update_coordinate_transformation", T), ("TrackedObject.get_estimate / update_coordinate_transformation", T), ("Tracker.update", T)], (), ["TrackedObject.get_estimate", "Detection.absolute_points"])
p("C17", "Camera motion accumulates correctly across changes of reference frame",
  "The translation returned for a frame is the most frequent quantised optical flow between the reference frame and this frame plus the accumulated translation of the reference frame, and the homography returned is the one found between reference and current points composed with the accumulated homography; the reference moves to the current frame, and the accumulated motion becomes the returned one, exactly when the proportion of points used is below the threshold. The motion estimator keeps its reference frame, points and mask until told to move it, moves it whenever estimation fails, and resamples points only then.",
  ["inputs", "histories"], "all point sets, thresholds and histories of frames", "camera motion estimation is not tested",
  [C], [("TranslationTransformationGetter.__call__", C), ("HomographyTransformationGetter.__call__", C), ("MotionEstimator.update", C)], [("data", "motion of the reference frame", C)], ["MotionEstimator.update"])
p("C18", "The fixed camera pastes each frame where the motion says, cropping safely",
  "For any frame size, scale and translation, rendering never fails and returns a canvas of the scaled size in which exactly the part of the frame that falls inside the canvas, centred and then moved by the camera motion, appears unscaled at its position; every other pixel is the attenuated previous canvas (black at first).",
  ["inputs", "histories"], "all frame and canvas sizes and all integer displacements, including ones moving the frame partly or wholly outside", "not tested",
  ["norfair/drawing/fixed_camera.py"], [("FixedCamera.adjust_frame", "norfair/drawing/fixed_camera.py")], (), ["FixedCamera.adjust_frame"])
p("C19", "MOT output has exactly one correct row per object and frame",
  "The predictions file receives, for every object passed in for a frame and in that order, exactly one line with the frame number, the object's id, left, top, width and height of its box and four -1 fields, frames counting from 1 unless a frame number is given, and it is complete and closed after the last frame of the sequence. The metrics accumulator collects for each video the matrix with exactly those rows for all its frames, even if there is only one row or none.",
  ["inputs", "histories"], "all sequence lengths and numbers of objects per frame", "metrics are not among the tests that run here",
  [M], [("PredictionsTextFile.update", M), ("Accumulators.create_accumulator / update", M)], (), ["predictions file", "Accumulators.matrixes_predictions"])
p("C20", "MOT detection files are read back completely, frame by frame",
  "Iterating a detection file yields, for every frame number from 1 to the sequence length in order, exactly one detection per row of that frame with corner points (left, top) and (left+width, top+height) and the row's confidence as the score of both points, whatever the order and number of rows; iterating again starts over. Looking up a sequence information key returns the value of the first line starting with that key, as an integer if it is all digits, and an unknown key is an error.",
  ["inputs"], "all files with any number and order of rows, all keys", "metrics are not among the tests that run here",
  [M], [("DetectionFileParser", M), ("InformationFile.search", M)], (), ["DetectionFileParser", "InformationFile.search"])
p("C21", "Video input is delivered in order and output goes where documented",
  "Iterating a video yields every frame the source delivers exactly once and in order, stops at the first failed read, and then releases the source and any output; written frames all go, in order, to one output opened at the first write with that frame's size and the configured or source frame rate. The output path is the given path unless it is a folder, in which case it is <source name>_out.<extension> inside it (camera_<id> for cameras), the codec is the requested one or the one documented for mp4 and avi, anything else being an error, and exactly one of camera and input path must be given.",
  ["inputs", "histories"], "all sources, frame counts, paths and configurations", "the video module is not tested",
  [V], [("Video", V), ("VideoFromFrames", V)], (), ["Video.__iter__", "Video.write", "Video.get_output_file_path"])
p("C22", "Colors are parsed as documented and chosen deterministically from the palette",
  "Every 6-digit hex color #RRGGBB, in either case, becomes the tuple (B, G, R) of its byte values and every 3-digit one the same as with each digit doubled, malformed strings are an error, color names give the predefined color and tuples are kept as integers. The color chosen for a hashable is always a member of the current palette and the same for equal values, the default color is chosen for none, and setting a palette installs exactly the given colors while an unknown palette name is an error that leaves the palette unchanged.",
  ["inputs", "configurations"], "all strings, names, tuples, palettes and hashables", "three hex strings are tested",
  ["norfair/drawing/color.py"], [("hex_to_bgr, parse_color", "norfair/drawing/color.py"), ("Palette", "norfair/drawing/color.py")], (), ["parse_color", "Palette.choose_color"])
p("C23", "Drawing shows exactly the requested points, boxes and texts",
  "Drawing points puts one circle at each live point of each object (at all points if dead points are not hidden) and nothing for objects that are hidden because all their points are dead; drawing boxes puts one rectangle per object between its two corner points. The text of an object consists of its label, id and mean score, in that order, joined by dashes, including only those requested and present. Points and boxes are drawn in the given color or the palette's color for the object's id or label, texts in the given text color or else the object's; the frame is returned, also when there is nothing to draw, and the drawn objects are not modified.",
  ["inputs", "configurations"], "any number of objects and points, all combinations of options", "drawing functions are not tested",
  ["norfair/drawing/draw_points.py", "norfair/drawing/draw_boxes.py", "norfair/drawing/utils.py", "norfair/drawing/drawer.py"],
  [("draw_points", "norfair/drawing/draw_points.py"), ("draw_boxes", "norfair/drawing/draw_boxes.py"), ("_build_text", "norfair/drawing/utils.py"), ("Drawable", "norfair/drawing/drawer.py")], (), ["draw_points", "draw_boxes"])
p("C24", "Path drawers keep a bounded per-object history, newest first",
  "The absolute path drawer remembers for each object id at most the configured number of past point sets, newest first, adding exactly one per drawn frame in which the object has a live point, and never mixes the histories of different ids. The simple path drawer draws one circle per point of interest of every object on a mask that persists between frames, fading by the attenuation factor, and returns mask and frame blended without modifying the frame.",
  ["inputs", "histories"], "all histories, numbers of objects and history lengths", "drawing functions are not tested",
  ["norfair/drawing/path.py"], [("AbsolutePaths.draw", "norfair/drawing/path.py"), ("Paths.draw", "norfair/drawing/path.py")], (), ["AbsolutePaths.draw", "Paths.draw"])
p("C25", "Invalid configurations and malformed inputs are rejected, valid ones kept",
  "Creating a tracker fails with a value error exactly when the initialisation delay is negative or not below the hit counter maximum, the number of past detections is negative, or the distance is neither a callable nor a known distance name; otherwise the given settings are used as they are, and the delay defaults to half the hit counter maximum rounded down. Points of a detection may be a single point, which becomes one row, or a two-dimensional array, which is kept, and arrays of higher rank are a value error.",
  ["inputs", "configurations"], "all argument values", "four invalid and a few valid combinations are tested",
  [T, U, D], [("Tracker.__init__", T), ("get_distance_by_name", D), ("validate_points", U)], (), ["Tracker()", "Detection()"])
p("C26", "Tracking never modifies the caller's data and trackers do not interact",
  "Updating a tracker leaves the detections' points and scores arrays, the list of detections and the transformation it was given unchanged. Trackers are independent: what one tracker reports, except for global ids, does not depend on updates of any other tracker, even if they share a filter factory and a distance.",
  ["inputs", "histories"], "all histories and interleavings of several trackers, all detections", "one test runs two trackers for one frame each and compares counts",
  [T, F], [("Tracker.update", T), ("TrackedObject.hit", T), ("Detection", T)], (), ["Tracker.update"])
p("C27", "Cut-outs are the part of the image inside the points' bounding box",
  "The cut-out of a set of points on an image is exactly the block of pixels whose rows and columns lie between the integer parts of the smallest and largest coordinates of the points, clipped to the image; points wholly outside give an empty cut-out.",
  ["inputs"], "all images and point sets, including points outside the image", "not tested",
  [U], [("get_cutout", U)], (), ["get_cutout"])
p("C28", "Filters are advanced once per update and corrected once per match",
  "In every tracker update the filter of each object that stays tracked, hidden ones included, is advanced exactly once, whatever the period and whether or not the object is matched, and before any distance to the object is computed, so that matching compares detections with predicted estimates. It is corrected exactly once when its object is matched with a detection, and never otherwise; a new object's filter is created once and is neither advanced nor corrected in that update, and re-identification hands over the filter as it is. An object's estimate and estimated velocity are the first and the second half of its filter's state, arranged point by point; reading them changes nothing.",
  ["inputs", "histories"], "all histories, periods, filters, distance functions and configurations", "a few updates with one object",
  [T], [("TrackedObject.tracker_step", T), ("TrackedObject.hit", T), ("TrackedObject.merge", T), ("TrackedObject.get_estimate / estimate_velocity", T), ("Tracker.update", T)], (),
  ["Tracker.update", "TrackedObject.estimate", "TrackedObject.estimate_velocity"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
