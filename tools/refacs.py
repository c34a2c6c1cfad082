"""Edits that keep the behaviour: (id, properties, edits).  Checks have to stay quiet on them (refbench.py)."""
TR, DI, FI = "norfair/tracker.py", "norfair/distances.py", "norfair/filter.py"
R = []


def ref(rid, props, *edits):
    R.append((rid, props.split(), edits))


U = "C01 C02 C03 C05 C14 C16 C26"
ref("upd-split-helper", U,
    (TR, """        # Remove stale trackers and make candidate object real if the hit counter is positive
        alive_objects = []
        dead_objects = []
        if self.reid_hit_counter_max is None:
            self.tracked_objects = [
                o for o in self.tracked_objects if o.hit_counter_is_positive
            ]
            alive_objects = self.tracked_objects
        else:
            tracked_objects = []
            for o in self.tracked_objects:
                if o.reid_hit_counter_is_positive:
                    tracked_objects.append(o)
                    if o.hit_counter_is_positive:
                        alive_objects.append(o)
                    else:
                        dead_objects.append(o)
            self.tracked_objects = tracked_objects
""", """        alive_objects, dead_objects = self._discard_stale_objects()
"""),
    (TR, """    @property
    def current_object_count(self) -> int:
""", """    def _discard_stale_objects(self):
        alive_objects, dead_objects = [], []
        if self.reid_hit_counter_max is None:
            self.tracked_objects = [
                o for o in self.tracked_objects if o.hit_counter_is_positive
            ]
            return self.tracked_objects, dead_objects
        kept = []
        for o in self.tracked_objects:
            if not o.reid_hit_counter_is_positive:
                continue
            kept.append(o)
            (alive_objects if o.hit_counter_is_positive else dead_objects).append(o)
        self.tracked_objects = kept
        return alive_objects, dead_objects

    @property
    def current_object_count(self) -> int:
"""))
ref("upd-comprehensions", U,
    (TR, """            tracked_objects = []
            for o in self.tracked_objects:
                if o.reid_hit_counter_is_positive:
                    tracked_objects.append(o)
                    if o.hit_counter_is_positive:
                        alive_objects.append(o)
                    else:
                        dead_objects.append(o)
            self.tracked_objects = tracked_objects
""", """            self.tracked_objects = [
                o for o in self.tracked_objects if o.reid_hit_counter_is_positive
            ]
            alive_objects = [
                o for o in self.tracked_objects if o.hit_counter_is_positive
            ]
            dead_objects = [
                o for o in self.tracked_objects if not o.hit_counter_is_positive
            ]
"""))
ref("upd-two-loops", U,
    (TR, """        for obj in self.tracked_objects:
            obj.tracker_step()
            obj.update_coordinate_transformation(coord_transformations)
""", """        for obj in self.tracked_objects:
            obj.tracker_step()
        for obj in self.tracked_objects:
            obj.update_coordinate_transformation(coord_transformations)
"""))
ref("upd-local-lists", U,
    (TR, """        # Update initialized tracked objects with detections
        (
""", """        initialized = [o for o in alive_objects if not o.is_initializing]
        initializing = [o for o in alive_objects if o.is_initializing]
        (
"""),
    (TR, "            [o for o in alive_objects if not o.is_initializing],\n", "            initialized,\n"),
    (TR, "            [o for o in alive_objects if o.is_initializing],\n", "            initializing,\n"))
ref("upd-create-helper", U,
    (TR, """        for detection in unmatched_detections:
            self.tracked_objects.append(
                self._obj_factory.create(
                    initial_detection=detection,
                    hit_counter_max=self.hit_counter_max,
                    initialization_delay=self.initialization_delay,
                    pointwise_hit_counter_max=self.pointwise_hit_counter_max,
                    detection_threshold=self.detection_threshold,
                    period=period,
                    filter_factory=self.filter_factory,
                    past_detections_length=self.past_detections_length,
                    reid_hit_counter_max=self.reid_hit_counter_max,
                    coord_transformations=coord_transformations,
                )
            )
""", """        self.tracked_objects.extend(
            self._new_object(detection, period, coord_transformations)
            for detection in unmatched_detections
        )
"""),
    (TR, """    @property
    def current_object_count(self) -> int:
""", """    def _new_object(self, detection, period, coord_transformations):
        return self._obj_factory.create(
            initial_detection=detection,
            hit_counter_max=self.hit_counter_max,
            initialization_delay=self.initialization_delay,
            pointwise_hit_counter_max=self.pointwise_hit_counter_max,
            detection_threshold=self.detection_threshold,
            period=period,
            filter_factory=self.filter_factory,
            past_detections_length=self.past_detections_length,
            reid_hit_counter_max=self.reid_hit_counter_max,
            coord_transformations=coord_transformations,
        )

    @property
    def current_object_count(self) -> int:
"""))
ref("upd-create-local", U,
    (TR, """            self.tracked_objects.append(
                self._obj_factory.create(
                    initial_detection=detection,
                    hit_counter_max=self.hit_counter_max,
                    initialization_delay=self.initialization_delay,
                    pointwise_hit_counter_max=self.pointwise_hit_counter_max,
                    detection_threshold=self.detection_threshold,
                    period=period,
                    filter_factory=self.filter_factory,
                    past_detections_length=self.past_detections_length,
                    reid_hit_counter_max=self.reid_hit_counter_max,
                    coord_transformations=coord_transformations,
                )
            )
""", """            new_object = self._obj_factory.create(
                detection,
                self.hit_counter_max,
                self.initialization_delay,
                self.pointwise_hit_counter_max,
                self.detection_threshold,
                period,
                self.filter_factory,
                self.past_detections_length,
                self.reid_hit_counter_max,
                coord_transformations,
            )
            self.tracked_objects += [new_object]
"""))
ref("upd-coord-loop", U,
    (TR, """        if coord_transformations is not None and detections is not None:
            for det in detections:
                det.update_coordinate_transformation(coord_transformations)
""", """        if detections is not None:
            if coord_transformations is not None:
                for i in range(len(detections)):
                    detections[i].update_coordinate_transformation(coord_transformations)
"""))
ref("upd-active-filter", U,
    (TR, """        return [
            o
            for o in self.tracked_objects
            if not o.is_initializing and o.hit_counter_is_positive
        ]
""", """        active = []
        for o in self.tracked_objects:
            if o.is_initializing:
                continue
            if o.hit_counter_is_positive:
                active.append(o)
        return active
"""),
    (TR, "        return len(self.get_active_objects())\n", "        return sum(1 for _ in self.get_active_objects())\n"))
ref("uop-early-return", U,
    (TR, """        if candidates is not None and len(candidates) > 0:
            distance_matrix = distance_function.get_distances(objects, candidates)
""", """        if candidates is None or len(candidates) == 0:
            return [], [], objects
        if True:
            distance_matrix = distance_function.get_distances(objects, candidates)
"""),
    (TR, """        else:
            unmatched_candidates, matched_objects, unmatched_objects = [], [], objects

        return unmatched_candidates""", """        return unmatched_candidates"""))
ref("uop-matched-sets", U,
    (TR, """                unmatched_candidates = [
                    d for i, d in enumerate(candidates) if i not in matched_cand_indices
                ]
                unmatched_objects = [
                    d for i, d in enumerate(objects) if i not in matched_obj_indices
                ]
""", """                matched_cands, matched_objs = set(matched_cand_indices), set(matched_obj_indices)
                unmatched_candidates = [
                    d for i, d in enumerate(candidates) if i not in matched_cands
                ]
                unmatched_objects = [
                    d for i, d in enumerate(objects) if i not in matched_objs
                ]
"""))
ref("uop-pair-helper", U,
    (TR, """                        if isinstance(matched_candidate, Detection):
                            matched_object.hit(matched_candidate, period=period)
                            matched_object.last_distance = match_distance
                            matched_objects.append(matched_object)
                        elif isinstance(matched_candidate, TrackedObject):
                            # Merge new TrackedObject with the old one
                            matched_object.merge(matched_candidate)
                            # If we are matching TrackedObject instances we want to get rid of the
                            # already matched candidate to avoid matching it again in future frames
                            self.tracked_objects.remove(matched_candidate)
""", """                        if isinstance(matched_candidate, TrackedObject):
                            self._absorb(matched_object, matched_candidate)
                        elif isinstance(matched_candidate, Detection):
                            matched_object.hit(matched_candidate, period)
                            matched_object.last_distance = match_distance
                            matched_objects.append(matched_object)
"""),
    (TR, """    def match_dets_and_objs(self, distance_matrix""", """    def _absorb(self, old, new):
        old.merge(new)
        self.tracked_objects.remove(new)

    def match_dets_and_objs(self, distance_matrix"""))
ref("uop-zip-unpack", U,
    (TR, """                for (match_cand_idx, match_obj_idx) in zip(
                    matched_cand_indices, matched_obj_indices
                ):
                    match_distance = distance_matrix[match_cand_idx, match_obj_idx]
""", """                for k in range(len(matched_cand_indices)):
                    match_cand_idx = matched_cand_indices[k]
                    match_obj_idx = matched_obj_indices[k]
                    match_distance = distance_matrix[match_cand_idx][match_obj_idx]
"""))
ref("uop-nan", U,
    (TR, """            if np.isnan(distance_matrix).any():
                raise""", """            if np.any(np.isnan(distance_matrix)):
                raise"""),
    (TR, """                for i, minimum in enumerate(distance_matrix.min(axis=0)):
                    objects[i].current_min_distance = (
                        minimum if minimum < distance_threshold else None
                    )
""", """                minima = distance_matrix.min(axis=0)
                for obj, minimum in zip(objects, minima):
                    obj.current_min_distance = None
                    if minimum < distance_threshold:
                        obj.current_min_distance = minimum
"""))
M = "C04 C05"
ref("match-divmod", M,
    (TR, """                det_idx = flattened_arg_min // distance_matrix.shape[1]
                obj_idx = flattened_arg_min % distance_matrix.shape[1]
""", """                det_idx, obj_idx = divmod(
                    flattened_arg_min, distance_matrix.shape[1]
                )
"""))
ref("match-unravel", M,
    (TR, """                flattened_arg_min = distance_matrix.argmin()
                det_idx = flattened_arg_min // distance_matrix.shape[1]
                obj_idx = flattened_arg_min % distance_matrix.shape[1]
""", """                det_idx, obj_idx = np.unravel_index(
                    np.argmin(distance_matrix), distance_matrix.shape
                )
"""))
ref("match-while-true", M,
    (TR, """            current_min = distance_matrix.min()

            while current_min < distance_threshold:
                flattened""", """            while True:
                if not distance_matrix.min() < distance_threshold:
                    break
                flattened"""),
    (TR, """                distance_matrix[:, obj_idx] = np.inf
                current_min = distance_matrix.min()
""", """                distance_matrix[:, obj_idx] = np.inf
"""))
ref("match-early", M,
    (TR, """        distance_matrix = distance_matrix.astype(float)
        if distance_matrix.size > 0:
            det_idxs = []
            obj_idxs = []
            current_min""", """        distance_matrix = np.array(distance_matrix, dtype=float)
        det_idxs, obj_idxs = [], []
        if distance_matrix.size > 0:
            current_min"""),
    (TR, """            return det_idxs, obj_idxs
        else:
            return [], []
""", """        return det_idxs, obj_idxs
"""))
ref("match-columns-first", M,
    (TR, """                distance_matrix[det_idx, :] = np.inf
                distance_matrix[:, obj_idx] = np.inf
""", """                distance_matrix[:, obj_idx] = float("inf")
                distance_matrix[det_idx] = float("inf")
"""))
O = "C02 C03 C11 C12 C13 C14 C26"
ref("hit-mask-helper", O,
    (TR, """            matched_sensors_mask = np.array(
                [(m,) * self.dim_points for m in points_over_threshold_mask]
            ).flatten()
""", """            matched_sensors_mask = self._sensors(points_over_threshold_mask)
"""),
    (TR, """        detected_at_least_once_mask = np.array(
            [(m,) * self.dim_points for m in self.detected_at_least_once_points]
        ).flatten()
        now_detected_mask = np.array(
            [(m,) * self.dim_points for m in points_over_threshold_mask]
        ).flatten()
""", """        detected_at_least_once_mask = self._sensors(self.detected_at_least_once_points)
        now_detected_mask = self._sensors(points_over_threshold_mask)
"""),
    (TR, """    def __repr__(self):
        if self.last_distance is None:""", """    def _sensors(self, mask):
        return np.array([(m,) * self.dim_points for m in mask]).flatten()

    def __repr__(self):
        if self.last_distance is None:"""))
ref("hit-repeat", O,
    (TR, """            matched_sensors_mask = np.array(
                [(m,) * self.dim_points for m in points_over_threshold_mask]
            ).flatten()
""", """            matched_sensors_mask = np.repeat(points_over_threshold_mask, self.dim_points)
"""),
    (TR, """        detected_at_least_once_mask = np.array(
            [(m,) * self.dim_points for m in self.detected_at_least_once_points]
        ).flatten()
        now_detected_mask = np.array(
            [(m,) * self.dim_points for m in points_over_threshold_mask]
        ).flatten()
""", """        detected_at_least_once_mask = np.repeat(
            self.detected_at_least_once_points, self.dim_points
        )
        now_detected_mask = np.repeat(points_over_threshold_mask, self.dim_points)
"""))
ref("hit-clip", O,
    (TR, """        self.point_hit_counter[
            self.point_hit_counter >= self.pointwise_hit_counter_max
        ] = self.pointwise_hit_counter_max
        self.point_hit_counter[self.point_hit_counter < 0] = 0
""", """        self.point_hit_counter = np.clip(
            self.point_hit_counter, 0, self.pointwise_hit_counter_max
        )
"""))
ref("hit-clip2", O,
    (TR, """        self.point_hit_counter[
            self.point_hit_counter >= self.pointwise_hit_counter_max
        ] = self.pointwise_hit_counter_max
        self.point_hit_counter[self.point_hit_counter < 0] = 0
""", """        self.point_hit_counter = np.minimum(
            self.point_hit_counter, self.pointwise_hit_counter_max
        )
        self.point_hit_counter = np.maximum(self.point_hit_counter, 0)
"""))
ref("hit-clip3", O,
    (TR, """        self.point_hit_counter[
            self.point_hit_counter >= self.pointwise_hit_counter_max
        ] = self.pointwise_hit_counter_max
        self.point_hit_counter[self.point_hit_counter < 0] = 0
""", """        np.clip(
            self.point_hit_counter,
            0,
            self.pointwise_hit_counter_max,
            out=self.point_hit_counter,
        )
"""))
ref("hit-order", O,
    (TR, """        self._conditionally_add_to_past_detections(detection)

        self.last_detection = detection
        self.reid_hit_counter = None
        self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
""", """        self.hit_counter += 2 * period
        if self.hit_counter > self.hit_counter_max:
            self.hit_counter = self.hit_counter_max
        self.reid_hit_counter = None
        self.last_detection = detection
        self._conditionally_add_to_past_detections(detection)
"""))
ref("hit-init-helper", O,
    (TR, """        self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)

        if self.is_initializing and self.hit_counter > self.initialization_delay:
            self.is_initializing = False
            self._acquire_ids()
""", """        self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
        self._maybe_initialize()
"""),
    (TR, """        self.hit_counter = self.initial_period * 2
        if self.is_initializing and self.hit_counter > self.initialization_delay:
            self.is_initializing = False
            self._acquire_ids()
""", """        self.hit_counter = self.initial_period * 2
        self._maybe_initialize()
"""),
    (TR, """    def _acquire_ids(self):
""", """    def _maybe_initialize(self):
        if not self.is_initializing:
            return
        if self.hit_counter > self.initialization_delay:
            self.is_initializing = False
            self._acquire_ids()

    def _acquire_ids(self):
"""))
ref("hit-measure", O,
    (TR, """        self.filter.update(
            np.expand_dims(detection.absolute_points.flatten(), 0).T, None, H
        )
""", """        measurement = detection.absolute_points.reshape(-1, 1)
        self.filter.update(measurement, None, H)
"""),
    (TR, """        self.filter.x[: self.dim_z][first_detection_mask] = np.expand_dims(
            detection.absolute_points.flatten(), 0
        ).T[first_detection_mask]
""", """        self.filter.x[: self.dim_z][first_detection_mask] = measurement[
            first_detection_mask
        ]
"""))
ref("hit-bitops", O,
    (TR, """        first_detection_mask = np.logical_and(
            now_detected_mask, np.logical_not(detected_at_least_once_mask)
        )
""", """        first_detection_mask = now_detected_mask & ~detected_at_least_once_mask
"""),
    (TR, """        self.filter.x[self.dim_z :][np.logical_not(detected_at_least_once_mask)] = 0
        self.detected_at_least_once_points = np.logical_or(
            self.detected_at_least_once_points, points_over_threshold_mask
        )
""", """        self.filter.x[self.dim_z :][~detected_at_least_once_mask] = 0
        self.detected_at_least_once_points = (
            self.detected_at_least_once_points | points_over_threshold_mask
        )
"""))
ref("hit-ones", O,
    (TR, """            points_over_threshold_mask = np.array([True] * self.num_points)
            H_pos = np.identity(self.num_points * self.dim_points)
""", """            points_over_threshold_mask = np.ones(self.num_points, dtype=bool)
            H_pos = np.eye(self.dim_z)
"""),
    (TR, """        H_vel = np.zeros(H_pos.shape)  # But we don't directly measure velocity
        H = np.hstack([H_pos, H_vel])
""", """        H = np.concatenate((H_pos, np.zeros_like(H_pos)), axis=1)
"""))
ref("hit-noscore-first", O,
    (TR, """        if detection.scores is not None:
            assert len(detection.scores.shape) == 1
            points_over_threshold_mask = detection.scores > self.detection_threshold
            matched_sensors_mask = np.array(
                [(m,) * self.dim_points for m in points_over_threshold_mask]
            ).flatten()
            H_pos = np.diag(matched_sensors_mask).astype(
                float
            )  # We measure x, y positions
            self.point_hit_counter[points_over_threshold_mask] += 2 * period
        else:
            points_over_threshold_mask = np.array([True] * self.num_points)
            H_pos = np.identity(self.num_points * self.dim_points)
            self.point_hit_counter += 2 * period
""", """        if detection.scores is None:
            points_over_threshold_mask = np.full(self.num_points, True)
        else:
            assert detection.scores.ndim == 1
            points_over_threshold_mask = detection.scores > self.detection_threshold
        H_pos = np.diag(
            np.array(
                [(m,) * self.dim_points for m in points_over_threshold_mask]
            ).flatten()
        ).astype(float)
        self.point_hit_counter[points_over_threshold_mask] += 2 * period
"""))
ref("step-branches", O,
    (TR, """        if self.reid_hit_counter is None:
            if self.hit_counter <= 0:
                self.reid_hit_counter = self.reid_hit_counter_max
        else:
            self.reid_hit_counter -= 1
        self.hit_counter -= 1
        self.point_hit_counter -= 1
        self.age += 1
""", """        self.age += 1
        if self.reid_hit_counter is not None:
            self.reid_hit_counter = self.reid_hit_counter - 1
        elif not self.hit_counter > 0:
            self.reid_hit_counter = self.reid_hit_counter_max
        self.point_hit_counter = self.point_hit_counter - 1
        self.hit_counter = self.hit_counter - 1
"""))
ref("past-guards", O,
    (TR, """        if self.past_detections_length == 0:
            return
        if len(self.past_detections) < self.past_detections_length:
            detection.age = self.age
            self.past_detections.append(detection)
        elif self.age >= self.past_detections[0].age * self.past_detections_length:
            self.past_detections.pop(0)
            detection.age = self.age
            self.past_detections.append(detection)
""", """        length = self.past_detections_length
        if length == 0:
            return
        if len(self.past_detections) >= length:
            oldest = self.past_detections[0]
            if self.age < oldest.age * length:
                return
            del self.past_detections[0]
        detection.age = self.age
        self.past_detections.append(detection)
"""))
ref("past-slice", O,
    (TR, """            self.past_detections.pop(0)
            detection.age = self.age
            self.past_detections.append(detection)
""", """            detection.age = self.age
            self.past_detections = self.past_detections[1:] + [detection]
"""))
ref("merge-order", O,
    (TR, """        self.reid_hit_counter = None
        self.hit_counter = self.initial_period * 2
        if self.is_initializing and self.hit_counter > self.initialization_delay:
            self.is_initializing = False
            self._acquire_ids()
        self.point_hit_counter = tracked_object.point_hit_counter
        self.last_distance = tracked_object.last_distance
        self.current_min_distance = tracked_object.current_min_distance
        self.last_detection = tracked_object.last_detection
        self.detected_at_least_once_points = (
            tracked_object.detected_at_least_once_points
        )
        self.filter = tracked_object.filter
""", """        for name in (
            "point_hit_counter",
            "last_distance",
            "current_min_distance",
            "last_detection",
            "detected_at_least_once_points",
            "filter",
        ):
            setattr(self, name, getattr(tracked_object, name))
        self.hit_counter = 2 * self.initial_period
        self.reid_hit_counter = None
        if self.is_initializing and self.hit_counter > self.initialization_delay:
            self.is_initializing = False
            self._acquire_ids()
"""))
ref("init-reorder", O + " C16",
    (TR, """        if initial_detection.scores is None:
            self.detected_at_least_once_points = np.array([True] * self.num_points)
        else:
            self.detected_at_least_once_points = (
                initial_detection.scores > self.detection_threshold
            )
        self.point_hit_counter: np.ndarray = self.detected_at_least_once_points.astype(
            int
        )
        initial_detection.age = self.age
        self.past_detections_length = past_detections_length
        if past_detections_length > 0:
            self.past_detections: Sequence["Detection"] = [initial_detection]
        else:
            self.past_detections: Sequence["Detection"] = []
""", """        self.past_detections_length = past_detections_length
        initial_detection.age = 0
        self.past_detections = [initial_detection] if past_detections_length else []
        scores = initial_detection.scores
        self.detected_at_least_once_points = (
            np.ones(self.num_points, dtype=bool)
            if scores is None
            else scores > detection_threshold
        )
        self.point_hit_counter = np.where(self.detected_at_least_once_points, 1, 0)
"""))
ref("ids-local", "C03",
    (TR, """        self.id, self.global_id = self._obj_factory.get_ids()
""", """        ids = self._obj_factory.get_ids()
        self.id = ids[0]
        self.global_id = ids[1]
"""),
    (TR, """        self.initializing_count += 1
        return self.initializing_count
""", """        new_id = self.initializing_count + 1
        self.initializing_count = new_id
        return new_id
"""))
ref("ids-classattr", "C03",
    (TR, """        self.count += 1
        _TrackedObjectFactory.global_count += 1
        return self.count, _TrackedObjectFactory.global_count
""", """        cls = type(self)
        self.count = self.count + 1
        cls.global_count = cls.global_count + 1
        return (self.count, cls.global_count)
"""))
E2 = "C11 C16"
ref("estimate-flat", E2,
    (TR, """        positions = self.filter.x.T.flatten()[: self.dim_z].reshape(-1, self.dim_points)
        if self.abs_to_rel is None:
            if not absolute:
                return positions
            else:
                raise ValueError(
                    "You must provide 'coord_transformations' to the tracker to get absolute coordinates"
                )
        else:
            if absolute:
                return positions
            else:
                return self.abs_to_rel(positions)
""", """        positions = self.filter.x[: self.dim_z].reshape(
            self.num_points, self.dim_points
        )
        if absolute and self.abs_to_rel is None:
            raise ValueError(
                "You must provide 'coord_transformations' to the tracker to get absolute coordinates"
            )
        if absolute or self.abs_to_rel is None:
            return positions.copy()
        return self.abs_to_rel(positions.copy())
"""))
ref("detection-coord", "C16 C26 C25",
    (TR, """        if coordinate_transformation is not None:
            self.absolute_points = coordinate_transformation.rel_to_abs(
                self.points
            )""", """        if coordinate_transformation is None:
            return
        transform = coordinate_transformation.rel_to_abs
        self.absolute_points = transform(self.points)"""),
    (TR, "        self.absolute_points = self.points.copy()\n", "        self.absolute_points = np.array(self.points)\n"))
ref("tracker-init", "C25",
    (TR, """        if past_detections_length >= 0:
            self.past_detections_length = past_detections_length
        else:
            raise ValueError(
                f"Argument `past_detections_length` is {past_detections_length} and should be larger than 0."
            )
""", """        if past_detections_length < 0:
            raise ValueError(
                f"Argument `past_detections_length` is {past_detections_length} and should be larger than 0."
            )
        self.past_detections_length = past_detections_length
"""),
    (TR, """            self.initialization_delay = int(self.hit_counter_max / 2)
        elif initialization_delay < 0 or initialization_delay >= self.hit_counter_max:
            raise""", """            self.initialization_delay = self.hit_counter_max // 2
        elif not 0 <= initialization_delay < hit_counter_max:
            raise"""))
D = "C06 C05"
ref("scalar-equal-first", D,
    (DI, """                if candidate.label != obj.label:
                    if (candidate.label is None) or (obj.label is None):
                        print("\\nThere are detections with and without label!")
                    continue
                distance = self.distance_function(candidate, obj)
                distance_matrix[c, o] = distance
""", """                if candidate.label == obj.label:
                    distance_matrix[c, o] = self.distance_function(candidate, obj)
                elif candidate.label is None or obj.label is None:
                    print("\\nThere are detections with and without label!")
"""))
ref("scalar-swap-loops", D,
    (DI, """        for c, candidate in enumerate(candidates):
            for o, obj in enumerate(objects):
                if candidate""", """        for o, obj in enumerate(objects):
            for c, candidate in enumerate(candidates):
                if candidate"""))
ref("scalar-range", D,
    (DI, """        for c, candidate in enumerate(candidates):
            for o, obj in enumerate(objects):
                if candidate""", """        for c in range(len(candidates)):
            candidate = candidates[c]
            for o in range(len(objects)):
                obj = objects[o]
                if candidate"""))
ref("vec-listcomp", D,
    (DI, """            stacked_objects = []
            for o in objects:
                if o.label == label:
                    stacked_objects.append(o.estimate.ravel())
            stacked_objects = np.stack(stacked_objects)
""", """            stacked_objects = np.stack(
                [o.estimate.ravel() for o in objects if o.label == label]
            )
"""),
    (DI, """        for label in {o.label for o in objects} & {c.label for c in candidates}:
""", """        object_labels = set(o.label for o in objects)
        candidate_labels = set(c.label for c in candidates)
        for label in object_labels.intersection(candidate_labels):
"""))
ref("vec-flatten-helper", D,
    (DI, """                if c.label == label:
                    if "Detection" in str(type(c)):
                        stacked_candidates.append(c.points.ravel())
                    else:
                        stacked_candidates.append(c.estimate.ravel())
            stacked_candidates = np.stack(stacked_candidates)
""", """                if c.label != label:
                    continue
                stacked_candidates.append(self._vector(c))
            stacked_candidates = np.stack(stacked_candidates)
"""),
    (DI, """    def _compute_distance(
""", """    @staticmethod
    def _vector(c):
        if "Detection" in str(type(c)):
            return c.points.flatten()
        return c.estimate.flatten()

    def _compute_distance(
"""))
ref("dist-manual", "C07",
    (DI, "    return np.linalg.norm(detection.points - tracked_object.estimate)\n", "    difference = detection.points - tracked_object.estimate\n    return np.sqrt(np.sum(difference ** 2))\n"),
    (DI, "    return np.linalg.norm(detection.points - tracked_object.estimate, axis=1).mean()\n", "    per_point = np.linalg.norm(tracked_object.estimate - detection.points, axis=1)\n    return np.mean(per_point)\n"),
    (DI, """    return np.linalg.norm(
        detection.points - tracked_object.estimate, ord=1, axis=1
    ).mean()
""", """    return np.abs(detection.points - tracked_object.estimate).sum(axis=1).mean()
"""))
ref("iou-unpack", "C08",
    (DI, """    area_candidates = _boxes_area(candidates.T)
    area_objects = _boxes_area(objects.T)

    top_left = np.maximum(candidates[:, None, :2], objects[:, :2])
    bottom_right = np.minimum(candidates[:, None, 2:], objects[:, 2:])

    area_intersection = np.prod(
        np.clip(bottom_right - top_left, a_min=0, a_max=None), 2
    )
    return 1 - area_intersection / (
        area_candidates[:, None] + area_objects - area_intersection
    )
""", """    area_candidates = _boxes_area(candidates.T)
    area_objects = _boxes_area(objects.T)

    left = np.maximum(candidates[:, None, 0], objects[None, :, 0])
    top = np.maximum(candidates[:, None, 1], objects[None, :, 1])
    right = np.minimum(candidates[:, None, 2], objects[None, :, 2])
    bottom = np.minimum(candidates[:, None, 3], objects[None, :, 3])

    area_intersection = np.maximum(right - left, 0) * np.maximum(bottom - top, 0)
    union = area_candidates[:, None] + area_objects[None, :] - area_intersection
    return 1 - area_intersection / union
"""))
ref("iou-sizes", "C08",
    (DI, """    area_intersection = np.prod(
        np.clip(bottom_right - top_left, a_min=0, a_max=None), 2
    )
""", """    sides = np.clip(bottom_right - top_left, 0, None)
    area_intersection = sides[..., 0] * sides[..., 1]
"""),
    (DI, """    return (boxes[2] - boxes[0]) * (boxes[3] - boxes[1])
""", """    width = boxes[2] - boxes[0]
    height = boxes[3] - boxes[1]
    return width * height
"""))
ref("iou-validate", "C08",
    (DI, """    assert (
        isinstance(bboxes, np.ndarray)
        and len(bboxes.shape) == 2
        and bboxes.shape[1] == 4
    ), f"Bounding boxes must be defined as np.array with (N, 4) shape, {bboxes} given"
""", """    assert isinstance(bboxes, np.ndarray), "Bounding boxes must be arrays"
    assert bboxes.ndim == 2 and bboxes.shape[1] == 4, "Bounding boxes must be (N, 4)"
"""))
