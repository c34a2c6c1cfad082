"""More edits that keep the behaviour (filters, cameras, metrics, video, drawing, utils)."""
FI, CM, ME, VI, UT = ("norfair/filter.py", "norfair/camera_motion.py", "norfair/metrics.py",
                      "norfair/video.py", "norfair/utils.py")
FC, PA, DR, CO, DB, DP, DU = ("norfair/drawing/fixed_camera.py", "norfair/drawing/path.py", "norfair/drawing/drawer.py",
                              "norfair/drawing/color.py", "norfair/drawing/draw_boxes.py",
                              "norfair/drawing/draw_points.py", "norfair/drawing/utils.py")
R = []


def ref(rid, props, *edits):
    R.append((rid, props.split(), edits))


# ---- filters -----------------------------------------------------------
ref("okf-gain", "C09 C11",
    (FI, """        error = np.multiply(detection_points_flatten - self.x[: self.dim_z], diagonal)
""", """        positions = self.x[: self.dim_z]
        error = (detection_points_flatten - positions) * diagonal
"""),
    (FI, """        self.x[: self.dim_z] += np.multiply(
            diagonal, np.multiply(1 - kalman_r_over_added_variances, error)
        )
        self.x[self.dim_z :] += np.multiply(
            diagonal, np.multiply(vel_var_plus_pos_vel_cov_over_added_variances, error)
        )
""", """        position_gain = 1 - kalman_r_over_added_variances
        velocity_gain = vel_var_plus_pos_vel_cov_over_added_variances
        self.x[: self.dim_z] = positions + diagonal * position_gain * error
        self.x[self.dim_z :] += diagonal * (velocity_gain * error)
"""))
ref("okf-where", "C09 C11",
    (FI, """        added_variances_or_kalman_r = np.multiply(
            added_variances, one_minus_diagonal
        ) + np.multiply(kalman_r, diagonal)
""", """        added_variances_or_kalman_r = (
            added_variances * one_minus_diagonal + kalman_r * diagonal
        )
"""),
    (FI, """                np.square(vel_var_plus_pos_vel_cov_over_added_variances),
""", """                vel_var_plus_pos_vel_cov_over_added_variances ** 2,
"""))
ref("okf-helper", "C09 C11",
    (FI, """        if H is not None:
            diagonal = np.diagonal(H).reshape((self.dim_z, 1))
            one_minus_diagonal = 1 - diagonal
        else:
            diagonal = np.ones((self.dim_z, 1))
            one_minus_diagonal = np.zeros((self.dim_z, 1))

        if R is not None:
            kalman_r = np.diagonal(R).reshape((self.dim_z, 1))
        else:
            kalman_r = self.default_r
""", """        diagonal = (
            np.ones((self.dim_z, 1)) if H is None else self._diagonal_column(H)
        )
        one_minus_diagonal = 1 - diagonal
        kalman_r = self.default_r if R is None else self._diagonal_column(R)
"""),
    (FI, """    def predict(self):
        self.x[: self.dim_z] += self.x[self.dim_z :]
""", """    def _diagonal_column(self, matrix):
        return np.diag(matrix)[: self.dim_z].reshape(-1, 1)

    def predict(self):
        positions, velocities = self.x[: self.dim_z], self.x[self.dim_z :]
        positions += velocities
"""))
ref("okf-full", "C09 C10",
    (FI, """        self.pos_variance = np.zeros((dim_z, 1)) + pos_variance
        self.pos_vel_covariance = np.zeros((dim_z, 1)) + pos_vel_covariance
        self.vel_variance = np.zeros((dim_z, 1)) + vel_variance
""", """        column = (dim_z, 1)
        self.pos_variance = pos_variance * np.ones(column)
        self.pos_vel_covariance = pos_vel_covariance * np.ones(column)
        self.vel_variance = vel_variance * np.ones(column)
"""))
ref("filters-column", "C10 C09",
    (FI, """        custom_filter.x[:dim_z] = np.expand_dims(initial_detection.flatten(), 0).T
""", """        custom_filter.x[:dim_z] = initial_detection.reshape(-1, 1)
"""),
    (FI, """        no_filter.x[:dim_z] = np.expand_dims(initial_detection.flatten(), 0).T
""", """        no_filter.x[:dim_z, 0] = initial_detection.ravel()
"""),
    (FI, """        filter.x[:dim_z] = np.expand_dims(initial_detection.flatten(), 0).T
        filter.x[dim_z:] = 0
""", """        filter.x[dim_z:] = 0
        filter.x[:dim_z] = initial_detection.flatten()[:, np.newaxis]
"""))
ref("filters-dims", "C10",
    (FI, """        num_points = initial_detection.shape[0]
        dim_points = initial_detection.shape[1]
        dim_z = dim_points * num_points
        dim_x = 2 * dim_z  # We need to accommodate for velocities

        filter = KalmanFilter(dim_x=dim_x, dim_z=dim_z)

        # State transition matrix (models physics): numpy.array()
        filter.F = np.eye(dim_x)
        dt = 1  # At each step we update pos with v * dt

        filter.F[:dim_z, dim_z:] = dt * np.eye(dim_z)
""", """        dim_z = initial_detection.size
        dim_x = 2 * dim_z  # We need to accommodate for velocities

        filter = KalmanFilter(dim_x=dim_x, dim_z=dim_z)

        # State transition matrix (models physics): at each step we update pos with v
        filter.F = np.eye(dim_x) + np.eye(dim_x, k=dim_z)
"""))
ref("filters-kf-assign", "C10",
    (FI, """        filter.R *= self.R
""", """        filter.R = filter.R * self.R
"""),
    (FI, """        filter.Q[dim_z:, dim_z:] *= self.Q
""", """        velocities = slice(dim_z, dim_x)
        filter.Q[velocities, velocities] = filter.Q[velocities, velocities] * self.Q
"""))
# ---- coordinate transformations ----------------------------------------
ref("homography-shared", "C15 C16",
    (CM, """    def abs_to_rel(self, points: np.ndarray):
        ones = np.ones((len(points), 1))
        points_with_ones = np.hstack((points, ones))
        points_transformed = points_with_ones @ self.homography_matrix.T
        last_column = points_transformed[:, -1]
        last_column[last_column == 0] = 0.0000001
        points_transformed = points_transformed / last_column.reshape(-1, 1)
        new_points_transformed = points_transformed[:, :2]
        return new_points_transformed

    def rel_to_abs(self, points: np.ndarray):
        ones = np.ones((len(points), 1))
        points_with_ones = np.hstack((points, ones))
        points_transformed = points_with_ones @ self.inverse_homography_matrix.T
        last_column = points_transformed[:, -1]
        last_column[last_column == 0] = 0.0000001
        points_transformed = points_transformed / last_column.reshape(-1, 1)
        return points_transformed[:, :2]
""", """    @staticmethod
    def _project(points, matrix):
        points_with_ones = np.hstack((points, np.ones((len(points), 1))))
        projected = points_with_ones @ matrix.T
        scale = projected[:, 2:].copy()
        scale[scale == 0] = 0.0000001
        return projected[:, :2] / scale

    def abs_to_rel(self, points: np.ndarray):
        return self._project(points, self.homography_matrix)

    def rel_to_abs(self, points: np.ndarray):
        return self._project(points, self.inverse_homography_matrix)
"""))
ref("homography-where", "C15",
    (CM, """        points_transformed = points_with_ones @ self.homography_matrix.T
        last_column = points_transformed[:, -1]
        last_column[last_column == 0] = 0.0000001
        points_transformed = points_transformed / last_column.reshape(-1, 1)
        new_points_transformed = points_transformed[:, :2]
        return new_points_transformed
""", """        points_transformed = np.dot(points_with_ones, self.homography_matrix.T)
        last_column = points_transformed[:, -1]
        last_column = np.where(last_column == 0, 0.0000001, last_column)
        return points_transformed[:, :2] / last_column[:, np.newaxis]
"""))
ref("homography-pad", "C15",
    (CM, """        ones = np.ones((len(points), 1))
        points_with_ones = np.hstack((points, ones))
        points_transformed = points_with_ones @ self.inverse_homography_matrix.T
""", """        ones = np.ones((points.shape[0], 1))
        points_with_ones = np.concatenate([points, ones], axis=1)
        points_transformed = (self.inverse_homography_matrix @ points_with_ones.T).T
"""))
ref("translation-sub", "C15 C16 C17",
    (CM, """        return points + self.movement_vector
""", """        return np.add(points, self.movement_vector)
"""),
    (CM, """        return points - self.movement_vector
""", """        return points + (-1) * self.movement_vector
"""))
ref("mode-helper", "C17",
    (CM, """        unique_flows, counts = np.unique(flow, axis=0, return_counts=True)

        max_index = counts.argmax()

        proportion_points_used = counts[max_index] / len(prev_pts)
        update_prvs = proportion_points_used < self.proportion_points_used_threshold

        flow_mode = unique_flows[max_index]

        try:
            flow_mode += self.data
        except TypeError:
            pass

        if update_prvs:
            self.data = flow_mode

        return update_prvs, TranslationTransformation(flow_mode)
""", """        flow_mode, matches = self._most_common(flow)
        if self.data is not None:
            flow_mode = flow_mode + self.data

        update_prvs = (
            matches / len(prev_pts) < self.proportion_points_used_threshold
        )
        if update_prvs:
            self.data = flow_mode

        return update_prvs, TranslationTransformation(flow_mode)

    @staticmethod
    def _most_common(flow):
        values, counts = np.unique(flow, axis=0, return_counts=True)
        best = np.argmax(counts)
        return values[best], counts[best]
"""))
ref("homography-getter", "C17",
    (CM, """        if not (
            isinstance(prev_pts, np.ndarray)
            and prev_pts.shape[0] >= 4
            and isinstance(curr_pts, np.ndarray)
            and curr_pts.shape[0] >= 4
        ):
""", """        enough_points = all(
            isinstance(pts, np.ndarray) and len(pts) >= 4
            for pts in (prev_pts, curr_pts)
        )
        if not enough_points:
"""),
    (CM, """        proportion_points_used = np.sum(points_used) / len(points_used)
""", """        proportion_points_used = points_used.sum() / points_used.shape[0]
"""),
    (CM, """        try:
            homography_matrix = homography_matrix @ self.data
        except (TypeError, ValueError):
            pass

        if update_prvs:
            self.data = homography_matrix
""", """        if self.data is not None:
            homography_matrix = homography_matrix @ self.data

        if update_prvs:
            self.data = homography_matrix
"""))
ref("flow-mask", "C17",
    (CM, """    idx = np.where(status == 1)[0]
    prev_pts = prev_pts[idx].reshape((-1, 2))
    curr_pts = curr_pts[idx].reshape((-1, 2))
    return curr_pts, prev_pts
""", """    found = status.reshape(-1) == 1
    prev_pts = prev_pts[found].reshape((-1, 2))
    curr_pts = curr_pts[found].reshape((-1, 2))
    return curr_pts, prev_pts
"""))
# ---- fixed camera ---------------------------------------------------------
ref("fixedcam-crop-always", "C18",
    (FC, """            # crop left or top of the frame if necessary
            frame_y0 = max(-background_y0, 0)
            frame_x0 = max(-background_x0, 0)
            # crop right or bottom of the frame if necessary
            frame_y1 = max(
                min(background_size_y - background_y0, background_y1 - background_y0), 0
            )
            frame_x1 = max(
                min(background_size_x - background_x0, background_x1 - background_x0), 0
            )
            # handle cases where the limits of the background become negative which numpy will interpret incorrectly
            background_y0 = max(background_y0, 0)
            background_x0 = max(background_x0, 0)
            background_y1 = max(background_y1, 0)
            background_x1 = max(background_x1, 0)
        self._background[
            background_y0:background_y1, background_x0:background_x1, :
        ] = frame[frame_y0:frame_y1, frame_x0:frame_x1, :]
        return self._background
""", """            # crop every side of the frame if necessary
            frame_y0, frame_y1 = self._crop(background_y0, background_y1, background_size_y)
            frame_x0, frame_x1 = self._crop(background_x0, background_x1, background_size_x)
            # negative limits of the background would be interpreted incorrectly by numpy
            background_y0, background_y1 = max(0, background_y0), max(0, background_y1)
            background_x0, background_x1 = max(0, background_x0), max(0, background_x1)
        visible = frame[frame_y0:frame_y1, frame_x0:frame_x1]
        self._background[background_y0:background_y1, background_x0:background_x1] = visible
        return self._background

    @staticmethod
    def _crop(start, end, size):
        first = max(-start, 0)
        last = max(min(size, end) - start, 0)
        return first, last
"""))
ref("fixedcam-size", "C18",
    (FC, """            original_size = (
                frame.shape[1],
                frame.shape[0],
            )  # OpenCV format is (width, height)

            scaled_size = tuple(
                (np.array(original_size) * np.array(self.scale)).round().astype(int)
            )
            self._background = np.zeros(
                [scaled_size[1], scaled_size[0], frame.shape[-1]],
                frame.dtype,
            )
""", """            height, width = np.round(np.array(frame.shape[:2]) * self.scale).astype(int)
            self._background = np.zeros((height, width, frame.shape[2]), dtype=frame.dtype)
"""))
ref("fixedcam-anchor", "C18",
    (FC, """        top_left = (
            coord_transformation.rel_to_abs(top_left[::-1]).round().astype(int)[::-1]
        )
        # box of the background that will be updated and the limits of it
        background_y0, background_y1 = (top_left[0], top_left[0] + frame.shape[0])
        background_x0, background_x1 = (top_left[1], top_left[1] + frame.shape[1])
        background_size_y, background_size_x = self._background.shape[:2]
""", """        anchor = coord_transformation.rel_to_abs(top_left[::-1])
        background_x0, background_y0 = np.round(anchor).astype(int)
        # box of the background that will be updated and the limits of it
        frame_height, frame_width = frame.shape[:2]
        background_y1 = background_y0 + frame_height
        background_x1 = background_x0 + frame_width
        background_size_y = self._background.shape[0]
        background_size_x = self._background.shape[1]
"""))
# ---- metrics ---------------------------------------------------------------
ref("predtext-join", "C19",
    (ME, """            frame_str = str(int(frame_number))
            id_str = str(int(obj.id))
            bb_left_str = str((obj.estimate[0, 0]))
            bb_top_str = str((obj.estimate[0, 1]))  # [0,1]
            bb_width_str = str((obj.estimate[1, 0] - obj.estimate[0, 0]))
            bb_height_str = str((obj.estimate[1, 1] - obj.estimate[0, 1]))
            row_text_out = (
                frame_str
                + ","
                + id_str
                + ","
                + bb_left_str
                + ","
                + bb_top_str
                + ","
                + bb_width_str
                + ","
                + bb_height_str
                + ",-1,-1,-1,-1"
            )
            self.text_file.write(row_text_out)
            self.text_file.write("\\n")
""", """            left, top = obj.estimate[0]
            right, bottom = obj.estimate[1]
            fields = [int(frame_number), int(obj.id), left, top, right - left, bottom - top]
            row = ",".join(str(field) for field in fields)
            self.text_file.write(row + ",-1,-1,-1,-1\\n")
"""))
ref("predtext-fstring", "C19",
    (ME, """            row_text_out = (
                frame_str
                + ","
                + id_str
                + ","
                + bb_left_str
                + ","
                + bb_top_str
                + ","
                + bb_width_str
                + ","
                + bb_height_str
                + ",-1,-1,-1,-1"
            )
            self.text_file.write(row_text_out)
            self.text_file.write("\\n")
""", """            box = f"{bb_left_str},{bb_top_str},{bb_width_str},{bb_height_str}"
            self.text_file.write(f"{frame_str},{id_str},{box},-1,-1,-1,-1\\n")
"""))
ref("predtext-makedirs", "C19",
    (ME, """        if not os.path.exists(predictions_folder):
            os.makedirs(predictions_folder)

        out_file_name = os.path.join(predictions_folder, file_name + ".txt")
""", """        os.makedirs(predictions_folder, exist_ok=True)

        out_file_name = os.path.join(predictions_folder, f"{file_name}.txt")
"""))
ref("accum-rows", "C19",
    (ME, """            new_row = [
                self.frame_number,
                obj.id,
                obj.estimate[0, 0],
                obj.estimate[0, 1],
                obj.estimate[1, 0] - obj.estimate[0, 0],
                obj.estimate[1, 1] - obj.estimate[0, 1],
                -1,
                -1,
                -1,
                -1,
            ]
            if np.shape(self.matrix_predictions)[0] == 0:
""", """            estimate = obj.estimate
            left, top = estimate[0, 0], estimate[0, 1]
            width, height = estimate[1, 0] - left, estimate[1, 1] - top
            new_row = [self.frame_number, obj.id, left, top, width, height]
            new_row += [-1, -1, -1, -1]
            if len(self.matrix_predictions) == 0:
"""))
ref("accum-next-default", "C19",
    (ME, """        for obj in predictions:
            new_row = [
                self.frame_number,
""", """        frame_number = self.frame_number
        self.frame_number = frame_number + 1
        for obj in predictions:
            new_row = [
                frame_number,
"""),
    (ME, """                self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
        self.frame_number += 1
        # Advance""", """                self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
        # Advance"""))
ref("detfile-mask", "C20",
    (ME, """        indexes = np.argwhere(self.matrix_detections[:, 0] == frame_number)
        detections = []
        if len(indexes) > 0:
            actual_det = self.matrix_detections[indexes]
            actual_det.shape = [actual_det.shape[0], actual_det.shape[2]]
            for det in actual_det:
                points = np.array([[det[2], det[3]], [det[4], det[5]]])
                conf = det[6]
                new_detection = Detection(points, np.array([conf, conf]))
                detections.append(new_detection)
        self.actual_detections = detections
        return detections
""", """        in_frame = self.matrix_detections[:, 0] == frame_number
        detections = []
        for det in self.matrix_detections[in_frame]:
            points = np.array([[det[2], det[3]], [det[4], det[5]]])
            scores = np.array([det[6], det[6]])
            detections.append(Detection(points, scores))
        self.actual_detections = detections
        return detections
"""))
ref("detfile-corners", "C20",
    (ME, """        self.matrix_detections[:, 4] = (
            self.matrix_detections[:, 2] + self.matrix_detections[:, 4]
        )
        self.matrix_detections[:, 5] = (
            self.matrix_detections[:, 3] + self.matrix_detections[:, 5]
        )
""", """        self.matrix_detections[:, 4:6] += self.matrix_detections[:, 2:4]
"""),
    (ME, """        self.sorted_by_frame = []
        for frame_number in range(1, self.length + 1):
            self.sorted_by_frame.append(self.get_dets_from_frame(frame_number))
""", """        self.sorted_by_frame = [
            self.get_dets_from_frame(frame + 1) for frame in range(self.length)
        ]
"""))
ref("detfile-next", "C20",
    (ME, """        if self.frame_number <= self.length:
            self.frame_number += 1
            # Frame_number is always 1 unit bigger than the corresponding index in self.sorted_by_frame, and
            # also we just incremented the frame_number, so now is 2 units bigger than the corresponding index
            return self.sorted_by_frame[self.frame_number - 2]

        raise StopIteration()
""", """        if self.frame_number > self.length:
            raise StopIteration
        detections = self.sorted_by_frame[self.frame_number - 1]
        self.frame_number += 1
        return detections
"""))
ref("info-search", "C20 C19 C21",
    (ME, """        for line in self.lines:
            if line[: len(variable_name)] == variable_name:
                result = line[len(variable_name) + 1 :]
                break
        else:
            raise ValueError(f"Couldn't find '{variable_name}' in {self.path}")
""", """        result = None
        for line in self.lines:
            if line.startswith(variable_name):
                result = line[len(variable_name) + 1 :]
                break
        if result is None:
            raise ValueError(f"Couldn't find '{variable_name}' in {self.path}")
"""))
ref("info-early-return", "C20",
    (ME, """        for line in self.lines:
            if line[: len(variable_name)] == variable_name:
                result = line[len(variable_name) + 1 :]
                break
        else:
            raise ValueError(f"Couldn't find '{variable_name}' in {self.path}")
""", """        name_length = len(variable_name)
        matching = [line for line in self.lines if line[:name_length] == variable_name]
        if not matching:
            raise ValueError(f"Couldn't find '{variable_name}' in {self.path}")
        result = matching[0][name_length + 1 :]
"""))
# ---- video --------------------------------------------------------------------
ref("video-validation", "C21 C25",
    (VI, """        if (input_path is None and camera is None) or (
            input_path is not None and camera is not None
        ):
""", """        if (input_path is None) == (camera is None):
"""),
    (VI, """            else self.video_capture.get(cv2.CAP_PROP_FPS)
        )
        self.input_height""", """            else self.video_capture.get(cv2.CAP_PROP_FPS)
        )
        # size of the frames
        self.input_height"""))
ref("video-outpath", "C21",
    (VI, """        if not os.path.isdir(self.output_path):
            return self.output_path

        if self.input_path is not None:
            file_name = self.input_path.split("/")[-1].split(".")[0]
        else:
            file_name = f"camera_{self.camera}"
        file_name = f"{file_name}_out.{self.output_extension}"

        return os.path.join(self.output_path, file_name)
""", """        if os.path.isdir(self.output_path):
            if self.input_path is None:
                name = f"camera_{self.camera}"
            else:
                name = self.input_path.split("/")[-1].split(".")[0]
            return os.path.join(
                self.output_path, name + "_out." + self.output_extension
            )
        return self.output_path
"""))
ref("video-codec", "C21",
    (VI, """        extension = filename[-3:].lower()
        if "avi" == extension:
            return "XVID"
        elif "mp4" == extension:
            return "mp4v"  # When available, "avc1" is better
        else:
""", """        codecs = {"avi": "XVID", "mp4": "mp4v"}
        extension = filename[-3:].lower()
        if extension in codecs:
            return codecs[extension]
        else:
"""))
ref("video-writer-helper", "C21",
    (VI, """        if self.output_video is None:
            # The user may need to access the output file path on their code
            output_file_path = self.get_output_file_path()
            fourcc = cv2.VideoWriter_fourcc(*self.get_codec_fourcc(output_file_path))
            # Set on first frame write in case the user resizes the frame in some way
            output_size = (
                frame.shape[1],
                frame.shape[0],
            )  # OpenCV format is (width, height)
            self.output_video = cv2.VideoWriter(
                output_file_path,
                fourcc,
                self.output_fps,
                output_size,
            )

        self.output_video.write(frame)
        return cv2.waitKey(1)
""", """        if self.output_video is None:
            self.output_video = self._open_output(frame)

        self.output_video.write(frame)
        return cv2.waitKey(1)

    def _open_output(self, frame: np.ndarray):
        # The user may need to access the output file path on their code
        output_file_path = self.get_output_file_path()
        fourcc = cv2.VideoWriter_fourcc(*self.get_codec_fourcc(output_file_path))
        # Set on first frame write in case the user resizes the frame in some way
        height, width = frame.shape[:2]  # OpenCV format is (width, height)
        return cv2.VideoWriter(
            output_file_path, fourcc, self.output_fps, (width, height)
        )
"""))
ref("video-iter", "C21",
    (VI, """            while True:
                self.frame_counter += 1
                ret, frame = self.video_capture.read()
                if ret is False or frame is None:
                    break
""", """            ret, frame = self._read_frame()
            while ret is not False and frame is not None:
"""),
    (VI, """                yield frame

        # Cleanup
""", """                yield frame
                ret, frame = self._read_frame()

        # Cleanup
"""),
    (VI, """    def _fail(self, msg: str):
""", """    def _read_frame(self):
        self.frame_counter += 1
        return self.video_capture.read()

    def _fail(self, msg: str):
"""))
ref("video-abbrev", "C21",
    (VI, """        terminal_columns, _ = get_terminal_size()
        space_for_description = (
            int(terminal_columns) - 25
        )  # Leave 25 space for progressbar
        if len(description) < space_for_description:
            return description
        else:
            return "{} ... {}".format(
                description[: space_for_description // 2 - 3],
                description[-space_for_description // 2 + 3 :],
            )
""", """        columns = int(get_terminal_size()[0])
        space = columns - 25  # Leave 25 space for progressbar
        if len(description) >= space:
            start = description[: space // 2 - 3]
            end = description[-space // 2 + 3 :]
            return f"{start} ... {end}"
        return description
"""))
# ---- colors ---------------------------------------------------------------------
ref("palette-comp", "C22",
    (CO, """            colors = []
            for c in palette:
                colors.append(parse_color(c))

            cls._colors = colors
""", """            cls._colors = [parse_color(c) for c in palette]
"""),
    (CO, """            try:
                cls._colors = PALETTES[palette]
            except KeyError as e:
                raise ValueError(
                    f"Invalid palette name '{palette}', valid values are {PALETTES.keys()}"
                ) from e
""", """            if palette not in PALETTES:
                raise ValueError(
                    f"Invalid palette name '{palette}', valid values are {PALETTES.keys()}"
                )
            cls._colors = PALETTES[palette]
"""))
ref("palette-index", "C22",
    (CO, """        if hashable is None:
            return cls._default_color
        return cls._colors[abs(hash(hashable)) % len(cls._colors)]
""", """        if hashable is not None:
            colors = cls._colors
            position = abs(hash(hashable)) % len(colors)
            return colors[position]
        return cls._default_color
"""),
    (CO, """    if isinstance(color_like, str):
        if color_like.startswith("#"):
            return hex_to_bgr(color_like)
        else:
            return getattr(Color, color_like)
    # TODO: validate?
    return tuple([int(v) for v in color_like])
""", """    if not isinstance(color_like, str):
        # TODO: validate?
        return tuple(int(v) for v in color_like)
    if color_like.startswith("#"):
        return hex_to_bgr(color_like)
    return getattr(Color, color_like)
"""))
# ---- drawing ---------------------------------------------------------------------
ref("boxes-color-helper", "C23",
    (DB, """        if color == "by_id":
            obj_color = Palette.choose_color(d.id)
        elif color == "by_label":
            obj_color = Palette.choose_color(d.label)
        elif color == "random":
            obj_color = Palette.choose_color(np.random.rand())
        else:
            obj_color = parse_color(color)

        points = d.points.astype(int)
""", """        obj_color = _color_of(d, color)

        points = d.points.astype(int)
"""),
    (DB, """def draw_tracked_boxes(
""", """def _color_of(drawable, color):
    if color == "by_id":
        return Palette.choose_color(drawable.id)
    if color == "by_label":
        return Palette.choose_color(drawable.label)
    if color == "random":
        return Palette.choose_color(np.random.rand())
    return parse_color(color)


def draw_tracked_boxes(
"""))
ref("boxes-text", "C23",
    (DB, """            if text_color is None:
                obj_text_color = obj_color
            else:
                obj_text_color = text_color
            # the anchor""", """            obj_text_color = obj_color if text_color is None else text_color
            # the anchor"""),
    (DB, """            text_anchor = (
                points[0, 0] - thickness // 2,
                points[0, 1] - thickness // 2 - 1,
            )
""", """            half = thickness // 2
            left, top = points[0]
            text_anchor = (left - half, top - half - 1)
"""),
    (DB, """        if not isinstance(obj, Drawable):
            d = Drawable(obj)
        else:
            d = obj

        if color""", """        d = obj if isinstance(obj, Drawable) else Drawable(obj)

        if color"""))
ref("drawable-init", "C23",
    (DR, """            self.live_points = np.ones(obj.points.shape[0]).astype(bool)
""", """            self.live_points = np.ones(len(obj.points), dtype=bool)
"""))
ref("paths-draw", "C24",
    (PA, """            self.past_points[obj.id].insert(0, points_to_draw)
            self.past_points[obj.id] = self.past_points[obj.id][: self.max_history]
""", """            history = [points_to_draw] + self.past_points[obj.id]
            self.past_points[obj.id] = history[: self.max_history]
"""))
ref("paths-color", "C24",
    (PA, """            if self.color is None:
                color = Palette.choose_color(obj.id)
            else:
                color = self.color

            points_to_draw = self.get_points_to_draw(obj.get_estimate(absolute=True))
""", """            color = self.color
            if color is None:
                color = Palette.choose_color(obj.id)

            estimate = obj.get_estimate(absolute=True)
            points_to_draw = self.get_points_to_draw(estimate)
"""),
    (PA, """                alpha = self.alphas[i]
                frame = Drawer.alpha_blend(overlay, frame, alpha=alpha)
""", """                frame = Drawer.alpha_blend(overlay, frame, alpha=self.alphas[i])
"""))
ref("paths-trim-before", "C24",
    (PA, """            self.past_points[obj.id].insert(0, points_to_draw)
            self.past_points[obj.id] = self.past_points[obj.id][: self.max_history]
""", """            past = self.past_points[obj.id]
            past.insert(0, points_to_draw)
            if len(past) > self.max_history:
                past.pop()
"""))
# ---- utils -------------------------------------------------------------------------
ref("validate-ndim", "C25",
    (UT, """    if len(points.shape) == 1:
        points = points[np.newaxis, ...]
    elif len(points.shape) > 2:
        raise_detection_error_message(points)
    return points
""", """    if points.ndim > 2:
        raise_detection_error_message(points)
    if points.ndim == 1:
        return points.reshape(1, -1)
    return points
"""))
ref("cutout-np", "C27",
    (UT, """    max_x = max(int(max(points[:, 0])), 0)
    min_x = max(int(min(points[:, 0])), 0)
    max_y = max(int(max(points[:, 1])), 0)
    min_y = max(int(min(points[:, 1])), 0)
    return image[min_y:max_y, min_x:max_x]
""", """    max_x, max_y = (max(int(value), 0) for value in np.max(points, axis=0))
    min_x, min_y = (max(int(value), 0) for value in np.min(points, axis=0))
    return image[min_y:max_y, min_x:max_x]
"""))
ref("cutout-clip", "C27",
    (UT, """    max_x = max(int(max(points[:, 0])), 0)
    min_x = max(int(min(points[:, 0])), 0)
    max_y = max(int(max(points[:, 1])), 0)
    min_y = max(int(min(points[:, 1])), 0)
    return image[min_y:max_y, min_x:max_x]
""", """    xs, ys = points[:, 0], points[:, 1]

    def limits(values):
        return max(0, int(values.min())), max(0, int(values.max()))

    min_x, max_x = limits(xs)
    min_y, max_y = limits(ys)
    return image[min_y:max_y, min_x:max_x]
"""))
ref("cutout-slices", "C27",
    (UT, """    return image[min_y:max_y, min_x:max_x]
""", """    rows, columns = slice(min_y, max_y), slice(min_x, max_x)
    return image[rows, columns]
"""))
