import numpy as np


class CameraGeometry:
    def __init__(self, cam_id, pix_id, pix_x, pix_y, pix_area, pix_type,
                 frame=None, sampling_rate=None, **kwargs):
        self.cam_id = cam_id
        self.pix_id = pix_id
        self.pix_x = pix_x
        self.pix_y = pix_y
        self.pix_area = pix_area
        self.pix_type = pix_type
        self.frame = frame
        self.sampling_rate = sampling_rate

    @property
    def neighbor_matrix(self):
        x = np.asarray(getattr(self.pix_x, "value", self.pix_x), float)
        y = np.asarray(getattr(self.pix_y, "value", self.pix_y), float)
        n = x.size
        if n == 1:
            return np.zeros((1, 1), bool)
        d = np.hypot(x[:, None] - x, y[:, None] - y)
        np.fill_diagonal(d, np.inf)
        pitch = d.min()
        # as ctapipe for rectangular pixels: closer than 1.4 pitches
        return d < 1.4 * pitch

    @property
    def neighbor_matrix_where(self):
        return np.ascontiguousarray(np.array(np.where(self.neighbor_matrix)).T)

    def transform_to(self, frame):
        """Engineering frame of a two-mirror telescope: x -> -y, y -> -x."""
        if self.frame is not None and type(self.frame) is type(frame):
            return self
        return CameraGeometry(
            self.cam_id, self.pix_id, -self.pix_y, -self.pix_x,
            self.pix_area, self.pix_type, frame=frame,
            sampling_rate=self.sampling_rate,
        )
