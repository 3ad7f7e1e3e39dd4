class EngineeringCameraFrame:
    def __init__(self, n_mirrors=1, **kwargs):
        self.n_mirrors = n_mirrors


class CameraFrame:
    pass
