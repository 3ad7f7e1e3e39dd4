"""
Stand-in for the parts of ctapipe (0.7/0.8) that CHECLabPy consumes.  The
algorithms are slow, obviously-correct restatements of ctapipe's documented
behaviour.
"""
