import numpy as np


def get_dataset(*a, **k):
    raise NotImplementedError('gridded stand-in')


def _reorganize_spatial_data(points):
    if points is None:
        return None
    points = np.ascontiguousarray(points)
    if points.ndim == 1:
        points = points.reshape(1, -1)
    return points


def _align_results_to_spatial_data(result, points):
    return result


def gen_celltree_mask_from_center_mask(*a, **k):
    raise NotImplementedError('gridded stand-in')


def convert_mask_to_numpy_mask(*a, **k):
    raise NotImplementedError('gridded stand-in')
