"""Definitions of the library functions gradslam composes its transforms from (kornia.geometry.linalg), given as source and
analysed like the package itself, so that a call and its expansion have the same value graph."""
KORNIA = '''
import torch
def inverse_transformation(trans_12):
    if not torch.is_tensor(trans_12): raise TypeError("tensor")
    r = trans_12[..., :3, 0:3].transpose(-1, -2)
    t = torch.matmul(-r, trans_12[..., :3, 3:4])
    out = torch.zeros_like(trans_12)
    out[..., :3, 0:3] += r
    out[..., :3, -1:] += t
    out[..., -1, -1:] += 1.0
    return out
def compose_transformations(trans_01, trans_12):
    if not torch.is_tensor(trans_01): raise TypeError("tensor")
    if not torch.is_tensor(trans_12): raise TypeError("tensor")
    if not trans_01.dim() == trans_12.dim(): raise ValueError("dims")
    r0 = trans_01[..., :3, :3]
    out = torch.zeros_like(trans_01)
    out[..., :3, 0:3] += torch.matmul(r0, trans_12[..., :3, :3])
    out[..., :3, -1:] += torch.matmul(r0, trans_12[..., :3, -1:]) + trans_01[..., :3, -1:]
    out[..., -1, -1:] += 1.0
    return out
def relative_transformation(trans_01, trans_02):
    return compose_transformations(inverse_transformation(trans_01), trans_02)
def transform_points(trans_01, points_1):
    return torch.matmul(points_1, trans_01[..., :3, :3].transpose(-1, -2)) + trans_01[..., :3, 3].unsqueeze(-2)
'''
LIB = {"kornia": KORNIA}
NAMES = {"kornia": ("inverse_transformation", "compose_transformations", "relative_transformation")}
