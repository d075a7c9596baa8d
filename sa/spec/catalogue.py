"""Which central subhaloes enter the inventory, and their index lists, radii and sizes."""
import numpy as np

def objects(nb_shs, sh_len, fof_sizes, group_r200, MIN_NUMBER_PTCS):
    n = len(nb_shs)
    keep = np.zeros((n,), dtype=np.int32)
    size = np.zeros((n,), dtype=np.int32)
    for p in range(n):
        first = sum(nb_shs[q] for q in range(p))
        if nb_shs[p] > 0:
            if sh_len[first] >= MIN_NUMBER_PTCS:
                keep[p] = 1
                size[p] = sh_len[first]
    kept = keep.nonzero()[0]
    out = np.empty(0, np.int32)
    for k in range(len(kept)):
        p = kept[k]
        start = sum(fof_sizes[q] for q in range(p))
        out = np.hstack((out, np.arange(start, start + size[p])))
    return out, group_r200[kept], size[kept]

def members(obj_idxs, start_idx, nb_shs, csh_size, MIN_NUMBER_PTCS):
    """the particles of a central subhalo follow each other from the start of its group"""
    if nb_shs > 0 and csh_size >= MIN_NUMBER_PTCS:
        for k in range(csh_size):
            obj_idxs[k] = start_idx + k
    return obj_idxs
