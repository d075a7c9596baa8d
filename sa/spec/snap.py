"""Layout of Gadget snapshots, written down with absolute positions."""
import os, sys
import h5py
import numpy as np
from cosmic_profiles.common import config
from cosmic_profiles.gadget import readsnap, readgadget
from cosmic_profiles.gadget.read_fof import getFoFSHData

def at(name, pos, dtype, n):
    with open(name, 'rb') as f:
        f.seek(pos)
        return np.fromfile(f, dtype, n)

def order(swap, x):
    """values in the byte order of the file"""
    return x.byteswap() if swap else x

def existing(filename):
    if os.path.exists(filename):
        return filename
    if os.path.exists(filename + ".0"):
        return filename + ".0"
    sys.exit()

def kind(name):
    """(format, byte order differs) from the leading block size"""
    b = at(name, 0, np.int32, 1)[0]
    s = b.byteswap()
    if b == 8:
        return 2, 0
    if b == 256:
        return 1, 0
    if s == 8:
        return 2, 1
    if s == 256:
        return 1, 1
    sys.exit()

def header(filename):
    name = existing(filename)
    fmt, swap = kind(name)
    o = 20 if fmt == 2 else 4      # behind the size of the header block, in format 2 also behind the block's label
    def field(pos, dtype, n):
        return order(swap, at(name, o + pos, dtype, n))
    def one(pos, dtype):
        return order(swap, at(name, o + pos, dtype, 1)[0])
    return (fmt, swap, field(0, np.int32, 6), field(24, np.float64, 6), one(72, np.float64), one(80, np.float64), one(88, np.int32), one(92, np.int32),
            field(96, np.uint32, 6), one(120, np.int32), one(124, np.int32), one(128, np.float64), one(136, np.float64), one(144, np.float64), one(152, np.float64))

def d_header(filename):
    h = readsnap.snapshot_header(filename)
    return (h.format, h.swap, h.npart, h.massarr, h.time, h.redshift, h.sfr, h.feedback, h.nall, h.cooling, h.filenum, h.boxsize, h.omega_m, h.omega_l, h.hubble)

def r_header(filename):
    return header(filename)

def found(snapshot):
    """file that holds the header and whether it is hierarchical"""
    if os.path.exists(snapshot):
        return (snapshot, 'hdf5' if snapshot[-4:] == 'hdf5' else 'binary')
    if os.path.exists(snapshot + '.0'):
        return (snapshot + '.0', 'binary')
    if os.path.exists(snapshot + '.hdf5'):
        return (snapshot + '.hdf5', 'hdf5')
    if os.path.exists(snapshot + '.0.hdf5'):
        return (snapshot + '.0.hdf5', 'hdf5')
    raise Exception("no file")

def gheader(snapshot):
    name, kind = found(snapshot)
    if kind == 'hdf5':
        a = h5py.File(name, 'r')['Header'].attrs
        return (a['Time'], a['Redshift'], a['BoxSize'], a['NumFilesPerSnapshot'], a['Omega0'], a['OmegaLambda'], a['HubbleParam'], a['MassTable'], a['NumPart_ThisFile'], a['NumPart_Total'],
                a['Flag_Cooling'], 'hdf5', 100.0 * np.sqrt(a['Omega0'] * (1.0 + a['Redshift']) ** 3 + a['OmegaLambda']))
    h = header(name)
    return (h[4], h[5], h[11], h[10], h[12], h[13], h[14], h[3], h[2], h[8], h[9], h[0], 100.0 * np.sqrt(h[12] * (1.0 + h[5]) ** 3 + h[13]))

def d_gheader(snapshot):
    h = readgadget.header(snapshot)
    return (h.time, h.redshift, h.boxsize, h.filenum, h.omega_m, h.omega_l, h.hubble, h.massarr, h.npart, h.nall, h.cooling, h.format, h.Hubble)

def r_gheader(snapshot):
    return gheader(snapshot)

def unit_factor(block):
    """input units over internal units"""
    l, m, v = config.getLMVInternal()
    if block == "POS ":
        return config.InUnitLength_in_cm / l
    if block == "MASS":
        return config.InUnitMass_in_g / m
    if block == "VEL ":
        return config.InUnitVelocity_in_cm_per_s / v
    if block == "ID  ":
        return 1
    raise Exception("unknown block")

def dataset(block):
    if block == "POS ":
        return "Coordinates"
    if block == "MASS":
        return "Masses"
    if block == "VEL ":
        return "Velocities"
    return "ParticleIDs"

def d_found(snapshot):
    return readgadget.fname_format(snapshot)

def d_field(snapshot, block, ptype):
    x = readgadget.read_field(snapshot, block, ptype)
    return (x, x.dtype) if block == "ID  " else x

def r_field(snapshot, block, ptype):
    name, kind = found(snapshot)
    h = readgadget.header(name)
    unit = unit_factor(block)
    if kind == 'binary':
        x = readsnap.read_block(name, block, parttype=ptype)
    else:
        f = h5py.File(name, 'r')
        path = 'PartType%d/%s' % (ptype, dataset(block))
        n = h.npart[ptype]
        if path in f:
            x = f[path][:]
        elif block == "MASS" and h.massarr[ptype] != 0:
            x = np.full(n, h.massarr[ptype])
        elif n == 0:
            x = np.zeros((0, 3)) if block == "POS " or block == "VEL " else np.zeros(0, np.uint64 if block == "ID  " else np.float64)
        else:
            raise Exception("no such block")
        if block == "VEL ":
            x = x * np.sqrt(h.time)
    if block == "ID  ":
        return x, x.dtype
    return x * unit

NUM = {'POS ': 2, 'VEL ': 3, 'ID  ': 4, 'MASS': 5, 'U   ': 6, 'RHO ': 7, 'NE  ': 8, 'NH  ': 9, 'HSML': 10, 'SFR ': 11, 'AGE ': 12, 'Z   ': 13, 'BHMA': 14, 'BHMD': 15}

def d_rb_one(filename, block, ptype):
    if not os.path.exists(filename):
        raise ValueError("only one file")
    x = readsnap.read_block(filename, block, parttype=ptype)
    return (x, x.dtype) if block == "ID  " else x

def d_rb_many(filename, block, ptype):
    if os.path.exists(filename) or not os.path.exists(filename + ".0"):
        raise ValueError("only several files")
    x = readsnap.read_block(filename, block, parttype=ptype)
    return (x, x.dtype) if block == "ID  " else x

def r_rb_one(filename, block, ptype):
    if not os.path.exists(filename):
        raise ValueError("only one file")
    return blockdata([filename], readsnap.snapshot_header(filename).npart, block, ptype)

def r_rb_many(filename, block, ptype):
    if os.path.exists(filename) or not os.path.exists(filename + ".0"):
        raise ValueError("only several files")
    n = readsnap.snapshot_header(filename + ".0").filenum
    return blockdata([filename + "." + str(i) for i in range(n)], readsnap.snapshot_header(filename + ".0").nall, block, ptype)

def stored(block, massarr):
    """particle types a block has data of"""
    if block == "MASS":
        return [massarr[j] == 0 for j in range(6)]
    if block in ("POS ", "VEL ", "ID  "):
        return [True] * 6
    if block in ("BHMA", "BHMD"):
        return [j == 5 for j in range(6)]
    if block == "AGE ":
        return [j == 4 for j in range(6)]
    if block == "Z   ":
        return [j == 0 or j == 4 for j in range(6)]
    return [j == 0 for j in range(6)]

def dtype(block, size):
    if block == "ID  ":
        return np.dtype(np.uint32) if size == 4 else np.dtype(np.uint64)
    return (np.float64, 3) if block in ("POS ", "VEL ") else np.float64

def blockdata(names, total, block, ptype):
    """names: files of the snapshot; total: particles of each type in all of them"""
    h0 = readsnap.snapshot_header(names[0])
    if block == "MASS" and ptype >= 0:
        if h0.massarr[ptype] > 0:
            return np.ones(total[ptype]) * h0.massarr[ptype]
    has = stored(block, h0.massarr)
    if ptype >= 0 and not has[ptype]:
        sys.exit()
    wide = 3 if block in ("POS ", "VEL ") else 1
    size = 8 * wide
    types = range(6) if ptype < 0 else [ptype]
    n = 0
    for j in types:
        n += total[j]
    out = np.empty((n, 3)) if wide == 3 else np.empty(n)
    num = NUM[block]
    start = 0
    for j in types:
        first = start
        for i in range(len(names)):
            name = names[i]
            h = readsnap.snapshot_header(name)
            pos, length = readsnap.find_block(name, h0.format, h0.swap, block, num)
            before = 0
            full = 0
            for k in range(6):
                if has[k]:
                    if k < j:
                        before += h.npart[k]
                    full += h.npart[k]
            if block == "ID  " and i == 0:
                size = 4 if length != 8 * full else 8
            if length != size * full:
                sys.exit()
            if block == "MASS" and h0.massarr[j] > 0:
                out[first:first + h.npart[j]] = h0.massarr[j]
            else:
                x = at(name, pos + size * before, dtype(block, size), h.npart[j])
                out[first:first + h.npart[j]] = order(h0.swap, x)
            first += h.npart[j]
        start += total[j]
    if block == "VEL " and h0.redshift != 0:
        out = out * np.sqrt(h0.time)
    return (out, dtype(block, size)) if block == "ID  " else out

def d_find_block(filename, fmt, swap, block, number):
    return readsnap.find_block(filename, fmt, swap, block, number)

def u32(name, pos, swap):
    x = at(name, pos, np.uint32, 1)[0]
    return x.byteswap() if swap else x

def r_find_block(filename, fmt, swap, block, number):
    """walks over the blocks: [label entry of 16 bytes in format 2] size, data, size"""
    if not os.path.exists(filename):
        sys.exit()
    end = os.path.getsize(filename)
    pos = 0
    found = False
    k = 1
    while not found and pos < end:
        if fmt == 2:
            found = block.encode("ascii") == os.pread(filename, 4, pos + 4)
            first = pos + 16
        else:
            found = k == number
            first = pos
        n = u32(filename, first, swap)
        if found:
            start = first + 4
            length = n
            pos = first + 4
        else:
            if n != u32(filename, first + 4 + n, swap):
                sys.exit()
            pos = first + 8 + n
            k += 1
    if not found:
        sys.exit()
    return start, length

def d_joined_bin(snapshot, block, ptype):
    if found(snapshot)[1] != 'binary':
        raise ValueError("binary files only")
    x = readgadget.read_block(snapshot, block, ptype)
    return (x, x.dtype) if block == "ID  " else x

def d_joined_h5(snapshot, block, ptype):
    if found(snapshot)[1] != 'hdf5':
        raise ValueError("hierarchical files only")
    x = readgadget.read_block(snapshot, block, ptype)
    return (x, x.dtype) if block == "ID  " else x

def width(block):
    return 3 if block == "POS " or block == "VEL " else 1

def r_joined_bin(snapshot, block, ptype):
    """one type after the other, in internal units"""
    name, kind = found(snapshot)
    if kind != 'binary':
        raise ValueError("binary files only")
    h = readgadget.header(name)
    parts = [readsnap.read_block(snapshot, block, p, verbose=False) for p in ptype]
    return stack(parts, [h.nall[p] for p in ptype], name, block, ptype)

def r_joined_h5(snapshot, block, ptype):
    name, kind = found(snapshot)
    if kind != 'hdf5':
        raise ValueError("hierarchical files only")
    h = readgadget.header(name)
    parts = []
    sizes = []
    for p in ptype:
        if h.filenum == 1:
            parts.append(readgadget.read_field(snapshot, block, p))
            sizes.append(h.nall[p])
        else:
            for i in range(h.filenum):
                f = snapshot + '.' + str(i) + '.hdf5'
                parts.append(readgadget.read_field(f, block, p))
                sizes.append(readgadget.header(f).npart[p])
    return stack(parts, sizes, name, block, ptype)

def stack(parts, sizes, name, block, ptype):
    n = 0
    for s in sizes:
        n += s
    wide = width(block)
    out = np.zeros((n, 3)) if wide == 3 else np.zeros(n)
    first = 0
    for k in range(len(parts)):
        out[first:first + sizes[k]] = parts[k]
        first += sizes[k]
    if block == "ID  ":
        return out, readgadget.read_field(name, block, ptype[0]).dtype
    if found(name)[1] == 'binary':
        return out * unit_factor(block)
    return out

def d_fof(GROUPD, RV, PT):
    return getFoFSHData(GROUPD, RV, PT)

def r_fof(GROUPD, RV, PT):
    """one group after the other, in the order of the file numbers; radii in internal units"""
    what = 'Group/Group_R_TopHat200' if RV == 'Rvir' else 'Group/Group_R_Mean200'
    unit = config.InUnitLength_in_cm / config.getLMVInternal()[0]
    nb, lens, radii, subs = [], [], [], []
    for name in files_with_groups(GROUPD):
        f = h5py.File(name, 'r')
        nb.append(f['Group/GroupNsubs'][:])
        lens.append(f['Group/GroupLenType'][:, PT])
        radii.append(f[what][:] * unit)
    for name in files_with_subhaloes(GROUPD):
        f = h5py.File(name, 'r')
        subs.append(f['Subhalo/SubhaloLenType'][:, PT])
    return joined(nb), joined(subs), joined(lens), joined(radii)

def joined(xs):
    return np.concatenate(xs) if len(xs) > 0 else np.zeros(0)

def files_with_groups(GROUPD):
    pass

def files_with_subhaloes(GROUPD):
    pass
