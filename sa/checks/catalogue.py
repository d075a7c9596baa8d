from ..check import Unit
A = [('nb_shs', 'i+[H]'), ('sh_len', 'i+[S]'), ('fof_sizes', 'i+[H]'), ('group_r200', 'f+[H]'), ('MIN_NUMBER_PTCS', 'i+')]
Unit('obj_cat', 'calcObjCat', 'spec.catalogue.objects', A, {'C19': ['ret*', 'alive'], 'C06': ['ret*'], 'C16': ['out.*']}, public=True)
Unit('csh', 'calcCSHIdxs', 'spec.catalogue.members', [('obj_idxs', 'i+[W]'), ('start_idx', 'i+'), ('nb_shs', 'i+'), ('csh_size', 'i+'), ('MIN_NUMBER_PTCS', 'i+')], {'C19': ['ret', 'out.obj_idxs']})
