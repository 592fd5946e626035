"""property -> (harness modules, quick budget [s], thorough budget [s])"""
PROPS = {}
for _p in ('I01', 'I02', 'I03', 'I04', 'I05'):
    PROPS[_p] = (['c_intervals'], 40, 600)
for _p in ('F01', 'F02', 'F03', 'F04', 'F05', 'F06', 'F07', 'F08', 'F09'):
    PROPS[_p] = (['c_functions'], 40, 600)
for _p in ('D01', 'D02'):
    PROPS[_p] = (['c_dists'], 40, 600)
for _p in ('D03', 'D04', 'D05', 'D06', 'D07', 'D08'):
    PROPS[_p] = (['c_numeric'], 40, 600)
for _p in ('T01', 'T02', 'T03', 'T04', 'T05', 'T06', 'T07', 'T08', 'T09'):
    PROPS[_p] = (['c_trees'], 40, 600)
PROPS['T09'] = (['c_sampling'], 40, 600)
PROPS['T01'] = (['c_learn'], 40, 600)
PROPS['K01'] = (['c_impurity'], 40, 600)
PROPS['S01'] = (['c_seq'], 40, 600)
PROPS['U01'] = (['c_utils'], 40, 600)
PROPS['V01'] = (['c_vars'], 40, 600)
PROPS['D09'] = (['c_density'], 40, 600)
