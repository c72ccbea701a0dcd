"""What each check builds and runs."""
RULES = {}
CHECKS = {}
MON = 'runtime monitoring: independent oracle over generated executions'


def check(pid, harness, groups, rule, technique=MON, note='', variant='plain', runs=None, assumptions=None, **kw):
    if runs is None:
        runs = [dict(variant=variant, groups=groups, harness=harness, **kw)]
    CHECKS[pid] = dict(runs=runs, rule=rule, technique=technique, assumptions=assumptions or [],
                       note=note or 'Exploration: holds for every observed execution; per-stratum rates where the property bounds a share. Trusts Eigen, the compiler and the scene generators of harness/.')


check('P01', ['p_abs_minimal.cpp'], ['math', 'absolute'], scale=8, rule=
      'one evaluation = one solver call on a generated scene; distinct = different scenes (hash of flavour, solver and generated pose); the true pose must be in the solution set and every solution must satisfy the geometry')
check('P10', ['p_math_poly.cpp'], ['math'], scale=60, rule=
      'one evaluation = one polynomial; distinct = different coefficient vectors; every real root (known by construction) must be among the returned values within its conditioning')
check('P11', ['p_math_sturm.cpp'], ['math'], scale=40, rule=
      'one evaluation = one polynomial (or one sign-change interval query); distinct = different coefficient vectors; returned roots must match the constructed real roots one to one')
check('P12', ['p_math_rot.cpp'], ['math'], scale=24, rule=
      'one evaluation = one conversion or matrix; distinct = different inputs; compared with independently written textbook formulas, SVD optimality and row-space oracles')
check('P13', ['p_adapters.cpp'], ['adapters'], scale=10, rule=
      'one evaluation = one getter result compared bit for bit with the container it came from; distinct = different (value, position) pairs')
check('P14', ['p_ransac.cpp'], [], scale=40, technique='runtime monitoring: offline checker over the log of evaluated hypotheses', rule=
      'one evaluation = one run whose logged hypotheses are replayed against the contract; distinct = different run configurations')
check('P15', ['p_lmeds.cpp'], [], scale=40, technique='runtime monitoring: offline checker over the log of evaluated hypotheses', rule=
      'one evaluation = one run whose logged hypotheses are replayed against the contract; distinct = different run configurations')
check('P16', ['p_multiransac.cpp'], [], scale=24, technique='runtime monitoring: offline checker over the log of evaluated hypotheses', rule=
      'one evaluation = one run (or one uniformity statistic) whose logged hypotheses and samples are replayed against the contract; distinct = different run configurations')
check('P17', ['p_sampling.cpp'], ['all'], scale=60, technique='runtime monitoring: online checker of drawn samples, chi-square monitors', rule=
      'one evaluation = one drawn sample (or one uniformity statistic); distinct = different draws')
check('P02', ['p_abs_npoint.cpp'], ['math', 'absolute'], scale=2, rule=
      'one evaluation = one scene given to the n-point solvers; distinct = different generated poses; noise-free: exact pose among the results, noisy: error bounded in proportion to the noise')
check('P03', ['p_abs_nonlin.cpp'], ['math', 'absolute'], scale=3, rule=
      'one evaluation = one refinement; distinct = different generated poses; compared with an independently written cost function and an independent minimiser')
check('P08', ['p_triangulation.cpp'], ['triangulation', 'adapters'], scale=20, rule=
      'one evaluation = one triangulated point; distinct = different geometries; compared with the generating point, with the mid point of the shortest segment and with the smallest algebraic residual')
check('P09', ['p_point_cloud.cpp'], ['math', 'point_cloud'], scale=15, rule=
      'one evaluation = one alignment; distinct = different clouds; compared with the generating transformation and with the optimum found by the independently written quaternion method of Horn')
check('P04', ['p_rel_central.cpp'], ['math', 'triangulation', 'relative'], scale=16, rule=
      'one evaluation = one scene given to the solvers; distinct = different motions; the true essential matrix (rotation) must be in the solution set and every solution must satisfy the epipolar and validity constraints')
check('P05', ['p_rel_special.cpp'], ['math', 'triangulation', 'relative'], scale=8, rule=
      'one evaluation = one motion given to the solvers; distinct = different motions; compared with the generating motion and, for the eigensolver, with the eigen-decomposition of the normal matrix built from the data')
check('P06', ['p_rel_general.cpp'], ['math', 'triangulation', 'relative'], scale=3, rule=
      'one evaluation = one rig and motion given to a solver; distinct = different motions; compared with the generating motion including its metric scale')
check('P07', ['p_rel_nonlin.cpp'], ['math', 'triangulation', 'relative'], scale=3, rule=
      'one evaluation = one refinement; distinct = different scenes; costs evaluated by an independent implementation, optimality probed by an independent minimiser')
check('P18', ['p_sac_score.cpp'], ['all'], rule=
      'one evaluation = one data set with five models scored through a sample consensus problem; distinct = different models; every distance compared with an independent formula')
check('P19', ['p_sac_hyp.cpp'], ['all'], scale=3, rule=
      'one evaluation = one hypothesis computed from a minimal noise-free sample; distinct = different models; compared with the generating model')
check('P20', ['p_sac_robust.cpp'], ['all'], scale=3, rule=
      'one evaluation = one robust run on data with known gross outliers; distinct = different models; model and inlier set compared with the truth')
check('P21', ['p_sac_refine.cpp'], ['all'], scale=4, rule=
      'one evaluation = one refinement of a model on an inlier list; distinct = different models; costs evaluated by an independent implementation, repeated with different data outside the list')
check('P23', ['p_index.cpp'], ['math', 'triangulation', 'point_cloud', 'absolute', 'relative', 'adapters'], scale=3, rule=
      'one evaluation = one solver run in up to eight equivalent ways (index list, compact data, other adapters, other foreign data); distinct = different scenes; results must be numerically identical')
check('P22', ['p_equivariance.cpp'], ['math', 'triangulation', 'point_cloud', 'absolute', 'relative', 'adapters'], scale=5, rule=
      'one evaluation = one scene solved before and after up to six transformations; distinct = different scenes; every solution must have its transformed counterpart')
check('P24', ['p_pure.cpp'], ['all'], rule=
      'one evaluation = one library call whose inputs are compared bit for bit afterwards; it is then repeated in a shuffled history and on fresh objects and must return identical bits; distinct = different call and data')
check('P28', ['p_uninit.cpp'], ['all'], rule=
      'one evaluation = one library call executed twice, with all heap blocks and the stack filled with different bytes; distinct = different call and data; outputs must agree bit for bit')
check('P25', ['p_hostile.cpp'], ['all'], variant='asan', technique='runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, library assertions (Eigen, libstdc++)', scale=0.4, cpu=120, rule=
      'one evaluation = one library call on generic or hostile data executed under the sanitizers; distinct = different call and data; no report, failed assertion or crash')
check('P27', ['p_terminate.cpp'], ['all'], scale=2, cpu=20, technique='runtime monitoring: CPU-time watchdog per case and per call, iteration counters', rule=
      'one evaluation = one library call on generic or hostile data that has to return within its budget; distinct = different call and data')
check('P26', ['p_threads.cpp'], ['all'], variant='tsan', shards=4, cpu=300, technique='runtime monitoring: ThreadSanitizer plus comparison with sequential results', rule=
      'one evaluation = one library call executed by one of four threads under ThreadSanitizer, its result compared bit for bit with a sequential execution; distinct = different call, data and thread')
check('P29', ['p_leak.cpp'], ['all'], technique='runtime monitoring: live heap blocks counted by interposed allocation functions', rule=
      'one evaluation = one library call repeated while the number of live heap blocks is counted; distinct = different call and data; blocks in use must not grow from repetition to repetition')
check('P30', ['p_matlab.cpp', 'g_matlab.cpp'], ['all'], scale=8, technique='runtime monitoring: the MATLAB gateway executed against a stand-in of mex.h, each result compared with the C++ interface', rule=
      'one evaluation = one call of the gateway (or one malformed call that has to be refused); distinct = different method, call form and data; outputs, inlier lists, inputs and live heap blocks are compared')
check('P31', ['p_python.cpp', 'g_python.cpp'], ['all'], scale=3, technique='runtime monitoring: the Python module executed against a stand-in of pybind11, each result compared with the C++ interface', rule=
      'one evaluation = one call of a module function (or one malformed call that has to raise); distinct = different function, call form and data; results, shapes and inputs are compared')
