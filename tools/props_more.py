NA = {}
TP = 'The bundled tests print one random example and compare nothing (exit code 0 whatever is computed), so no value of the '


def add(prop):
    prop('P18', 'Consensus scores are reprojection or alignment errors of the right data',
         'For every sample consensus problem the distance reported for a correspondence is the documented error of exactly that correspondence under exactly that model: 1 minus the cosine of the angle between measured bearing and reprojected point for absolute poses, the sum of these over both viewpoints of the triangulated point for relative poses, 1 minus the cosine between the rotated bearings for pure rotations, and the Euclidean residual for point clouds. '
         'One distance is returned per requested index, in order, and selecting or counting inliers agrees with these distances; no correspondence counts as close to a model that is not finite.',
         ['inputs', 'configurations'], 'All problem classes (absolute, relative, multi-camera variants, rotation-only, translation-only, eigensolver, point cloud), all models, true or wrong, all index lists with repetitions and any order.',
         TP + 'scored correspondence is compared with an independent computation.',
         ['src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp', 'src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/RotationOnlySacProblem.cpp', 'src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp', 'src/sac_problems/relative_pose/EigensolverSacProblem.cpp', 'src/sac_problems/point_cloud/PointCloudSacProblem.cpp'],
         [('scoring', 'sac_problems::*::getSelectedDistancesToModel')])
    prop('P19', 'Consensus hypotheses from noise-free samples are the true model',
         'For every sample consensus problem and every algorithm it offers, the model computed from a minimal sample of noise-free correspondences in general position is the true one (translation up to scale for a single moving camera), including the choice among multiple solutions, and it is a finite rigid transformation whenever success is reported. '
         'The reported sample size suffices for that choice. Whenever success is reported, also on degenerate samples, the model was computed from the sample and not left over from the variable passed in.',
         ['inputs', 'configurations'], 'All problem classes and algorithm choices, samples drawn anywhere in the data, poses and rigs as in the solver properties, with a bounded share of numerically unlucky samples per algorithm.',
         TP + 'hypothesis is compared with the true model; most algorithm choices of the problems are never run.',
         ['src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/RotationOnlySacProblem.cpp', 'src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp', 'src/sac_problems/relative_pose/EigensolverSacProblem.cpp', 'src/sac_problems/point_cloud/PointCloudSacProblem.cpp'],
         [('hypothesis generation and disambiguation', 'sac_problems::*::computeModelCoefficients')])
    prop('P20', 'Robust estimation finds the model and the inliers despite outliers',
         'Given correspondences of which a known share are gross outliers and the rest noise-free, RANSAC (and its multi-camera version) over every shipped problem class reports success, recovers the true model and classifies every noise-free correspondence as inlier and every gross outlier as outlier; LMedS does so while fewer than half are outliers.',
         ['inputs', 'configurations', 'histories'], 'All problem classes and algorithm choices, outlier shares up to about 40 percent, data sizes, outlier positions in the data, random streams; a bounded share of runs per algorithm may be unlucky.',
         TP + 'robust result is compared with the truth or the known outlier set.',
         ['src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/point_cloud/PointCloudSacProblem.cpp', 'include/opengv/sac/implementation/Ransac.hpp', 'include/opengv/sac/implementation/Lmeds.hpp', 'include/opengv/sac/implementation/MultiRansac.hpp'],
         [('robust estimation', 'sac::Ransac / sac::MultiRansac / sac::Lmeds with sac_problems')])
    prop('P21', 'Model refinement on inliers uses only them and does not make the model worse',
         'Refining a model on a set of inliers returns a finite rigid transformation that depends on the listed correspondences only, stays at the true model for noise-free inliers (closed-form refinements reach it from any start), and does not increase the sum of squared distances of noisy inliers noticeably. '
         'For multi-camera problems the inliers of each camera are matched to that camera.',
         ['inputs', 'configurations'], 'All problem classes, inlier subsets of any order, noise levels up to a percent, corrupted correspondences outside the inlier list, rotations other than half-turns (which the Cayley parameters of the non-linear refinement cannot represent).',
         TP + 'refined model is compared with its start or checked against corrupted non-inliers.',
         ['src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp', 'src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp', 'src/sac_problems/point_cloud/PointCloudSacProblem.cpp'],
         [('refinement', 'sac_problems::*::optimizeModelCoefficients')])
    prop('P22', 'Estimates transform consistently with frame, scale, order and role changes',
         'Rotating or translating the world or body frame, scaling the scene, permuting the correspondences and swapping the two viewpoints change the result of a solver exactly by the corresponding transformation of the estimate (for solution sets: of the solutions consistent with the data), up to numerical accuracy or, for iterative solvers, the accuracy of convergence. '
         'This also holds for noisy data wherever the algorithm is mathematically equivariant.',
         ['inputs'], 'All well-conditioned absolute, relative and point-cloud problems, single and multi-camera, noise-free and noisy, all rigid transformations, scale factors and permutations for which the algorithm is mathematically equivariant.',
         'Tests run each algorithm once; relations between runs are never examined.',
         ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp'],
         [('all solvers', 'opengv::absolute_pose / relative_pose / point_cloud / triangulation')])
    prop('P23', 'Restricting a solver to indices equals running it on those data alone',
         'Passing a list of correspondence indices to any solver gives the same result as building the data set from just those correspondences in that order, and using all data equals listing all indices; correspondences that are not listed have no influence. '
         'Minimal solvers called without indices use the first correspondences.',
         ['inputs', 'configurations'], 'All solvers with an index interface, all adapter kinds, index lists in any order and position, arbitrary garbage in the unlisted correspondences.',
         'Tests compare nothing; index overloads are run once with the first indices, where most indexing mistakes are invisible.',
         ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'include/opengv/Indices.hpp'],
         [('index abstraction', 'opengv::Indices'), ('index overloads', 'opengv::*::methods')])
    prop('P24', 'Solvers leave their inputs untouched and are repeatable',
         'No solver or scoring call changes the bearing vectors, points, weights, camera extrinsics, index lists or the pose priors held by the adapter, and repeating a call on finite data (with the same random numbers where it draws any), in whatever history of other calls, returns bit-identical results. '
         'Starting values passed by reference are only changed where they are documented as output.',
         ['inputs', 'histories'], 'All solvers, scoring, hypothesis and refinement calls over all adapters, and arbitrary interleavings of calls on the same adapter.',
         'Tests call each algorithm repeatedly only for timing and never compare the results or the inputs afterwards.',
         ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/point_cloud/methods.cpp', 'src/triangulation/methods.cpp', 'src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp', 'src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp', 'src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp'],
         [('pure solvers', 'opengv::*::methods'), ('adapters shared by problems', 'sac_problems')])
    prop('P25', 'No memory error or undefined behaviour on any well-formed input',
         'Every solver, adapter, consensus problem and robust estimator runs without out-of-bounds access, use of freed memory, failed internal assertion or other undefined behaviour for every well-formed input (at least the documented number of correspondences, unit bearing vectors, valid indices), however degenerate the geometry and whatever values duplicate, coincide, vanish or are not finite.',
         ['inputs', 'configurations', 'histories'], 'All public entry points, degenerate and hostile geometry (coincident points, identical bearings, zero motion, collinear or planar scenes, huge and tiny scales), minimal and uneven counts, empty cameras and all random streams.',
         'Tests run without sanitizers on one random generic scene each.',
         ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp', 'src/absolute_pose/modules/main.cpp', 'src/math/Sturm.cpp', 'include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp'],
         [('all public entry points', 'include/opengv')])
    prop('P26', 'Independent estimations may run concurrently',
         'Threads that estimate on their own adapters and problem objects, or that share an adapter they only pass to functions taking it as const, never race on shared state, and each obtains exactly the result it would obtain alone (given the same random numbers where a call draws any).',
         ['schedules', 'inputs'], 'All solvers, consensus problems and robust estimators run by several threads in arbitrary interleavings, including first-use initialisation.',
         'Tests are single-threaded.',
         ['src/absolute_pose/methods.cpp', 'src/relative_pose/methods.cpp', 'src/math/Sturm.cpp', 'include/opengv/sac/implementation/SampleConsensusProblem.hpp'],
         [('absence of shared mutable state', 'all sources')])
    prop('P27', 'Every call terminates, whatever the data',
         'Every solver, root finder and robust estimator returns within a bounded amount of computation for all well-formed inputs, including degenerate geometry, contradictory data and non-finite coefficients, and robust estimators return within their iteration limits even if no usable sample exists.',
         ['inputs', 'configurations'], 'All public entry points, degenerate and hostile inputs as in the memory-safety property, extreme thresholds, probabilities and iteration limits.',
         'Tests run one random generic scene each; the iterative loops (root polishing, adaptive trials, sample redraws, eigenvalue descent) are never driven into stagnation.',
         ['src/math/Sturm.cpp', 'src/relative_pose/modules/main.cpp', 'include/opengv/sac/implementation/Ransac.hpp', 'include/opengv/sac/implementation/Lmeds.hpp', 'include/opengv/sac/implementation/MultiRansac.hpp'],
         [('iterative loops', 'Sturm::findRoots2, eigensolver_main, ge_main, Ransac/Lmeds/MultiRansac')])
    prop('P28', 'Results never depend on uninitialised memory',
         'No result, branch or loop bound of any solver, adapter, consensus problem or robust estimator depends on uninitialised memory: the same finite inputs (and random numbers, where a call draws any) give bit-identical outputs whatever the previous content of stack and heap, and everything reported as a result has been computed.',
         ['inputs', 'histories'], 'All public entry points on generic, minimal and degenerate finite inputs whose squares neither overflow nor underflow, with stack and heap pre-filled by different patterns.',
         'Tests compare nothing; an uninitialised value that happens to be zero in a fresh process is invisible to them.',
         ['src/absolute_pose/modules/main.cpp', 'src/relative_pose/modules/main.cpp', 'src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp', 'include/opengv/sac/implementation/Ransac.hpp'],
         [('initialisation of working matrices and outputs', 'all sources')])
    prop('P29', 'Memory in use does not grow with the number of calls',
         'Every call releases all memory it allocates apart from its result, on success, on failure and on degenerate data alike, and building and destroying adapters, problems and estimators in any number returns the memory in use to where it was, so that an estimator can run for ever.',
         ['inputs', 'histories'], 'All solvers, adapters, consensus problems and robust estimators on generic and hostile data, repeated on the same and on fresh objects.',
         'Tests run once and exit; nobody looks at the heap.',
         ['src/absolute_pose/modules/Epnp.cpp', 'src/math/Sturm.cpp', 'src/math/gauss_jordan.cpp', 'src/relative_pose/modules/fivept_kneip/modules.cpp', 'include/opengv/math/Sturm.hpp'],
         [('ownership of raw pointers and work buffers', 'Epnp, Sturm, gauss_jordan')])
    prop('P30', 'The MATLAB gateway returns what the C++ interface computes',
         'For every method name the MATLAB gateway returns exactly the solution set, pose, rotation or essential matrices (and, for the robust methods, the inliers) that the C++ algorithm of that name computes on the same correspondences, in the documented array layout with 1-based int32 inlier indices. '
         'Data matrices are column-major 3xn (or 6xn with camera offset), indices are 1-based, a 3x1, 3x3 or 3x4 prior sets translation, rotation or both; calls that do not fit the signature of the method print a message and return nothing; the inputs stay unchanged and a call leaves no heap memory behind except its results.',
         ['inputs', 'configurations'], 'All 38 methods, all call signatures (with and without indices and prior), data sizes from the minimum up, noise, outliers, robust runs that find no model, and all malformed calls the gateway distinguishes.',
         'The gateway is not even compiled by the build or the tests, since it needs MATLAB.',
         ['matlab/opengv.cpp', 'src/absolute_pose/MACentralAbsolute.cpp', 'src/absolute_pose/MANoncentralAbsolute.cpp', 'src/relative_pose/MACentralRelative.cpp', 'src/relative_pose/MANoncentralRelative.cpp', 'src/point_cloud/MAPointCloud.cpp'],
         [('MATLAB gateway', 'mexFunction')])
    prop('P31', 'The Python module returns what the C++ interface computes',
         'Every function of the Python module returns exactly what the C++ algorithm of that name computes on the same bearing vectors, points and priors, as row-major arrays or lists of them, whatever memory layout or number type the argument arrays have. '
         'The robust functions use the algorithm named by the caller with the given threshold, iteration limit and probability (by default 1000 and 0.99); argument arrays stay unchanged, and arrays of a wrong shape raise instead of being read out of bounds.',
         ['inputs', 'configurations'], 'All 26 module functions, all algorithm names, positional, keyword and default arguments, C- and Fortran-ordered, strided, wider, single precision and integer arrays, data sizes from the minimum up, noise and outliers.',
         'The module is not compiled by the build or the tests here (pybind11 is an empty submodule), and its own test script compares few results.',
         ['python/pyopengv.cpp', 'python/types.hpp'],
         [('Python module', 'PYBIND11_MODULE(pyopengv)')])
