"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from registry import CHECKS
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a['observe_at'] = observe
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


TESTS_PRINT = ('The bundled tests print one random example per algorithm and compare nothing (the process exit code is 0 whatever is computed), so no value of the ')

prop('P01', 'Minimal absolute-pose solvers contain the true pose in their solution set',
     'For two points with known rotation, three points (both the Kneip and the Gao solver) and three points seen by a multi-camera rig (generalized P3P), the returned solution set contains the camera or rig pose that generated the noise-free bearings, for every non-degenerate configuration. '
     'Every returned solution is a finite rigid transformation mapping body to world coordinates, and every solution of the two solvers Kneip and Gao maps the three world points onto the given bearing lines.',
     ['inputs'], 'All poses (any rotation, half turns for the central solvers included), scene scales, depths, point triplets in general position and camera rigs; for the generalized solver a small share of numerically unlucky configurations may be missed.',
     TESTS_PRINT + 'quantified scenes is ever checked; two random scenes are run.',
     ['src/absolute_pose/methods.cpp', 'src/absolute_pose/modules/main.cpp', 'include/opengv/absolute_pose/methods.hpp'],
     [('two-point position solver', 'absolute_pose::p2p'), ('three-point solvers', 'absolute_pose::p3p_kneip / p3p_gao'), ('generalized three-point solver', 'absolute_pose::gp3p')])

prop('P02', 'n-point absolute-pose solvers recover the exact pose and degrade gracefully',
     'From n noise-free correspondences in general position, the n-point solvers (EPnP for a single camera, UPnP for single and multi-camera systems, generalized PnP for multi-camera systems) return the pose that generated them; UPnP returns it among its solutions. '
     'With small bearing noise the error of the returned pose stays in proportion to the noise and every returned pose is a proper rigid transformation.',
     ['inputs'], 'All poses, scene scales and depth distributions, planar and non-planar points, n from the minimum of the algorithm (6 for EPnP/GPnP, 3 for UPnP) to hundreds, any number of cameras and any noise level up to about a percent.',
     TESTS_PRINT + 'quantified scenes is ever checked; one scene per algorithm is run.',
     ['src/absolute_pose/methods.cpp', 'src/absolute_pose/modules/Epnp.cpp', 'src/absolute_pose/modules/main.cpp', 'src/absolute_pose/modules/gpnp1/modules.cpp', 'src/absolute_pose/modules/upnp2.cpp', 'src/absolute_pose/modules/upnp4.cpp'],
     [('EPnP', 'absolute_pose::epnp'), ('generalized PnP', 'absolute_pose::gpnp'), ('UPnP', 'absolute_pose::upnp')])

prop('P03', 'Non-linear absolute-pose refinement keeps the optimum and never worsens the cost',
     'Non-linear refinement of an absolute pose started at the true pose of noise-free data returns that pose, and started close to it converges to it. '
     'On noisy data the returned pose is a rigid transformation whose sum of squared reprojection costs over the selected correspondences is not larger than that of the starting pose and cannot be lowered noticeably by small changes of the pose.',
     ['inputs'], 'All poses whose rotation is not a half turn, scene scales, single and multi-camera systems, n >= 6, starting errors up to about 0.05 (rad / relative length) and subsets of the correspondences.',
     TESTS_PRINT + 'refined pose is compared with its starting point or with the optimum.',
     ['src/absolute_pose/methods.cpp'], [('Levenberg-Marquardt refinement of the reprojection cost', 'absolute_pose::optimize_nonlinear')])

prop('P04', 'Essential-matrix solvers contain the true essential matrix',
     'From noise-free correspondences of a single moving camera in general position, the five-point solvers (Nister, Stewenius), the seven-point and the eight-point solver return a set that contains the essential matrix of the true motion up to scale and sign, and the five-point rotation solver returns a set that contains the true rotation. '
     'Every essential matrix returned satisfies the epipolar constraints of the correspondences it was computed from, every solution of the five-point solvers is a valid essential matrix (two equal singular values, one zero), and every rotation is a proper rotation matrix.',
     ['inputs'], 'All translations and rotations, scene depths and fields of view, n from the minimum upwards; for the five-point rotation solver rotations up to about 2.5 rad with a small share of numerically unlucky configurations.',
     TESTS_PRINT + 'quantified motions is ever checked; one random scene is run.',
     ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp', 'src/relative_pose/modules/fivept_nister/modules.cpp', 'src/relative_pose/modules/fivept_stewenius/modules.cpp', 'src/relative_pose/modules/fivept_kneip/code.cpp', 'src/relative_pose/modules/fivept_kneip/modules.cpp'],
     [('five-point solvers', 'relative_pose::fivept_nister / fivept_stewenius / fivept_kneip'), ('linear solvers', 'relative_pose::sevenpt / eightpt')])

prop('P05', 'Special-case relative-pose solvers recover translation direction and rotation',
     'With a known rotation the two-point solver returns the true translation direction including its sign; for purely rotational motion the two-point and n-point rotation solvers return the true rotation. '
     'The eigenvalue-based rotation solver started close to the true rotation converges to it and reports the matching translation direction (sign included) and the eigenvectors and (descending, up to a common scale) eigenvalues of the normal matrix, the last of which belong to the translation; with noisy bearings it stops close to a rotation that makes the smallest eigenvalue (of the weighted normal matrix, when weights are used) minimal, and correspondences of weight zero have no influence when weights are used.',
     ['inputs'], 'All motions (any rotation for the closed forms), scene depths, n from the minimum upwards, subsets; the iterative solver started within 0.01 rad at rotations up to 0.5 rad.',
     TESTS_PRINT + 'quantified motions is ever checked; one random scene is run.',
     ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp', 'src/relative_pose/modules/eigensolver/modules.cpp'],
     [('translation from known rotation', 'relative_pose::twopt'), ('pure rotation', 'relative_pose::twopt_rotationOnly / rotationOnly'), ('eigensolver', 'relative_pose::eigensolver')])

prop('P06', 'Multi-camera relative-pose solvers recover the motion with metric scale',
     'For a multi-camera rig observing noise-free correspondences in general position, the seventeen-point solver returns the true rotation and the true (metric) translation, the six-point solver returns a set of rotations that contains the true rotation, and the generalized eigensolver started close to the true rotation converges to it and reports the true metric translation together with the eigenvectors and (descending, up to a common scale) eigenvalues of the generalized normal matrix, the last of which belong to the translation. Every rotation returned is a proper rotation matrix.',
     ['inputs'], 'All motions, rigs of 2 to 8 cameras with distinct offsets, n from the minimum upwards; for the six-point solver and the generalized eigensolver camera-crossing correspondences and moderate rotations with a bounded share of numerically unlucky configurations.',
     TESTS_PRINT + 'quantified motions is ever checked; one random scene is run.',
     ['src/relative_pose/methods.cpp', 'src/relative_pose/modules/main.cpp', 'src/relative_pose/modules/ge/modules.cpp', 'src/relative_pose/modules/sixpt/modules2.cpp'],
     [('linear generalized solver', 'relative_pose::seventeenpt'), ('minimal generalized solver', 'relative_pose::sixpt'), ('generalized eigensolver', 'relative_pose::ge')])

prop('P07', 'Non-linear relative-pose refinement keeps the optimum and never worsens the cost',
     'Non-linear refinement of a relative pose started at the true pose of noise-free data returns that pose, and started close to it converges to it (translation up to scale for a single camera). '
     'On noisy data the returned pose is a rigid transformation whose sum of squared reprojection costs over the selected correspondences is not larger than that of the starting pose.',
     ['inputs'], 'All motions with non-zero translation, scene scales, single and multi-camera systems, n >= 6, starting errors up to about 0.05 and subsets of the correspondences.',
     TESTS_PRINT + 'refined pose is compared with its starting point or with the optimum.',
     ['src/relative_pose/methods.cpp', 'src/triangulation/methods.cpp'], [('Levenberg-Marquardt refinement of the reprojection cost', 'relative_pose::optimize_nonlinear')])

prop('P08', 'Triangulation returns the observed point',
     'Both triangulation methods return, in the frame of the first viewpoint, the point whose noise-free bearings are given, for every relative pose and every point with a non-vanishing parallax angle, also where the viewing lines meet behind a viewpoint. '
     'With noisy bearings the midpoint method returns the midpoint of the shortest segment between the two viewing lines, and the linear method a point that minimises the homogeneous algebraic error.',
     ['inputs'], 'All relative poses, scene scales, points in front of or behind either viewpoint, every index of the data set, noise up to a few percent, unrelated bearings.',
     TESTS_PRINT + 'triangulated point is compared with the true one.',
     ['src/triangulation/methods.cpp', 'include/opengv/triangulation/methods.hpp'], [('linear triangulation', 'triangulation::triangulate'), ('midpoint triangulation', 'triangulation::triangulate2')])

prop('P09', 'Point-cloud alignment returns the optimal rigid transformation',
     'Closed-form alignment of two point clouds returns a proper rigid transformation from the second frame to the first that minimises the sum of squared distances of corresponding points, hence the exact transformation for noise-free data, also for planar clouds, three points, reflected or noisy clouds. '
     'Non-linear alignment started at or near that optimum returns a transformation that is not worse than its starting point and ends close to that optimum.',
     ['inputs'], 'All transformations, cloud sizes from three points upwards, cloud shapes, scales and offsets, noise levels, mirrored clouds, index subsets.',
     TESTS_PRINT + 'transformation is compared with the true or optimal one, and a degenerate cloud is never tried.',
     ['src/point_cloud/methods.cpp', 'src/math/arun.cpp', 'include/opengv/point_cloud/methods.hpp'], [('closed-form alignment', 'point_cloud::threept_arun'), ('orthogonal Procrustes step', 'math::arun'), ('non-linear alignment', 'point_cloud::optimize_nonlinear')])

prop('P10', 'Closed-form cubic and quartic root finders return the roots of the polynomial',
     'The closed-form cubic and quartic solvers return, for every polynomial with real coefficients and non-zero leading coefficient, values that contain all its real roots to an accuracy matching the conditioning of the root, in any order and with multiplicity, never NaN. '
     'The cubic solver returns three values and the quartic solver four; non-real roots are represented by the real part of the complex root.',
     ['inputs'], 'All real cubic and quartic polynomials of moderate coefficient range, including multiple roots, biquadratics, roots at zero, scaled and shifted variants.',
     'The single test solves one fixed quartic and prints the result.',
     ['src/math/roots.cpp', 'include/opengv/math/roots.hpp'], [('closed-form roots', 'math::o3_roots / math::o4_roots')])

prop('P11', 'Sturm-sequence root bracketing finds every real root exactly once',
     'For every polynomial with real coefficients, non-zero leading coefficient and simple, separated real roots, the Sturm solver returns each real root exactly once, to the requested accuracy, and nothing else; it always terminates. '
     'The number of sign changes it reports at a point decreases across an interval by exactly the number of distinct real roots inside, and its root bound encloses all real roots.',
     ['inputs'], 'All real polynomials of degree 1 to 12 with separated real roots, with any number of additional complex roots, any common scale factor and roots of either sign and magnitude.',
     'The single test solves one fixed polynomial and prints the result.',
     ['src/math/Sturm.cpp', 'include/opengv/math/Sturm.hpp'], [('Sturm chain and bracketing', 'math::Sturm'), ('polishing', 'math::Sturm::findRoots2 / polishRoots')])

prop('P12', 'Rotation parametrisations are exact inverses and always proper rotations',
     'Conversion of a Cayley vector or unit quaternion to a matrix yields a proper rotation (with the unscaled variants proportional to it), conversion back returns the same rotation for every rotation (half turns excepted for Cayley), and the directions agree with the textbook definitions. '
     'The orthogonal Procrustes step returns the proper rotation maximising the correlation for every 3x3 matrix, and the Gauss-Jordan elimination returns the reduced row echelon form.',
     ['inputs'], 'All rotations including identity, rotations about coordinate axes, tiny and near half-turn rotations, perturbed rotation matrices; all 3x3 correlation matrices including rank-deficient and reflected ones; all elimination matrices of full rank.',
     'No test calls these conversions directly.',
     ['src/math/cayley.cpp', 'src/math/quaternion.cpp', 'src/math/arun.cpp', 'src/math/gauss_jordan.cpp'], [('Cayley parametrisation', 'math::rot2cayley / cayley2rot / cayley2rot_reduced'), ('quaternions', 'math::rot2quaternion / quaternion2rot'), ('Procrustes', 'math::arun'), ('elimination', 'math::gauss_jordan')])

prop('P13', 'Adapters hand out exactly the data they were built from',
     'Every adapter returns for every correspondence exactly the bearing vectors, points, weights and camera extrinsics of its underlying containers or arrays (live, after later changes of them as well), with identity extrinsics for central systems and the weight 1 where no weights exist, and the correct number of correspondences. '
     'Prior rotations and translations given at construction or by the setters are returned unchanged by the getters, and default to identity and zero; multi-camera adapters translate between (camera, correspondence) pairs and serialized indices as exact inverses.',
     ['inputs', 'configurations', 'histories'], 'All adapter kinds (central, noncentral, multi-camera, array-backed, absolute, relative, point cloud), all container sizes including cameras without correspondences, all indices and any sequence of setter calls.',
     'Tests only use adapters through algorithms on one fixed rig; empty cameras, uneven counts and the conversion functions are not exercised.',
     ['include/opengv/absolute_pose/AbsoluteAdapterBase.hpp', 'include/opengv/relative_pose/RelativeMultiAdapterBase.hpp', 'src/absolute_pose/CentralAbsoluteAdapter.cpp', 'src/absolute_pose/NoncentralAbsoluteAdapter.cpp', 'src/absolute_pose/NoncentralAbsoluteMultiAdapter.cpp', 'src/relative_pose/CentralRelativeAdapter.cpp', 'src/relative_pose/NoncentralRelativeAdapter.cpp', 'src/relative_pose/CentralRelativeMultiAdapter.cpp', 'src/relative_pose/NoncentralRelativeMultiAdapter.cpp', 'src/point_cloud/PointCloudAdapter.cpp', 'src/relative_pose/CentralRelativeWeightingAdapter.cpp', 'src/relative_pose/MACentralRelative.cpp', 'src/relative_pose/MANoncentralRelative.cpp', 'src/relative_pose/MANoncentralRelativeMulti.cpp', 'src/absolute_pose/MACentralAbsolute.cpp', 'src/absolute_pose/MANoncentralAbsolute.cpp', 'src/point_cloud/MAPointCloud.cpp'],
     [('adapter getters', 'all *Adapter.cpp'), ('index serialization', '*MultiAdapter::convertMultiIndex / multiPairIndex / multiCorrespondenceIndex')])

prop('P14', 'RANSAC returns the best hypothesis it evaluated and its exact inliers',
     'A successful RANSAC run returns the hypothesis with the most inliers among all it evaluated (the earliest on ties), the sample that generated it, and as inliers exactly the data whose distance is below the threshold; a run without any hypothesis reports failure and no inliers. '
     'It never evaluates more hypotheses than the maximum number of iterations, gives up after ten times as many useless samples, and does not stop before the number of trials that the requested probability demands for the best consensus so far. '
     'These hold equally when the same object is used for several runs.',
     ['inputs', 'histories', 'configurations'], 'All sample consensus problems (any sizes, sample sizes, distances, hypothesis failures), thresholds, probabilities, iteration limits, random streams, and repeated runs with changed settings or data.',
     'Tests run a handful of random scenes once and print the outcome; no test observes the evaluated hypotheses or the stopping rule.',
     ['include/opengv/sac/implementation/Ransac.hpp', 'include/opengv/sac/implementation/SampleConsensusProblem.hpp', 'include/opengv/sac/SampleConsensus.hpp', 'include/opengv/sac/implementation/SampleConsensus.hpp'],
     [('RANSAC loop', 'sac::Ransac::computeModel'), ('inlier selection and counting', 'SampleConsensusProblem::selectWithinDistance / countWithinDistance')])

prop('P15', 'LMedS returns the hypothesis with the least median of squared distances',
     'A successful LMedS run returns the hypothesis with the least median of squared distances among all it evaluated (the earliest on ties, mean of the two middle values for even counts, negative distances count as zero), the sample that generated it, and as inliers exactly the data within the threshold. '
     'It evaluates the requested number of hypotheses, gives up after ten times as many useless samples, and a run without any usable hypothesis reports failure and no inliers, also when the object is reused.',
     ['inputs', 'histories', 'configurations'], 'All sample consensus problems (any sizes, sample sizes, distances, hypothesis failures), thresholds, iteration limits, random streams, and repeated runs with changed settings.',
     'Tests run a few random scenes once and print the outcome; no test observes the evaluated hypotheses.',
     ['include/opengv/sac/implementation/Lmeds.hpp', 'include/opengv/sac/implementation/SampleConsensusProblem.hpp'], [('LMedS loop', 'sac::Lmeds::computeModel'), ('median', 'Lmeds::computeMedian')])

prop('P16', 'Multi-camera RANSAC returns its best hypothesis and exact per-camera inliers',
     'The multi-camera RANSAC returns the hypothesis with the most inliers over all cameras among all it evaluated (the earliest on ties), the per-camera samples that generated it and, camera by camera, exactly the data whose distance is below the threshold; it obeys the same iteration limits, stopping rule and failure reporting as the single-problem version, also when reused. '
     'Every drawn sample has the demanded number of distinct data of each camera, and within a camera all data are drawn equally often.',
     ['inputs', 'histories', 'configurations'], 'All multi-camera sample consensus problems (any camera count, per-camera sizes and sample sizes, zero included), thresholds, probabilities, iteration limits, random streams and repeated runs.',
     'Tests run one random rig with equal cameras and print the outcome; no test observes hypotheses or samples.',
     ['include/opengv/sac/implementation/MultiRansac.hpp', 'include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp', 'include/opengv/sac/implementation/MultiSampleConsensus.hpp'],
     [('multi-camera RANSAC loop', 'sac::MultiRansac::computeModel'), ('per-camera sampling', 'MultiSampleConsensusProblem::getSamples / drawIndexSample')])

prop('P17', 'Minimal samples are distinct, uniform, suitable and reproducible',
     'Every sample drawn has the demanded number of pairwise distinct indices from the data set in use, passes the problem\'s suitability test, and every subset is equally likely. '
     'With too few data no sample is returned and the caller is told to stop; after the allowed number of unsuitable draws an empty sample is returned. '
     'Without a requested random seed two problems over equally large data draw identical sequences, whatever other problems exist.',
     ['inputs', 'histories', 'configurations'], 'All data sizes, index subsets, sample sizes, suitability tests and sequences of draws with changes of the data set in between.',
     'No test looks at a drawn sample.',
     ['include/opengv/sac/implementation/SampleConsensusProblem.hpp', 'include/opengv/sac/SampleConsensusProblem.hpp', 'include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp'], [('drawing', 'SampleConsensusProblem::getSamples / drawIndexSample'), ('random source', 'SampleConsensusProblem::rnd')])

import props_more  # noqa: E402  (appends P18..)
props_more.add(prop)


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        i = p['id']
        if i not in CHECKS:
            continue
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level='exploration', level_note=c['note']))
    na = [dict(property=p['id'], reason=props_more.NA.get(p['id'], 'no monitor built yet')) for p in P if p['id'] not in CHECKS]
    man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: every monitor observes the public API, sanitizer runtimes or problem objects supplied by the harness. '
                     'Python and Matlab bindings cannot be built offline (pybind11 submodule empty, mex.h absent) and are outside every claim. '
                     'known_findings.txt lists repaired defects (fixed:) and recorded ones (known:).')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print('%d properties, %d claimed' % (len(P), len(checks)))


if __name__ == '__main__':
    main()
