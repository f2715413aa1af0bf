"""What each property's check builds and runs (see DESIGN.md)."""
def st(src, variant='asan', quick=2000, thorough=40000, **kw):
    return dict(src=src, variant=variant, quick=quick, thorough=thorough, **kw)

CHECKS = {
 'C01': dict(
  stages=[st('c01.cpp', quick=20000, thorough=1000000, parts=[1, 2, 3, 4, 5])],
  rule='A case draws random boundary conditions and durations (1e-6 to 1e5 s, incl. single non-zero conditions and extremes) per order 1-5 and '
       'builds the spline in every supported way; non-trivial: not all conditions zero; distinct by (order, conditions).',
  must_see=['splines_order_1', 'splines_order_2', 'splines_order_4', 'recompute'],
  assumptions=['durations 1e-6 to 1e5 s']),

 'C02': dict(
  stages=[st('c02.cpp', quick=40000, thorough=2000000, parts=[1, 2, 3, 4, 5])],
  rule='A case draws coefficients and a duration for one order, evaluates at 12 times against an extended-precision polynomial, and calls every '
       'time-vector function on objects, references and matrix blocks; non-trivial: some coefficient non-zero; distinct by (order, coefficients, duration).',
  must_see=['evaluations', 'getDDiffTimeVector', 'block_arguments', 'getTimeVector_ref']),
 'C03': dict(
  stages=[st('c03.cpp', quick=20000, thorough=1000000, parts=[1, 2, 3, 4, 5])],
  rule='A case builds a spline, a container of 1-12 arbitrary segments and (order 5) fitted scalar and vector curves, and queries them at distances '
       'from one denormal to infinity before and after their range; distinct by coefficients and durations.',
  must_see=['spline', 'container', 'curves', 'outside_queries']),

 'C04': dict(
  stages=[st('c04.cpp', quick=30000, thorough=1500000, parts=[1, 2, 3, 4, 5]),
          st('c04.cpp', variant='rel', quick=160, thorough=1600, parts=[1, 2, 3, 4, 5], args=['--large']),
          st('c04.cpp', variant='rel', quick=1, thorough=1, parts=[1, 2, 3, 4, 5], args=['--probe'])],
  rule='A case fits one container (order 1-5, one of the three overloads, fresh or reused, 2-40 and 30-130 knots in several spacing and value patterns) and checks '
       'knots, durations, junction continuity, boundary derivatives or linear fallback; non-trivial: not constant; distinct by all inputs.',
  must_see=['junctions', 'linear_segments', 'boundary_accelerations', 'order_4', 'order_2', 'fits_of_64_knots_or_more', 'probes'],
  assumptions=['knot spacing 5 ms to 1000 s: with closer knots the QR solve of the fit drops conditions (see KNOWN_FINDINGS.txt)']),

 'C05': dict(
  stages=[st('c05.cpp', quick=50000, thorough=2500000, parts=[1, 2, 3, 4, 5])],
  rule='A case builds a container by fitting/adding/resetting in up to 3 rounds (1-80 segments of arbitrary, discontinuous polynomials, dyadic or arbitrary '
       'durations, sometimes zero) and looks up junctions, their floating-point neighbours, interior and outside times; distinct by durations.',
  must_see=['lookups', 'junction_lookups', 'resets', 'fitted_base']),
 'C06': dict(
  stages=[st('c06.cpp', quick=50000, thorough=2500000, parts=[1, 2, 3, 4, 5])],
  rule='A case is a random history of clock and content operations on one container, with a reference clock run in step and all clock observers '
       'compared after every operation; distinct by operation sequence.',
  must_see=['multi_segment_steps', 'append_after_end', 'jump_on_empty', 'refused_steps', 'active_index_checked', 'selfcheck_rejects', 'selfcheck_nan', 'selfcheck_negative_duration', 'fits']),
 'C07': dict(
  stages=[st('c07.cpp', quick=50000, thorough=2500000, parts=[1, 2, 3, 4, 5])],
  rule='A case puts content into a container and offers it 1-5 malformed knot lists (twelve kinds, every position, three overloads), sometimes followed by '
       'a valid fit compared with a fresh container; distinct by kinds, overloads and positions.',
  must_see=['no_knots', 'one_knot', 'repeated_time', 'decreasing_time', 'decreasing_last', 'decreasing_first', 'too_few_positions', 'too_many_positions', 'no_times', 'reversed_times', 'time_not_a_number', 'valid_fits_after_rejection']),
 'C08': dict(
  stages=[st('c08.cpp', quick=60000, thorough=3000000)],
  rule='A case fits a quintic scalar curve to 2-30 samples (checked at samples, ends and with 7-point stencils inside every interval), or compares a curve with '
       'its time- and value-shifted copies, or plays a list of 1-8 segment options against closed-form quintics; distinct by all inputs.',
  must_see=['short_option_segments', 'long_option_segments', 'samples', 'stencils', 'equivariance_queries', 'option_segments', 'options_on_used_curve', 'refused_orders']),
 'C09': dict(
  stages=[st('c09.cpp', quick=16000, thorough=800000)],
  rule='A case fits one vector curve (dimension 1, 2, 3 or 6) 1-3 times through any overload and compares every component, value and derivatives, with scalar '
       'curves fitted to it; distinct by dimension, overload and samples.',
  must_see=['fit_plain', 'fit_vectors', 'fit_lists', 'dim_1', 'dim_2', 'dim_3', 'dim_6', 'refits', 'varied_refits', 'similar_components', 'refused_orders']),
 'C10': dict(
  stages=[st('c10.cpp', quick=30000, thorough=1500000)],
  rule='A case is a random history (3-12 fits, failed fits, clears, clock use, evaluations, copies, assignments) on one container (order 1, 3, 4, 5), scalar or '
       'vector curve; after every fit/clear all observers are compared with a fresh object, copies with what they showed when made. Non-trivial: two or more fits.',
  must_see=['refit_equals_fresh', 'clear_equals_fresh', 'copies_unaffected', 'failed_fits', 'option_fits', 'variations', 'tiny_segments', 'container', 'scalar curve', 'vector curve']),
 'C11': dict(
  stages=[st('c11.cpp', variant='dbg', quick=20000, thorough=1000000)],
  rule='A case is a history of 4-60 operations on 1-3 managers (coefficients double or Vector3d; times from colliding pools, floating-point neighbours, extremes) '
       'with all observers compared with a reference map after every operation; non-trivial: at least three coefficients at once; distinct by operation sequence.',
  must_see=['inserts', 'overwrites', 'appends', 'updates', 'map_updates', 'batches', 'moves', 'removals_by_key', 'removals_by_time', 'clears', 'comparisons']),
 'C12': dict(
  stages=[st('c12.cpp', variant='dbg', quick=30000, thorough=1500000)],
  rule='A case builds a manager by a random history and queries brackets, ranges and windows at every coefficient time, its floating-point neighbours, in between and '
       'far outside, 1-6 times; non-trivial: two or more coefficients; distinct by contents.',
  must_see=['brackets', 'bracket_refusals', 'bracket_at_max', 'ranges', 'ranges_outside', 'ranges_reaching_beyond', 'windows', 'queries_on_empty', 'queries_on_single']),
 'C13': dict(
  stages=[st('c13.cpp', variant='dbg', quick=20000, thorough=1000000)],
  rule='A case is a history over up to 6 managers mixing modifications with copy construction, assignment, self-assignment, swap, destruction and near copies differing in '
       'one key, value or time; all managers compared with their reference after every step; non-trivial: a copy of two or more coefficients was made.',
  must_see=['copy_constructions', 'assignments', 'self_assignments', 'swaps', 'destructions', 'near_copies', 'equal_pairs', 'unequal_pairs']),
 'C14': dict(
  stages=[st('c14.cpp', variant='tsan', quick=320, thorough=4000),
          st('c14.cpp', variant='rel', quick=120, thorough=2500, serial=True, args=['--heavy']),
          st('c14.cpp', variant='rel', quick=1, thorough=1, serial=True, args=['--wrap'], timeout=500)],
  rule='A case lets 2-8 threads request keys directly and through managers of their own (free running, with pauses, or strictly alternating), under ThreadSanitizer and, '
       'with up to 160000 requests, in an optimised build; the recorded requests are checked offline. Non-trivial: the threads interleave more often than once each; distinct by '
       'thread sequence in key order (each is one observed interleaving). One run draws more keys than 32 bits count.',
  must_see=['keys', 'overlapping_requests', 'thread_switches_in_key_order', 'direct', 'through_managers', 'mixed_with_pauses', 'alternations'],
  assumptions=['the steady clock is consistent between cores']),
 'C16': dict(
  stages=[st('c16.cpp', variant='tsan', quick=8000, thorough=200000),
          st('c16h.cpp', variant='tsan', quick=6000, thorough=100000, kindr=True)],
  rule='A case shares one container (order 1-5), scalar, vector or Hermite curve or coefficient manager between 2-8 reader threads that run 20-80 const queries each in random order, '
       'while up to 2 threads work on unrelated objects; ThreadSanitizer watches all accesses and every result is compared bitwise with the single-threaded one; distinct by object and queries.',
  must_see=['container', 'scalar curve', 'vector curve', 'coefficient manager', 'position Hermite curve', 'rigid-body Hermite curve', 'concurrent_queries', 'cases_with_unrelated_threads', 'empty_objects'],
  assumptions=['kindr is replaced by the stand-in in shim/ (Hermite curves only)']),
 'C17': dict(
  stages=[st('c17.cpp', quick=30000, thorough=1500000)],
  rule='A case writes 1-300 rows of 1-20 columns of arbitrary finite doubles (random bit patterns, extremes, time stamps) or strings to a new or existing file in a scratch '
       'directory and loads it back into possibly non-empty arguments, comparing bit for bit; distinct by contents.',
  must_see=['time_vector_roundtrips', 'string_roundtrips', 'time_time_vector_loads', 'overwritten_files', 'files_with_comma_facet']),
 'C15': dict(
  stages=[st('c15.cpp', variant='dbg', quick=40000, thorough=2000000, parts=[1, 2, 3, 4, 5], leaks=True),
          st('c15.cpp', variant='plain', quick=2000, thorough=100000, parts=[1, 2, 3, 4, 5], runner='valgrind', timeout=400),
          st('c15h.cpp', variant='dbg', quick=8000, thorough=400000, kindr=True, leaks=True),
          st('c15h.cpp', variant='plain', quick=400, thorough=20000, kindr=True, runner='valgrind', timeout=400)],
  rule='A case is a random history over one kind of object - containers and splines of one order, scalar/vector curves, Hermite and slerp curves, coefficient managers, CSV files - including empty objects, invalid '
       'knot lists, copies, moves and destruction, run under AddressSanitizer + UBSan + LeakSanitizer with debug containers, and (fewer) under memcheck; every returned number is inspected; '
       'distinct by operation sequence.',
  must_see=['container_histories', 'curve_histories', 'manager_histories', 'csv_histories', 'empty_evaluations', 'fits', 'copies', 'moves', 'time_vectors', 'e3_histories', 'se3_histories', 'slerp_histories', 'periodic_fits', 'exports', 'transformations', 'extends', 'empty_curves'],
  assumptions=['NaN inputs are not used', 'kindr is replaced by the stand-in in shim/ (Hermite and slerp curves only)']),
 'C23': dict(
  stages=[st('c23.cpp', quick=30000, thorough=1500000, cflags=['-DNDEBUG']),
          st('c23h.cpp', quick=8000, thorough=400000, kindr=True, cflags=['-DNDEBUG'])],
  rule='A case builds a manager by a random history (or a CSV file, a container, a Hermite or slerp curve) and commits one documented misuse in a forked process, whose end (fatal check, exception, normal return, '
       'sanitizer diagnosis) is observed; distinct by misuse kind, object size and offending time or index.',
  must_see=['remove_absent_key', 'remove_absent_time', 'update_absent_key', 'get_absent_key', 'get_time_of_absent_key', 'append_not_after_end', 'append_at_max_time', 'move_onto_occupied_time',
            'insert_lists_of_different_length', 'batch_update_0', 'batch_update_1', 'batch_update_2', 'batch_update_3', 'batch_update_4', 'batch_update_5', 'update_map_with_absent_key', 'missing_output_argument',
            'window_outside_curve', 'window_of_empty_curve', 'csv_unreadable', 'csv_empty', 'csv_too_narrow', 'csv_short_row', 'csv_write_lengths', 'csv_write_nothing', 'csv_write_dimensions', 'csv_write_empty',
            'csv_missing_output', 'segment_index_out_of_range', 'csv_unwritable', 'csv_disk_full', 'hermite_fit_lengths', 'periodic_fit_lengths', 'periodic_fit_of_too_few', 'slerp_lengths',
            'hermite_extend_into_the_past', 'slerp_extend_into_the_past', 'missing_times_output', 'curve_file_unwritable', 'not_implemented', 'values_without_times'],
  assumptions=['built with NDEBUG: assert() does not count as an error path', 'kindr is replaced by the stand-in in shim/ (Hermite and slerp curves only)']),
 'C18': dict(
  stages=[st('c18.cpp', quick=24000, thorough=1200000, kindr=True)],
  rule='A case fits one curve 1-3 times to 1-20 position knots (with or without end velocities) and compares value and derivatives at knots, their floating-point neighbours and inside with the '
       'Catmull-Rom cubic in extended precision, plus refusals outside and on empty curves; non-trivial: three or more knots; distinct by knots.',
  must_see=['evaluations_inside', 'plain_fits', 'fits_with_derivatives', 'refits', 'empty_curves', 'clears', 'single_knot', 'refusals', 'fit_keys'],
  assumptions=['kindr is replaced by the stand-in in shim/']),
 'C19': dict(
  stages=[st('c19.cpp', quick=32000, thorough=1600000, kindr=True)],
  rule='A case fits a periodic Euclidean or rigid-body curve to 2-16 knots with coinciding ends and compares the end velocities with the slope across the seam and everything else with the non-periodic '
       'fit; non-trivial: three or more knots; distinct by knots.',
  must_see=['e3_fits', 'se3_fits', 'seams', 'se3_angular_seams', 'se3_inside_rotations', 'fit_keys'],
  assumptions=['kindr is replaced by the stand-in in shim/']),
 'C20': dict(
  stages=[st('c20.cpp', quick=16000, thorough=800000, kindr=True)],
  rule='A case fits one curve 1-2 times to 1-12 (rarely 30-200) poses (random, close, repeated, half turns, sign-flipped quaternions) and checks knots, norms, twists at knots, finite differences and the closed form inside every segment and '
       'left equivariance; non-trivial: three or more knots; distinct by knots.',
  must_see=['knot_twists', 'stencils', 'rotations_between', 'equivariance', 'moved_curves', 'large_curves', 'plain_fits', 'fits_with_derivatives', 'refits', 'refusals', 'empty_curves', 'single_knot', 'ends', 'fit_keys'],
  assumptions=['kindr is replaced by the stand-in in shim/', 'rotations within 0.02 rad of a half turn are excluded from slope and equivariance checks']),
 'C21': dict(
  stages=[st('c21.cpp', variant='dbg', quick=16000, thorough=800000, kindr=True)],
  rule='A case extends a Hermite curve through its policy (group 1-6, period 0-3 s, single or several measurements) or a slerp curve (ratio 1-6) 2-40 times, comparing the kept coefficients with a '
       'reference after every call; distinct by configuration and times.',
  must_see=['completed_groups', 'temporary', 'hermite_extends', 'slerp_extends', 'slerp_moves', 'slerp_ratio_one', 'slerp_initial_batches', 'slerp_clears', 'slerp_refits', 'hermite_clears', 'angular_velocities', 'slerp_batches', 'slerp_sets', 'fit_keys'],
  assumptions=['kindr is replaced by the stand-in in shim/', 'poses of a slerp curve are not observable (its evaluation is not implemented), only its times']),
 'C22': dict(
  stages=[st('c22.cpp', quick=16000, thorough=800000, kindr=True, ros=['RosJointTrajectoryInterface.cpp', 'RosMultiDOFJointTrajectoryInterface.cpp', 'RosMultiDOFJointTrajectoryTranslationInterface.cpp'])],
  rule='A case loads 1-5 messages (0-6 joints, 0-10 points, look-alike names, joint present anywhere or absent) into one of the three interfaces and compares with a curve fitted directly; '
       'non-trivial: at least one message contained the joint; distinct by times and joint index.',
  must_see=['joint', 'multi_dof', 'translation', 'absent_joint_on_curve', 'nameless_messages', 'later_joint', 'replaced', 'incomplete_points', 'many_joints', 'single_point_messages', 'messages_without_points', 'negative_stamps'],
  assumptions=['kindr, kindr_ros, roscpp and trajectory_msgs are replaced by the stand-ins in shim/']),
 'C24': dict(
  stages=[st('c24.cpp', quick=16000, thorough=400000, kindr=True)],
  rule='A case fits a Euclidean or rigid-body Hermite curve (1-500 knots) and exports it with writeEvalToFile (1-3000 samples), saveCurveTimesAndValues or saveCurveAtTimes (any order, repeated times) '
       'to a new or existing scratch file, which is read back and compared with evaluating the curve; also unwritable paths, empty curves and times outside the curve (forked); distinct by knots.',
  must_see=['eval_files', 'coefficient_files', 'chosen_time_files', 'unwritable_files', 'empty_curves', 'save_outside_range', 'e3_curves', 'se3_curves'],
  assumptions=['kindr is replaced by the stand-in in shim/', 'writeEvalToFile prints six decimals']),
 'C25': dict(
  stages=[st('c25.cpp', quick=40000, thorough=400000, kindr=True)],
  rule='A case prints an empty or fitted Hermite, slerp or quintic scalar curve (0-300 knots) with standard output captured and looks for the numbers it has to show, in order, in the text; '
       'then the curve is compared with what it was; non-trivial: two or more knots; distinct by knots.',
  must_see=['e3_prints', 'se3_prints', 'slerp_prints', 'scalar_prints', 'empty_curves', 'printed_numbers', 'made_up_titles', 'scalar_end_conditions', 'close_knots'],
  assumptions=['kindr is replaced by the stand-in in shim/ (its output operators included)', 'numbers are printed to five significant digits at least; layout and wording are not looked at']),
}
