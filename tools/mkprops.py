#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; both are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'The only test clips one fixed drawing with one operation and one fill rule and compares the picture.'
def A(files, *mech, observe=('the output of process()',), state=()):
    return {'files': files, 'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state], 'hook_needed': None}
VAT = 'src/src/vatti.cpp'; RM = 'src/src/rmath.cpp'; RV = 'src/src/river.cpp'; PA = 'src/src/path.cpp'; H = 'src/include/river.h'; SL = 'src/src/scan_line.h'; DU = 'debug_util/debug_util.cpp'
SWEEP = [('scan-beam sweep', VAT + ': process, do_top_of_scanbeam, insert_local_minima_to_ael'), ('winding counts and contribution', VAT + ': calc_windcnt, is_contributing, update_ouput_bound')]
PROPS = [
 ('C01', 'Straight-edged clipping yields exactly the set-theoretic region',
  'For any subject and clip made of straight-edged contours in general position (no two features closer than rounding), any of intersection, union, difference and exclusive-or and any of the four fill rules, a point is inside the output exactly when the operation applied to "inside subject" and "inside clip" under that fill rule says so. This holds for concave, self-crossing, nested, disjoint, horizontal-edged and empty or degenerate contours, at any usual scale and position.',
  ['inputs', 'configurations'], 'every straight-edged drawing in general position x 4 operations x 4 fill rules', T + ' The region depends on an unbounded set of crossing patterns, local minima orders and winding combinations.',
  A([VAT, 'src/src/vatti.h', SL], *SWEEP, ('crossing detection and breaking', VAT + ': process_intersect; ' + SL), ('active edge order', VAT + ': insert_into_ael, is_valid_ael_order, resort_ael'))),
 ('C02', 'Clipping with cubic curves yields exactly the set-theoretic region',
  'The same region guarantee as for straight edges holds when contours contain cubic Bezier curves, alone or mixed with straight edges, in general position: circles, ellipses, S-shaped, looping and nearly flat curves, crossing lines and each other any number of times. No part of the region is lost, added or cut off next to a curve.',
  ['inputs', 'configurations'], 'every drawing with curves in general position x 4 operations x 4 fill rules', T,
  A([VAT, RM], *SWEEP, ('curves broken into y-monotone pieces', VAT + ': read_cubicto'), ('curve intersections', RM + ': intersect'), ('curve order on a scan line', VAT + ': is_valid_ael_order, update_intermediate_curr_x; src/src/segment.cpp'))),
 ('C03', 'The region is right for touching, shared and coincident edges too',
  'The region guarantee also holds for drawings whose boundaries meet exactly: contours that share vertices, whole straight edges or whole curves, contours repeated or reversed inside one operand or across both, with and without curves, adjacent cells with straight or curved borders (as in grids, maps and jigsaws), vertices lying on horizontal or vertical edges, overlapping horizontal and vertical edges, and contours that run there and back.',
  ['inputs', 'configurations'], 'every straight-edged drawing whose contacts are exact x 4 operations x 4 fill rules', T + ' Coincidence is where sweep algorithms fail, and no test has any.',
  A([VAT, SL, RM], *SWEEP, ('coincident edges cancel', VAT + ': update_ouput_bound, recalc_windcnt'), ('exact break points', VAT + ': process_intersect; ' + RM + ': intersect'))),
 ('C04', 'Output contours are closed, consistently oriented and non-overlapping',
  'Whatever is clipped, the output is a sequence of contours each beginning with a move and returning exactly, bit for bit, to its start, made of at least two segments, where every segment starts where the previous one ended, and all coordinates are finite and inside the bounding box of the input. The winding number of the whole output is 0 outside the result region and 1 inside it (-1 for the negative rule), so the output can be read with any fill rule that suits its orientation and holes run opposite to their surroundings.',
  ['inputs', 'configurations'], 'every drawing (general position or exact contacts, with or without curves) x operations x rules', T,
  A([VAT], ('output building', VAT + ': build_output, write_path, new_output, join_output, close_output'), ('orientation by filled side', VAT + ': new_output'))),
 ('C05', 'Output pieces are pieces of the input: lines stay lines, curves stay curves',
  'Every straight segment of the output lies on an input edge and every curve of the output is a sub-arc of one input curve: curves are never flattened, bulged, reversed in shape or replaced by chords, and no line appears where the input had none.',
  ['inputs', 'configurations'], 'every drawing x operations x rules', T + ' The picture comparison covers one drawing and rounds what it prints.',
  A([VAT, RM, 'src/src/segment.h', 'src/src/segment.cpp'], ('segment copying and reversal', VAT + ': copy_seg, write_path'), ('curve splitting', RM + ': bezier_cubic::split, split_y; ' + VAT + ': process_intersect, read_cubicto'))),
 ('C06', 'The result does not depend on how the same drawing is presented',
  'Handing the same contours over as path objects, as one path with several moves, or through a read callback gives bit-identical output. Reordering contours, choosing another start vertex, closing explicitly or not, adding zero-length segments or empty contours, swapping the operands of a symmetric operation, reversing contours (with positive and negative exchanged), mirroring, turning by 90 degrees and scaling by powers of two give the same region with the same area and boundary length.',
  ['inputs', 'configurations'], 'every drawing x every such change of presentation', T,
  A([VAT, PA, H], ('input reading', VAT + ': add_path, read_moveto, read_lineto, read_cubicto, set_segment, add_local_min'), ('path traversal', PA + ': path::traverse'))),
 ('C07', 'A processor can be fed and queried in any order, any number of times',
  'For any history of add and process calls on one processor, each process call gives the result of everything added so far, the same as a fresh processor given the same contours, and asking again with nothing added gives the same bits. Process appends to the output container without touching what is there, the "none" operation gives no output, inputs are copied when added, and other processors used in between have no influence.',
  ['histories'], 'every interleaving of add_path and process on one or several processors', 'The test makes one processor and calls process once.',
  A([VAT, 'src/src/processor.cpp'], ('clean state per call', VAT + ': clipper::reset, process'), ('retained contours', VAT + ': add_path, insert_vertex_list'))),
 ('C08', 'Separate processors are independent across threads; results are deterministic',
  'Threads that each use their own processor, also on shared read-only input paths, and that parse text, traverse paths or call the geometry functions at the same time, never race on memory and each get bit for bit the result of the same calls made alone. The same calls give the same bits whatever the state of heap and stack, so results never depend on addresses or uninitialised memory.',
  ['schedules', 'histories'], 'every schedule of threads with distinct processors; every allocator state', 'The test is single-threaded and runs once.',
  A([VAT, SL, RV, RM], ('no shared mutable state', 'all state lives in the processor object'), ('order by geometry, not by address', SL), observe=('thread sanitizer reports', 'results of every task'))),
 ('C09', 'No memory error, undefined behaviour, leak or crash on any finite input',
  'For any finite coordinates, degenerate, huge, tiny, repeated or hostile, any text, and any order of creating, using and destroying processors and paths, no call crashes, accesses invalid or uninitialised memory, executes undefined behaviour or leaks memory. Result counts never exceed the room of the fixed-size results that hold them.',
  ['inputs', 'histories'], 'every finite input and object history', 'The test runs one benign drawing without instrumentation.',
  A([VAT, SL, RM, RV, PA], ('pools and ownership', 'src/src/vatti.h: pools; ' + SL), ('fixed-size results', RM), observe=('address, undefined-behaviour and memcheck reports', 'allocation balance'))),
 ('C10', 'Every call returns, with work bounded by the size of the drawing',
  'Process always returns: there is no drawing on which it loops or blows up, and its work grows no faster than roughly the square of the number of edges and crossings, near-linearly for many-sided shapes, rows, columns, combs and nested rings. Calling it again on the same processor costs no more than the first time and the output does not grow; reading text and traversing paths are linear and every geometry function takes bounded time.',
  ['inputs', 'histories'], 'every drawing of N edges and crossings; every number of repeated calls', 'The test has one small drawing and no notion of cost.',
  A([VAT, SL, RM, RV], ('scan line over pieces', VAT + ': process_intersect; ' + SL), ('sweep', VAT + ': process, pop_scanline'), ('curve subdivision', RM + ': intersect(bezier_cubic, bezier_cubic)'), observe=('executed control-flow edges of the library',))),
 ('C11', 'Path text is read exactly as the grammar says, up to the first error',
  'For any text, reading it gives one path per move command with exactly the lines and curves that follow, with the numbers written, free white space and no other separators, commands m, l, c in lower case with absolute coordinates, a accepted and ignored; segments before the first move are dropped and reading stops at the first thing that is not a complete command, keeping what came before. Printing a path and reading it again gives the same path, and the text is not modified.',
  ['inputs'], 'every byte string', 'The test reads two fixed well-formed strings.',
  A([RV], ('grammar', RV + ': make_path'), observe=('traversal of the returned paths',))),
 ('C12', 'Paths replay exactly what was built, through whichever callbacks are set',
  'Traversing a path calls back once per element in the order built, with the exact coordinates given and "from" always the previous end point; callbacks that are not set are skipped without disturbing the others, the user pointer is handed through, the path is not changed, and moving, storing or extending a path keeps all this. A read callback given to a processor is called exactly once, immediately, with usable functions and the caller\'s pointer, and output vertices that are input vertices keep their bits.',
  ['inputs', 'configurations'], 'every sequence of path commands x every set of callbacks', 'The test builds paths from text only and sets all callbacks.',
  A([PA, H, VAT], ('traversal', PA + ': path::traverse'), ('reading', VAT + ': add_path, read_path'), observe=('callback arguments',))),
 ('C13', 'Intersection functions find every crossing and report only true ones',
  'For two segments, a segment and a cubic, and two cubics, every reported point lies on both shapes at both reported parameters (which are within 0..1), every transversal crossing is reported exactly once within rounding, shapes that do not meet give nothing, and collinear overlapping segments give the ends of the common part that are interior to either segment. A crossing with a horizontal or vertical segment lies exactly on it.',
  ['inputs'], 'every pair of segments or cubics, including exact-grid, collinear, degenerate and nearly quadratic ones', 'The test reaches these functions only through one drawing.',
  A([RM, 'src/include/rmath.h'], ('line/line', RM + ': intersect(vec2 x4)'), ('line/cubic', RM + ': intersect(line, bezier_cubic)'), ('cubic/cubic', RM + ': intersect(bezier_cubic, bezier_cubic)'), observe=('the functions\' results',))),
 ('C14', 'Bezier evaluation, splitting, bounds and equation solvers are exact to rounding',
  'Evaluating, splitting at one or many parameters, finding points at a height, splitting into y-monotone parts and bounding a cubic agree with its definition to rounding, for degenerate curves too: split pieces join bit for bit and trace the original, bounds are tight, y-split parameters are ascending and inside 0..1, and no point at a height is missed or invented. Quadratic and cubic equations (also with vanishing leading coefficients) give all their separated real roots, nothing that is not a root, and the circle approximation stays within 0.03% of the circle, counter-clockwise.',
  ['inputs'], 'every cubic and every equation of usual magnitude', 'No test calls these functions directly.',
  A([RM, 'src/include/rmath.h'], ('Bezier operations', RM + ': bezier_cubic::*'), ('equations', RM + ': resolv_quad_equa, resolv_cubic_equa'), observe=('the functions\' results',))),
 ('C15', 'Vectors, rectangles, distances, angles and arcs obey their definitions',
  'Vector arithmetic, products, length, rotation, normalisation and equality, rectangles from points, their size, centre, growth and overlap test (touching counts as overlap), the squared distance of a point to the infinite line, whether a point projects into a segment (ends included), the general form of a line, angle normalisation into [0, 2pi), and arcs (end point, angles, radius, sweep of either sign, reversal) agree with their mathematical definitions to rounding.',
  ['inputs'], 'every argument of usual magnitude', 'No test calls these functions directly.',
  A([RM, 'src/include/rmath.h'], ('arc', RM + ': arc::*'), ('rect, vec2', 'src/include/rmath.h'), ('helpers', RM + ': dist2_point_line, point_project_in_segment, clamp_0_2pi, line::general_from'), observe=('the functions\' results',))),
 ('C16', 'The develop build computes the same results and shows exactly the drawing',
  'In the develop build, results are bit-identical to the normal build whether the viewer answers, answers with an error, hangs up or is absent, and no call fails or waits for it. A listening viewer receives one well-formed message per piece: subjects in black and clips in blue when they are added, the result in red when it is computed, each line exactly and each curve along its full course, and the drawing functions deliver their shape, pen and brush unchanged, moved by the offset given.',
  ['inputs', 'configurations', 'fault_sequences'], 'every drawing x every viewer behaviour', 'The develop build\'s drawing code is never run by the tests.',
  A([VAT, DU, 'debug_util/debug_util.h'], ('drawing calls', VAT + ': show_lineto, show_cubicto, add_path, process'), ('delivery', DU), observe=('HTTP messages received on 127.0.0.1:5569',))),
 ('C17', 'Results are drawings again: set algebra holds across chained operations',
  'The output of any operation can be used as subject or clip of the next one, under any fill rule that suits its orientation, and the region of the chain is the set expression of the inputs, with and without curves. The laws of set algebra hold on real outputs: A-B and A&B partition A, (A-B)|(B-A) = A^B, A|A = A, A^A = 0, A-0 = A, normalising a result changes nothing, and so on.',
  ['inputs', 'histories'], 'every chain of operations', T,
  A([VAT], *SWEEP, ('coincident edges', VAT + ': update_ouput_bound'), ('exact output coordinates', VAT + ': write_path'))),
 ('C18', 'Output contours run only along the boundary of the result',
  'Every piece of the output separates the result region from its complement: it has filled area on one side and none on the other. No edge of the input that lies inside or outside the result, no seam where two shapes or coincident edges were merged, no piece traced twice and no there-and-back spur of zero width is left in the output, with or without curves, in general position and for touching, shared and coincident edges and whole shared curves.',
  ['inputs', 'configurations'], 'every drawing (general position or exact contacts, with or without curves) x operations x rules', T + ' Zero-width seams and spurs do not even change the picture.',
  A([VAT, SL], ('contribution', VAT + ': is_contributing, update_ouput_bound'), ('coincident edges cancel', VAT + ': recalc_windcnt, update_ouput_bound'), ('output building', VAT + ': join_output, close_output, build_output'))),
]
TECH = {
 'C01': 'runtime oracle: winding-number region monitor over generated workloads', 'C02': 'runtime oracle: winding-number region monitor over generated curve workloads', 'C03': 'runtime oracle: winding-number region monitor over exactly degenerate workloads',
 'C04': 'online trace checker of the output event stream plus winding monitor', 'C05': 'offline checker: provenance of every output piece', 'C06': 'runtime comparison monitor: metamorphic pairs of runs', 'C07': 'history monitor: recorded call histories against a model and fresh processors',
 'C08': 'thread sanitizer with injected delays, and result comparison under perturbed heap and stack', 'C09': 'address and undefined-behaviour sanitizers, valgrind memcheck, allocation-balance monitor', 'C10': 'instrumented step counter (sanitizer coverage) against size-derived budgets', 'C11': 'runtime monitor: reference reader, differential; sanitizers',
 'C12': 'online callback-protocol monitor; sanitizers', 'C13': 'runtime oracle: independent root finder', 'C14': 'runtime oracle: long double reference', 'C15': 'runtime oracle: definitions', 'C16': 'message-trace monitor (scripted viewer with faults) and build comparison under address sanitizer', 'C17': 'runtime oracle: region monitor over chained runs',
 'C18': 'offline checker: winding numbers of the recorded output on both sides of every piece',
}
NOTE = {
 'C01': 'Holds on every explored drawing; judged by an independent winding oracle at points next to every edge of the arrangement. Inputs with near-degenerate features are not judged.',
 'C02': 'As C01, with curves flattened finely on the oracle side and probes kept clear of the flattening error.',
 'C03': 'As C01 for contacts that are exact in double arithmetic; partial overlaps of slanted edges are known findings.',
 'C08': 'Thread sanitizer reports any race in the executions that ran; other schedules are sampled with injected delays.',
 'C09': 'Sanitizers and memcheck judge every executed access; inputs that exceed the step budget are cut off.',
 'C10': 'Budgets are several times the measured work, so constant factors are not judged, growth is.',
}
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for i, title, st, over, text, why, anch in PROPS:
            assert len(title) <= 80, (i, len(title))
            f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': anch}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 run.py build', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks are needed in /repo: the monitors observe the public interface, and steps are counted by compiler instrumentation of the unchanged sources. VERIF_SEED seeds every random choice; run.py replay <file> repeats a reported case.'}
    for p in PROPS:
        i = p[0]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py check ' + i, 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE.get(i, 'Holds on every explored execution; see the evidence file for what was observed. Trusts the compiler, the harness oracle and its tolerances.')})
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
if __name__ == '__main__':
    main()
