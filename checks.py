"""What each property's check runs. quick/thorough are numbers of cases."""


def P(prop, quick, thorough, variant='plain', **kw):
    return dict(prop=prop, variant=variant, quick=quick, thorough=thorough, **kw)


GP = 'verdicts are given for inputs in general position only: features of the drawing closer than about 1e-6 (lines) or 3e-3 (curves; 3e-4 in the fine half of the cases) of its size are rejected by the generator and counted'
ORACLE = 'the winding-number oracle of harness/geom.h (long double, written from the definition of the fill rules)'
SEQ = 'one thread at a time'

CHECKS = {
    'C01': dict(level='exploration', rule='one case = one drawing of straight edges from 17 families (random, star, comb, spiral, nested, zigzag, ... placed at several scales and offsets), run under all 4 operations x 4 fill rules through both interfaces and judged at two probe points per arrangement edge plus random points; non-trivial = subject and clip boundaries cross; distinct by hash of the geometry',
        assumptions=[GP, ORACLE], parts=[P('C01', 40000, 600000, require={'region_probes': 100000, 'calls_with_inside_and_outside': 10000})]),
    'C02': dict(level='exploration', rule='one case = one drawing with cubic curves from 17 families (circles, arches and S-bands with vanishing cubic terms, shallow lenses, ellipses, blobs, random cubics, rounded rectangles, wavy bands), 4 (thorough: 16) operation/rule pairs, judged at probe points next to every arrangement edge; non-trivial = subject and clip boundaries cross; distinct by hash of the geometry',
        assumptions=[GP, ORACLE + '; curves flattened to 360 chords, probes keep their distance'], parts=[P('C02', 40000, 600000, require={'region_probes': 50000, 'calls_with_inside_and_outside': 3000})]),
    'C03': dict(level='exploration', rule='one case = one drawing with exact contacts from 12 families (grid rectangles, rectilinear walks, identical and reversed contours, triangulations, T-junctions on axis-parallel edges, common vertices, there-and-back contours, checkerboards, repeats), all 16 operation/rule pairs, or (every fourth case) curved contours used several times in either direction by either operand, or adjacent cells with common curved borders crossed by a free shape; non-trivial = subject and clip boundaries meet; distinct by hash of the geometry',
        assumptions=['contacts are exact in double arithmetic: shared end points, identical edges or curves, or vertices on axis-parallel edges', ORACLE], parts=[P('C03', 60000, 1000000, require={'curve_copies': 1000, 'curved_cells': 1000, 'region_probes': 100000, 'calls_with_inside_and_outside': 5000}), P('C03.known', 4, 4)]),
    'C18': dict(level='exploration', rule='one case = one drawing from the families of C01, C02 and C03, up to 16 operation/rule pairs; at three points of every output piece the winding numbers of the output on both sides are compared, as close as the nearest other piece demands; non-trivial = the output has pieces; distinct by hash of the geometry',
        assumptions=[GP], parts=[P('C18', 40000, 600000, require={'sides_compared': 1000000})]),
    'C04': dict(level='exploration', rule='one case = one drawing from the families of C01, C02 and C03, up to 16 operation/rule pairs; every output event is checked by an online automaton and the winding number of the output at every probe; non-trivial = boundaries cross; distinct by hash of the geometry',
        assumptions=[GP], parts=[P('C04', 40000, 600000, require={'events': 200000, 'winding_probes': 200000})]),
    'C05': dict(level='exploration', rule='one case = one drawing from the families of C01, C02 and C03; every output piece is traced back to an input piece; non-trivial = the output has pieces; distinct by hash of the geometry',
        assumptions=[GP], parts=[P('C05', 40000, 600000, require={'output_pieces': 100000, 'output_curves': 5000})]),
    'C06': dict(level='exploration', rule='one case = one drawing presented in many ways (both interfaces, order, start point, closing, null segments, swapped operands, mirrored, turned, reversed, scaled, with empty contours added), 4 rounds; compared by bits, by area, length and moments, and by probes; non-trivial = some output; distinct by hash of the geometry',
        assumptions=[GP], parts=[P('C06', 25000, 400000, require={'bit_identical_pairs': 8000, 'presentation': 5000, 'scale': 5000})]),
    'C07': dict(level='exploration', rule='one case = a random history of add and process steps on one processor, compared with the region definition, with a fresh processor, with itself asked again, and bit for bit with the same history interleaved with another processor, or (every fifth case) a drawing with every kind of contact asked several times, each answer compared bit for bit with a fresh processor; non-trivial = some output; distinct by hash of geometry and history length',
        assumptions=[GP], parts=[P('C07', 40000, 600000, require={'hostile_comparisons': 5000, 'process_after_process': 5000, 'fresh_comparisons': 10000, 'interleaved_steps': 20000, 'asked_again': 500})]),
    'C08': dict(level='exploration', rule='threads: one case = 2-8 threads with their own processors over shared read-only inputs, delays injected in callbacks, under the thread sanitizer, every result compared with the sequential one; non-trivial = tasks overlapped; distinct by observed order of task starts and ends. determinism: the same calls repeated with a churned, poisoned heap and painted stack',
        assumptions=['the thread sanitizer sees the accesses of the executions that ran'], parts=[P('C08', 600, 8000, 'tsan', block=5, require={'results_compared': 500, 'overlapping_cases': 20}), P('C08.det', 8000, 120000, require={'repeats_compared': 8000})]),
    'C09': dict(level='exploration', rule='one case = hostile drawings (grid, copies, huge, tiny, denormal, nearly touching), closed histories of processors, rmath calls with wild numbers, or arbitrary text, under address and undefined-behaviour sanitizers with an allocation balance per history, and a smaller set under valgrind memcheck for uninitialised values; every case counts; distinct by hash of the input',
        assumptions=['coordinates are finite; pairs of nearly coincident curves that exceed the step budget are cut off and counted'], parts=[P('C09', 4000, 80000, 'asan', block=40, require={'process_calls': 5000, 'allocation_balances': 2000, 'texts': 10000, 'rmath_rounds': 40000}), P('C09', 160, 3000, 'valgrind', block=4, wall=300, require={'process_calls': 100})]),
    'C10': dict(level='exploration', rule='one case = a drawing (growing families, degenerate piles, grids, curves), a text or rmath calls, with the work counted in executed control-flow edges of the library against an allowance that the number of edges and contacts determines; repeated calls must not get slower; every case counts; distinct by hash of the input',
        assumptions=['allowances are 7 to 30 times the measured work (maxima in this file)', 'curves in general position'], parts=[P('C10', 60000, 800000, require={'growing_drawings': 1000, 'repeated_calls': 30000}), P('C10.known', 2, 2)]),
    'C11': dict(level='exploration', rule='one case = 40 texts: valid, mutated or arbitrary bytes, compared with a reference reader written from the grammar, then printed and read again; every case counts',
        assumptions=['numbers that are not finite or have more than 17 digits or an exponent beyond 40 are run but not compared'], parts=[P('C11', 40000, 800000, require={'texts_decided': 50000, 'texts_cut_short': 5000, 'round_trips': 50000}), P('C11', 4000, 80000, 'asan', require={'texts': 10000})]),
    'C12': dict(level='exploration', rule='one case = 40 random paths with every callback mask, moved and extended, compared event by event with the commands that built them, plus the read-function protocol; every case counts',
        assumptions=[], parts=[P('C12', 40000, 800000, require={'traversals': 100000, 'read_functions': 1000}), P('C12', 4000, 80000, 'asan', require={'traversals': 10000})]),
    'C13': dict(level='exploration', rule='one case = 60 segment pairs, 25 segment/curve pairs or 6 curve pairs over random, exact-grid and degenerate shapes, compared with an independent root finder; every case counts',
        assumptions=['pairs whose number of crossings is ambiguous at the stated tolerance are run for soundness only and counted'], parts=[P('C13', 200000, 4000000, require={'ll_calls': 100000, 'lc_calls': 50000, 'cc_decided': 5000, 'll_collinear_overlap': 1000})]),
    'C14': dict(level='exploration', rule='one case = 20 curves (random and degenerate of nine kinds) or 80 equations built from known roots, compared with long double evaluation; every case counts',
        assumptions=[], parts=[P('C14', 200000, 4000000, require={'curves': 50000, 'roots': 200000})]),
    'C15': dict(level='exploration', rule='one case = 60 rounds of vector, rectangle, distance, angle and arc calls compared with their definitions; every case counts',
        assumptions=[], parts=[P('C15', 200000, 3000000, require={'arcs': 100000, 'rect': 100000})]),
    'C16': dict(level='exploration', rule='one case = one drawing processed in the develop build while this check plays the viewer (answering, failing, hanging up, absent), every received message decoded and compared with the drawing, under the address sanitizer; results compared bit for bit with the normal build; non-trivial = some output; distinct by result hash',
        assumptions=['the viewer listens on the fixed loopback port 5569, so one such check runs at a time'], parts=[P('C16', 900, 8000, 'develop', script='c16', require={'messages': 3000, 'results_equal_to_the_normal_build': 250})]),
    'C17': dict(level='exploration', rule='one case = chains of two operations over three drawings, or set-algebra laws over two, each judged against the region definition at probes; every case counts; distinct by hash of the geometry',
        assumptions=[GP], parts=[P('C17', 25000, 400000, require={'chains': 1000, '(A-B)|(A&B)=A': 2000, 'curves:A|rev(A)=A': 300})]),
}
