"""Properties: the single source of properties.jsonl, MANIFEST.json, DESIGN.md.

Run `python3 tools/spec.py` to regenerate the three files.
"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_APPLICABLE = []


def prop(pid, title, statement, text, why, files, mechanism, design, note,
         over=('inputs',), observe=(), level='model_checking'):
  P.append(dict(pid=pid, title=title, statement=' '.join(statement.split()),
                text=' '.join(text.split()), why=' '.join(why.split()),
                files=files, mechanism=mechanism,
                design=' '.join(design.split()), note=' '.join(note.split()),
                over=list(over), observe=list(observe), level=level))


MU = 'putting_dune/microscope_utils.py'
GR = 'putting_dune/graphene.py'
PROTO = 'putting_dune/putting_dune.proto'

prop('C01', 'Conversion between beam-scan coordinates and the material is exact',
     '''For every field of view, converting positions (single positions, lists,
     points, atom collections, beam commands) from the unit-square coordinates
     of the image to the material and back gives the same positions; the map is
     the affine one that takes the square's corners to the corners of the field
     of view. Everything other than positions (elements, dwell time, voltage,
     current, order, shape) is carried over and the source is not modified.
     Other kinds of objects are refused.''',
     '''every field of view with corners within 1000 A and sides of 1 to 200 A,
     every position within 1000, each of the five kinds of object''',
     '''the tests convert a handful of fixed points in one or two fields of
     view; a wrong offset or a swapped axis in one kind of object, or on
     oblong fields of view only, passes them''',
     [MU], [('affine conversion', 'MicroscopeFieldOfView.*_frame_to_*_frame')],
     '''The real conversion methods run on symbolic corners, sides and
     coordinates; affine map, inverse in both orders and carried-over fields
     are polynomial identities decided by canonical forms or nlsat.''',
     'sides 1..200 A, 0 to 3 atoms per collection (thorough 6)')

prop('C02', 'Moving, resizing and zooming a field of view',
     '''Shifting a field of view (or an atom collection, or a beam command) moves
     every corner (atom, beam position) by exactly the shift and keeps size,
     elements, dwell time, voltage and current; resizing gives the requested
     width and height and zooming divides both by the factor, both around an
     unchanged centre. Opposite shifts and inverse zooms undo each other, the
     original is never modified, and non-positive sizes or factors are
     refused.''',
     'every field of view, shift within 1000 A, new side 0.5..500 A, zoom 0.1..10',
     'the tests use a few fixed square fields of view',
     [MU], [('shift/resize/zoom', 'MicroscopeFieldOfView.shift, resize, zoom')],
     'Direct symbolic execution; polynomial identities.',
     'ranges as in the quantifier; reals instead of floats')

prop('C03', 'Observations and trajectories survive storage',
     '''Storing an atom collection, a beam command, a field of view, an
     observation or a trajectory in its stored-message form or its serialized
     bytes and reading it back gives an equal object: same atoms in the same
     order, same positions, commands, elapsed time, and images and label images
     present exactly when they were present. A second trip is exact.''',
     '''every number of atoms 0..3 (thorough 8), every number of commands and
     observations up to 2 (thorough 4), every coordinate and element, every
     presence pattern of the images''',
     '''the tests round-trip one or two fixed observations; empty collections,
     missing images, non-default units and order are not covered together''',
     [MU, PROTO], [('to_proto/from_proto', 'each dataclass of microscope_utils')],
     '''The to/from code runs against symbolic stand-ins for the generated
     message classes, built from the real message descriptors (field types,
     repeated, presence), with float32 fields rounded as an arbitrary value
     within relative 2^-23 that is stable on a second trip; durations are exact
     microseconds.''',
     '''the wire format of the protobuf runtime is trusted; single-precision
     fields compare with relative tolerance 1e-6''')

prop('C04', 'Transitions, drifts and labelled trajectories survive storage',
     '''Storing a state transition, a drift record or a labelled alignment
     trajectory and reading it back gives equal atoms and fields of view before
     and after, beam commands, drift and jitter vectors (with their fractional
     part), and exactly those of the four images that were present.''',
     '''every presence pattern of the four images, every coordinate; drift of
     0, 1, 3 or 6 atoms; up to 3 observations''',
     'one fixed transition with all images present is tested',
     [MU, PROTO], [('to_proto/from_proto', 'Transition, Drift, LabeledAlignmentTrajectory')],
     'As C03, over all sixteen presence patterns.',
     'as C03')

prop('C05', 'A field of view shows exactly the atoms inside it',
     '''Asking which atoms a field of view contains returns exactly the atoms
     inside its closed rectangle (grown by the tolerance when one is given),
     each with its own element, in order. The view a material gives of itself
     lists the same atoms, normalised so that every visible atom lies in the
     unit square, without changing the material. A material that has not been
     reset refuses to be looked at.''',
     'every placement of up to 2 atoms (thorough 3), any field of view, any tolerance within 20 A, including atoms on the border',
     'tests look at fixed grids whose atoms are not on the border',
     [MU, GR], [('bounds filter', 'MicroscopeFieldOfView.get_atoms_in_bounds'),
                ('material view', 'PristineSingleDopedGraphene.get_atoms_in_bounds')],
     '''Atoms, corners and tolerance symbolic; the boolean mask is resolved by
     path splitting, so every inside/outside/on-the-border pattern is a path.''',
     'at most 3 atoms; reals instead of floats')

prop('C06', 'Transition rates of the dopant',
     '''For any state with one dopant the built-in predictor offers three
     successor states, each swapping the dopant with a different one of its
     three nearest atoms and leaving everything else in place, each with the
     rate of its own neighbour (negative rates and states without a dopant are
     refused) and with their sum as total. The built-in rate functions depend
     only on the beam relative to the dopant and that neighbour: the simple one
     is one at the neighbour and falls off with the squared distance, the human
     prior peaks at its maximum where the preferred offset, turned into the
     neighbour's direction, is hit and never exceeds it, and mixtures are the
     weighted sum of their components turned the same way; weights of sampled
     ones share out the whole. Stored mixtures read back equal, and mixtures with different parameters are not equal.''',
     'every placement, orientation, beam position and parameter value within the stated ranges',
     '''tests sample a few grids and beam positions; the orientation of the
     rate around the dopant is only tested along one axis''',
     [GR, 'putting_dune/geometry.py'],
     [('successors', 'PristineSingleSiGrRatePredictor.__call__'),
      ('prior', 'HumanPriorRatePredictor.predict'),
      ('mixture', 'GaussianMixtureRateFunction.__call__')],
     '''Angles are unit vectors (c, s) with c2+s2=1, so rotation identities are
     decided by rational normal forms; exp is an uninterpreted increasing
     function with exp(0)=1 and exp(t)>=1+t, so equal exponents give equal
     rates and bounds follow.''',
     '4 to 6 atoms; 1..3 mixture components; exp abstracted (counterexamples are replayed on the real code)')

prop('C07', 'Exposing the material to the beam',
     '''During an exposure transitions happen one after the other, waiting times
     drawn from the total rate of the current state and capped at one hour, for
     as long as they end within the dwell time; each moves to a successor drawn
     in proportion to its rate. All observers see each transition once, with
     the time since the exposure began and the state it led to; atoms never
     move, and there is always exactly one dopant. No dwell time means no
     change, and an unprepared material refuses the exposure.''',
     '''every dwell time up to 100 s, every sequence of up to 2 (thorough 3)
     transitions per exposure, every rate and every draw of the random source''',
     'tests run a few seeded exposures and only look at counts',
     [GR], [('exposure loop', 'PristineSingleDopedGraphene.apply_control')],
     '''The random source is a stand-in returning solver-chosen waiting times
     and choices within its contract, so every outcome of the random process
     up to the transition bound is explored.''',
     'at most 3 transitions per exposure (longer ones assumed away); two or three successors',
     over=('inputs', 'histories'))

prop('C08', 'The sheet a material starts from',
     '''A generated sheet is a honeycomb of carbon with a bond length of 1.42 A:
     no two atoms closer than a bond, at most three bonds each, exactly three
     near the middle, at any drawn offset and orientation. After a reset
     exactly one atom, the most central one, is the silicon dopant, its position
     can be asked for, and every other atom is carbon. The canonical sheet has
     its dopant at the origin with three neighbours.''',
     'every offset and orientation the random source can draw; sheets of 5 to 12 columns',
     'tests draw a few seeded sheets',
     [GR], [('sheet generation', 'generate_pristine_graphene, _generate_hexagonal_grid'),
            ('reset', 'PristineSingleDopedGraphene.reset')],
     '''The orientation is a symbolic unit vector and the offset a symbolic
     vector: bond lengths are decided after canonicalisation for all of
     them at once; sizes are enumerated.''',
     'sheet sizes enumerated (5, 6, 10 columns; thorough up to 12)')

prop('C09', 'Locating the dopant among visible atoms',
     '''All dopants among the visible atoms are listed, in order, whatever other
     elements there are. Asking for the single dopant gives the only one, or of
     several the one nearest to the middle of the view, and reports an error
     when there is none.''',
     'every placement and every element of up to 3 atoms (thorough 5)',
     'tests use fixed grids with one or two dopants',
     [GR], [('lookup', 'get_silicon_positions, get_single_silicon_position')],
     'Symbolic elements and positions; path splitting over the element mask.',
     'at most 5 atoms')

prop('C10', 'Absolute and incremental beam actions',
     '''Every absolute or incremental action becomes exactly one beam command of
     1.5 s whose position lies in the unit square: the absolute action itself,
     clipped, or the previous beam position plus the increment, clipped after
     every step. A reset places the incremental beam uniformly in the unit
     square; actions are never modified, and the declared action ranges are
     the unit square and plus or minus a tenth.''',
     'every action within 10 (also outside the declared range), every sequence of 3 (thorough 5) increments and a reset in between',
     'tests apply one or two in-range actions',
     ['putting_dune/action_adapters.py'],
     [('adapters', 'DirectActionAdapter, DeltaPositionActionAdapter')],
     'Symbolic actions, sequences unrolled, draws of the random source symbolic.',
     'sequences of at most 5 actions', over=('inputs', 'histories'))

prop('C11', 'Beam actions relative to the dopant',
     '''A dopant-relative action puts the beam at the dopant plus the action
     times the maximum distance (the action first clipped to plus or minus one),
     or plus the action in angstroms for the angstrom variant, correctly scaled
     for oblong fields of view and then clipped to the unit square. The dwell
     time is the fixed one, or interpolates the configured range by the clipped
     third component. Observations without exactly one dopant are refused.''',
     'every field of view with sides 2..100 A, dopant position, action within 5, maximum distance and dwell range',
     'tests use square fields of view and in-range actions',
     ['putting_dune/action_adapters.py'],
     [('adapters', 'RelativeToSilicon*ActionAdapter')],
     'Symbolic execution of both adapters in all dwell-time modes.',
     '2 atoms (thorough 4)')

prop('C12', 'Choosing a goal site',
     '''A new goal is the position, in the material, of a visible atom whose
     distance in angstroms from the (most central) dopant lies strictly between
     0.1 and 50, and every such atom can be drawn. Having none is refused with
     a runtime error, a missing dopant with its own error.''',
     'every placement of up to 3 atoms (thorough 4) in every field of view, square or oblong',
     'tests draw goals in one seeded square view',
     ['putting_dune/goals.py'], [('goal reset', 'SingleSiliconGoalReaching.reset')],
     'Symbolic atoms and field of view; every possible draw explored.',
     'distances not within 1e-4 of the limits')

prop('C13', 'Reward and end of a goal-reaching episode',
     '''A step is terminal exactly when the dopant, in material coordinates, is
     within half a bond length of the goal, whatever the field of view does
     meanwhile; it then pays the per-second discount raised to the elapsed
     time, otherwise zero, and is never truncated. The goal does not move, and
     a missing dopant is reported.''',
     'every dopant position and field of view over sequences of up to 2 (thorough 3) observations',
     'tests put the dopant on the goal or far away in one field of view',
     ['putting_dune/goals.py'],
     [('reward', 'SingleSiliconGoalReaching.calculate_reward_and_terminal')],
     '''Each observation has its own symbolic field of view; the discount is
     exp(t log gamma) with exp abstracted as increasing.''',
     'distances not within 1e-4 of the radius', over=('inputs', 'histories'))

prop('C14', 'Features handed to agents',
     '''The feature vector is the position of the dopant, the vectors to its
     three nearest atoms, nearest first (of unit length in image coordinates, or
     in angstroms for the material variant, where distances count in angstroms
     too), and the vector from the dopant to the goal in angstroms; the image
     variant gives the image and that goal vector. Shape and type are the
     declared ones; with several dopants everything is about the one nearest
     the middle of the view, and no dopant, no image or a foreign goal is
     refused.''',
     'every placement of 4 or 5 atoms (thorough 6), every field of view and goal',
     'tests check shapes on one seeded observation',
     ['putting_dune/feature_constructors.py', GR],
     [('features', 'SingleSilicon*FeatureConst*.get_features')],
     '''Symbolic positions; the nearest-neighbour query is an exact symbolic
     argsort of squared distances, split into paths.''',
     'at most 6 atoms; distances at least 1e-6 apart; image content not decided here')

# --- more properties are appended by the modules below -----------------------
exec(open(os.path.join(ROOT, 'tools', 'spec_more.py')).read())  # pylint: disable=exec-used


def main():
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P + NOT_APPLICABLE:
      f.write(json.dumps({
          'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['text']},
          'why_tests_cant': p['why'],
          'anchors': {
              'files': p['files'],
              'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
              'observe_at': p['observe'], 'hook_needed': None},
      }) + '\n')
  man = {
      'version': 1,
      'setup_cmd': 'bash setup.sh',
      'checks': [{
          'property': p['pid'],
          'quick_cmd': f'bash check.sh {p["pid"]}',
          'thorough_cmd': f'bash check.sh {p["pid"]} --tier thorough',
          'evidence_file': f'evidence/{p["pid"]}.json',
          'technique': 'symbolic execution of the real Python code, '
                       'z3/cvc5 deciding every path',
          'level': p['level'],
          'level_note': 'Every path of the real code within the bounds is '
                        'decided by the solver: ' + p['note'] +
                        '. Trusted: the symbolic numpy layer (every path is '
                        'replayed on the real code), real arithmetic in place '
                        'of IEEE floats with small tolerances.',
      } for p in P],
      'not_applicable': [{'property': p['pid'], 'reason': p['reason']}
                         for p in NOT_APPLICABLE],
      'notes': 'Bounds per case are in each evidence file and in DESIGN.md.',
  }
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
  parts = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip()]
  parts.append('\n## How each property is decided\n')
  for p in P:
    parts.append(f'### {p["pid"]} {p["title"]}\n\n{p["design"]}\n\n'
                 f'Anchors: {", ".join(p["files"])} '
                 f'({"; ".join(b for _, b in p["mechanism"])}).\n'
                 f'Range: {p["text"]}. Bounds and limits: {p["note"]}.\n'
                 f'Beyond the tests: {p["why"]}.\n')
  if NOT_APPLICABLE:
    parts.append('## Not applicable\n')
    for p in NOT_APPLICABLE:
      parts.append(f'- {p["pid"]} {p["title"]}: {p["reason"]}\n')
  parts.append(open(os.path.join(ROOT, 'tools', 'design_tail.md')).read())
  with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(parts))


if __name__ == '__main__':
  main()
