"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python check.py '
CHECKS = []


def c(pid, technique, level, note):
    CHECKS.append(dict(property=pid, quick_cmd=PY + pid, thorough_cmd='VERIF_TIER=thorough ' + PY + pid, technique=technique, level=level,
                       level_note=note))


c('C01', 'contract-based deductive verification: verification conditions generated by symbolic execution of the real compute / '
  'compute_partials bodies, contract "J[of,wrt] == d(outputs[of])/d(inputs[wrt])" discharged by normal-form proof of real-arithmetic identities',
  'proof', 'real arithmetic instead of floats; array sizes 2 (3 thorough); SkinFriction and a few terms only bounded; branch boundaries excluded')
c('C02', 'contract-based deductive verification: frame and dependency contracts on every compute / compute_partials / apply_nonlinear / linearize '
  'body (inputs unchanged, no stale output, no stale derivative entry, no state read), discharged on the exact symbolic result terms of all paths',
  'proof', 'array sizes fixed (2 nodes); path limit for a few table-driven components; components that keep state get a two-evaluation obligation')
c('C03', 'contract-based deductive verification: relational contract "result at node i of the vector evaluation == single-node evaluation", '
  'both runs of the real compute body symbolic, equality discharged per output entry', 'proof',
  '3 nodes stand for any number; real arithmetic; cumulative outputs excluded')
TECH = ('contract-based deductive verification: postconditions on the real compute bodies, verification conditions generated by symbolic '
        'execution of every path of the current source, discharged by a normal-form prover for real arithmetic and z3; ')
for pid, what in (('C04', 'contract: result doubles when its scaler doubles'), ('C05', 'contract: totals equal the sum of their parts'),
                  ('C06', 'contract: propulsion sums, allocations and scaling laws'),
                  ('C07', 'contract: momentum, kinematic and energy balance of every EOM component'),
                  ('C08', 'contract: defining relations of lift, drag and coefficient build-ups'),
                  ('C09', 'contract: geometric relations between areas, spans, chords, lengths and counts'),
                  ('C10', 'contract: equations of state and speed relations; exact rational lemmas for every table interval')):
    c(pid, TECH + what, 'proof', 'real arithmetic instead of floats; array sizes 2-3 stand for any number; branch boundaries excluded')
DATA = ('contract-based deductive verification: postconditions on the real Python functions, verification conditions generated by symbolic execution of '
        'every path of the current source on symbolic numbers, discharged by structural equality, a normal-form prover for real arithmetic and z3; ')
for pid, what, note in (('C11', 'contract: the container is a map from names to values with units', 'containers of up to three entries; strings and enumerations enumerated; real arithmetic'),
                        ('C12', 'contract: defaults fill gaps only, totals agree, engine options have one entry per engine type', 'one to three engine types; two engine types with several counts given for the vehicle only in the thorough tier'),
                        ('C13', 'contract: hierarchy and metadata form one catalogue; adding, updating and merging change exactly what they say', 'merges of up to three parties; defaults and values symbolic, names enumerated'),
                        ('C14', 'contract: defining formula of every smoothing function, derivative functions equal the derivatives of the values', 'arrays of up to three entries; real arithmetic; kinks of floor excluded'),
                        ('C15', 'contract: reading returns what was written, for symbolic numbers passing through the text', 'tables of up to three rows and columns; number text treated as exact'),
                        ('C16', 'contract: the deck is the table given, sorted, normalised, extended by idle points and scaled', 'grids of up to three Mach numbers, altitudes and throttles; real arithmetic'),
                        ('C17', 'contract: each variable declaration, option extraction, override, initial value and trajectory parameter carries the aircraft data, converted', 'up to three engine types and phases, groups two levels deep; OpenMDAO promotion and dymos parameters trusted'),
                        ('C19', 'contract: what groups of analyses and the assembled mission make of their parts (fuel, mass, power, torque, drag, residuals and constraints), evaluated symbolically along the connections', 'up to three phases of a kind, one and three time points, nine missions in twelve variants; interpolated maps, implicit components and phases are unknown functions; OpenMDAO connections trusted as reported'),
                        ):
    c(pid, DATA + what, 'proof', note)
c('C18', 'contract-based verification, bounded stand-in: the postcondition of the model assembly (who feeds every input, in which order, with which options) is decided '
  'exactly on the connection graph that the real set-up code produces, for each listed configuration', 'exploration',
  'about 300 configurations stand for all; assembly code is run natively, not symbolically; values of formulas are the matter of C01-C10')
NA = []
json.dump(dict(version=1, setup_cmd='true', checks=CHECKS, not_applicable=NA), open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
