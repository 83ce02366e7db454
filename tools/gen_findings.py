#!/usr/bin/env python3
"""writes known_findings.json (run by hand only)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [('C14', '3047daf', 'default-constructed implicit optimization modules crashed: the integrator was compiled although documented not to be'),
       ('C18', '28e3d4b', 'sample testing evaluated constraints without their parameters and crashed'),
       ('C07', 'dd64fc8', 'reset kept the latch timer of a switching module'),
       ('C03', 'a341cfe', 'switching monitored the unlimited desired control but returned the limited one'),
       ('C07', 'f6088f5', 'resetting a cascade did not reset its stages'),
       ('C22', '830c9ad', 'delta-v limit module returned the desired control on the call on which it tripped'),
       ('C22', 'e5b7ade', 'resetting the delta-v limit module kept its latch and error integral'),
       ('C25', 'd17b397', 'state wrapper setters raised on immutable arrays'),
       ('C26', 'ebee1a7', 'deputy passively safe maneuver trajectory did not map all arguments'),
       ('C01', '9ab6885', 'discrete optimization crashed with element specific or one-sided bounds'),
       ('C26', 'c67ed8e', 'discrete inspection predicted the sun moving in the opposite direction'),
       ('C19', '25d5031', 'higher-order constraint of relative degree one crashed'),
       ('C10', '52d12a2', 'subsampling in implicit optimization lost the slack columns'),
       ('C14', '91e5378', 'subsampling dropped the trajectory point after the check-all prefix'),
       ('C20', '7b34631', 'causes of intervention of subsampled constraints were misnamed'),
       ('C21', '648b71a', 'combined inspection built its default deputy module for the wrong number of deputies'),
       ('C21', '41c5dff', 'combined inspection never reported interventions and did not reset its deputy module'),
       ('C07', '50f364b', 'reset kept the logged constraint values and causes of intervention'),
       ('C20', '2b2bbd6', 'an infeasible step reported the causes of the previous step'),
       ('C04', '2287c56', 'backup window lost its last step to floating point truncation'),
       ('C15', '6a2fafe', 'discrete optimization with the built-in integrator could not be differentiated'),
       ('C08', '9c723bc', 'restoring a backup controller handed out the saved memory itself')]
KNOWN = [
    dict(property='C22', site='default-construction', what='SwitchingDeltaVLimitRTA (and InspectionCascadedRTA) cannot be constructed with the default mass and mean motion: scipy.linalg.solve_continuous_are finds no solution (the augmented system it is given is not stabilizable)'),
    dict(property='C24', site='inspection-short-state', what='an inspection module given a state without a sun angle once (Inspection1v1RTA, InspectionRTA) keeps sun velocity 0 for all later calls, also those with a sun angle'),
]
for p, h, _ in FIX:
    assert subprocess.run(['git', '-C', '/repo', 'cat-file', '-e', h]).returncode == 0, h
json.dump(dict(known=KNOWN, fixed=[f'fixed: property={p} {h} {w}' for p, h, w in FIX]), open(V + '/known_findings.json', 'w'), indent=1)
