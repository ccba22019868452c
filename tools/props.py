#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  tools/props.py  rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None),
                  _t=technique, _n=note))

prop('P01', 'B-spline curve evaluation is the mathematical B-spline',
     'For every valid B-spline curve or scalar function and every parameter of its domain, the value and the derivatives of any order are those of the mathematical B-spline (sum of poles times basis functions), to rounding, and derivatives above the degree are zero. '
     'At a knot the right-hand limit is taken, at the end of the domain the left-hand one, and the curve starts and ends at its first and last poles. '
     'A parameter outside the domain is refused rather than extrapolated.',
     ['inputs', 'configurations'], 'all degrees, clamped knot vectors (any multiplicities, spacing, shift), poles in 1-3 dimensions, float and double, all parameters including knots, their neighbours and both ends, all derivative orders',
     'The tests compare a handful of fixed curves (mostly degree 2-3, unit knots) with OCCT or with themselves; degrees above the stack limit, repeated and unevenly spaced knots, knot neighbours and high derivatives are not sampled.',
     ['gbs/basisfunctions.ixx', 'gbs/knotsfunctions.ixx', 'gbs/bscurve.h'],
     [('span search', 'gbs/basisfunctions.ixx find_span*'), ('de Boor-Cox evaluation', 'gbs/basisfunctions.ixx eval_value_*, basis_funcs_ders*'), ('domain check', 'gbs/bscurve.h value/derivatives')],
     'property-based testing against a quad-precision reference evaluator', 'random curves, parameters and orders against an independent binary128 Cox-de Boor evaluator with error bounds proportional to rounding',
     ['value(u,d)', 'derivatives(u,d)', 'values(u)'])
prop('P02', 'Rational curves and conics are evaluated exactly as NURBS',
     'A rational curve and its derivatives of any order are those of the projected homogeneous B-spline; with equal weights it is the polynomial curve with the same poles. '
     'Built circles and ellipses lie on the conic they were asked for at every parameter. '
     'The derivative curve and the primitive of a curve are consistent with its pointwise derivatives.',
     ['inputs'], 'all degrees, knots, positive weights, dimensions 1-3, float and double, all parameters and derivative orders; all radii and centres of conics',
     'Tests evaluate one or two rational arcs at low derivative order; the quotient rule at higher order, strongly uneven weights and parameters inside the conic segments are not covered.',
     ['gbs/bscurve.h', 'gbs/basisfunctions.ixx', 'gbs/bscbuild.h', 'gbs/math.ixx'],
     [('quotient rule', 'gbs/basisfunctions.ixx eval_rational_*'), ('weight projection', 'gbs/vecop.ixx weight_projection'), ('conic construction', 'gbs/bscbuild.h build_circle, build_ellipse')],
     'property-based testing against a quad-precision reference evaluator', 'random NURBS and conics against a binary128 homogeneous evaluator and the implicit conic equation',
     ['value', 'derivatives', 'build_circle', 'build_ellipse', 'build_derivate', 'build_integrate'])
prop('P03', 'Surface evaluation, iso-curves and tangents are the tensor-product ones',
     'For every polynomial or rational surface, values and all mixed partial derivatives are those of the tensor-product B-spline, with u varying fastest in the pole net. '
     'An iso-curve in either direction is exactly the restriction of the surface, with the surface\'s other knots and degree. '
     'Tangents and normals agree with the partial derivatives.',
     ['inputs'], 'all degrees per direction, different pole counts per direction, repeated knots, weights, 1-3 dimensions, float and double, all parameters and mixed orders',
     'Tests use square or symmetric nets with the same degree in both directions, on which swapping the directions is invisible, and few derivative orders.',
     ['gbs/bssurf.h', 'gbs/basisfunctions.ixx'],
     [('tensor evaluation', 'gbs/basisfunctions.ixx eval_value_*surf*'), ('iso-curves', 'gbs/bssurf.h isoU/isoV')],
     'property-based testing against a quad-precision reference evaluator', 'random nets whose two directions differ, against a binary128 tensor-product evaluator',
     ['value(u,v,du,dv)', 'isoU', 'isoV'])
prop('P04', 'Curve edits keep the geometry',
     'Inserting knots, removing removable knots, elevating the degree, reversing, changing bounds, trimming and converting to rational change only the representation: after any sequence of such edits the curve is the original composed with the parameter map of the edits, on the expected domain. '
     'Knot removal never moves the curve by more than the tolerance it was given, and the resulting degree, multiplicities and bounds are those requested.',
     ['histories', 'inputs'], 'all sequences of edits on all polynomial and rational curves, with parameters at, between and next to knots',
     'Tests apply one edit to one curve each; compositions of edits, repeated knots, edits at existing knots, high degrees and shifted domains are not sampled.',
     ['gbs/bscurve.h', 'gbs/knotsfunctions.ixx', 'gbs/bsctools.h'],
     [('knot insertion / removal / elevation', 'gbs/knotsfunctions.ixx insert_knot, remove_knot, increase_degree'), ('trim / reverse / bounds', 'gbs/bscurve.h trim, reverse, changeBounds')],
     'stateful model-based testing with shrinking', 'random edit histories, after each step compared with the quad-precision original composed with the accumulated parameter map',
     ['insertKnot(s)', 'removeKnot', 'increaseDegree', 'reverse', 'changeBounds', 'trim'])
prop('P05', 'Surface edits keep the geometry',
     'Inserting knots, elevating degrees, reversing, swapping directions, changing bounds, trimming and splitting a surface in either direction change only the representation: after any sequence of edits the surface is the original composed with the parameter maps of the edits, on the expected domain.',
     ['histories', 'inputs'], 'all sequences of edits, in both directions, on all polynomial and rational surfaces',
     'Tests apply single edits to nearly symmetric nets; compositions and nets whose directions differ in degree and size are not sampled.',
     ['gbs/bssurf.h', 'gbs/bsstools.h', 'gbs/knotsfunctions.ixx'],
     [('edits', 'gbs/bssurf.h insertKnotU/V, increaseDegreeU/V, trimU/V, reverseU/V, invertUV'), ('split', 'gbs/bsstools.h split_u, split_v')],
     'stateful model-based testing with shrinking', 'random edit histories compared after each step with the quad-precision original under the accumulated maps',
     ['insertKnotU/V', 'increaseDegreeU/V', 'trimU/V', 'changeUBounds/VBounds', 'split'])
prop('P06', 'Curve interpolation meets every constraint',
     'An interpolated curve passes through every given point at its parameter, with every imposed derivative, whatever the order in which the constraints are given, and has the degree asked for (lowered only when there are too few data). '
     'Data taken from a polynomial of no higher degree give that polynomial back.',
     ['inputs'], 'all point sets (including coincident or collinear points), parametrisations, degrees, and constraint lists of points and derivatives',
     'Tests interpolate fixed sets of at most a few tens of points with uniform derivatives orders; large sets (the banded solver), unsorted constraints and mixed orders are not covered.',
     ['gbs/bscinterp.h', 'gbs/knotsfunctions.ixx', 'gbs/bscurve.h'],
     [('interpolation systems', 'gbs/bscinterp.h interpolate, build_poles'), ('knot placement', 'gbs/knotsfunctions.ixx build_simple_mult_flat_knots, curve_parametrization')],
     'property-based testing: imposed data recovered by an independent evaluator', 'random data and constraints recovered by quad-precision evaluation of the returned poles and knots',
     ['interpolate'])
prop('P07', 'Surface interpolation meets every constraint',
     'An interpolated surface passes through every grid point at its parameters and meets every imposed partial derivative, whatever the order of the constraints and the shape of the grid. '
     'Data taken from a tensor polynomial of no higher degree give that polynomial back, and a grid whose size does not match its stated dimensions is refused.',
     ['inputs'], 'all grids (nu != nv included), parametrisations, degrees and lists of point / derivative constraints',
     'Tests interpolate a few fixed grids, mostly square.',
     ['gbs/bssinterp.h', 'gbs/knotsfunctions.ixx'],
     [('interpolation systems', 'gbs/bssinterp.h interpolate, build_poles'), ('grid parametrisation', 'gbs/bssinterp.h')],
     'property-based testing: imposed data recovered by an independent evaluator', 'random grids and constraints recovered by quad-precision evaluation of the returned net',
     ['interpolate'])
prop('P08', 'Least-squares approximation is the least-squares optimum',
     'An approximating curve or surface is the least-squares solution for its knots and parameters: its residual is orthogonal to every free basis function, the end points are met exactly when asked for, and data taken from a spline of the same knots give it back. '
     'The refining variants stop only when the deviation asked for is met or no pole may be added, and an ill-posed request is refused.',
     ['inputs'], 'all point sets, degrees, pole counts, parametrisations, end conditions; curves, surfaces from grids and from scattered constraints',
     'Tests check that the fit is loosely close on a few smooth data sets, which a non-optimal fit also satisfies.',
     ['gbs/bscapprox.h', 'gbs/bssapprox.h'],
     [('normal equations', 'gbs/bscapprox.h approx, approx_bound_fixed, approx_bound_free'), ('refinement', 'gbs/bscapprox.h refine_approx'), ('surface fit', 'gbs/bssapprox.h approx')],
     'property-based testing against quad-precision normal equations', 'random data; optimality conditions, end conditions and stop rules evaluated in binary128',
     ['approx'])
prop('P09', 'Unifying, joining, connecting, extending and splitting keep the parts',
     'Unified curves or surfaces share degree and knots and each keeps its geometry; a join is its two parts one after the other; a split or an extension leaves the original part where it was. '
     'A connection or extension meets its ends with the continuity asked for (position, tangent, curvature and higher), an extension to a point or by a length ends there. '
     'Adding a dimension keeps every existing coordinate, for rational shapes too.',
     ['inputs'], 'all families of curves / surfaces of different degrees, knots, domains, polynomial or rational; both ends, all four sides, all continuity orders offered',
     'Tests join or extend one or two polynomial curves; rational, mixed and differently parametrised inputs and the derivative conditions at junctions are not checked.',
     ['gbs/bsctools.h', 'gbs/bsstools.h', 'gbs/bscbuild.h', 'gbs/knotsfunctions.ixx'],
     [('unify', 'gbs/bsctools.h unify_curves_degree, unify_curves_knots'), ('join / connect / extend', 'gbs/bsctools.h join, c2_connect, c3_connect, extended*'), ('surface tools', 'gbs/bsstools.h')],
     'property-based testing against a quad-precision model', 'random families; every part compared with the quad-precision original under its parameter map, derivatives compared at junctions',
     ['unify', 'join', 'c2_connect', 'extended', 'split_u', 'add_dimension'])
exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'props_more.py')) else None

NA = []
if __name__ == '__main__':
    conf = json.load(open(os.path.join(HERE, 'harness', 'checks.json')))
    P = [p for p in P if p['id'] in conf]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh', checks=[
        dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py %s --thorough' % p['id'],
             evidence_file='evidence/%s.json' % p['id'], technique=p['_t'], level='exploration', level_note=p['_n'] + '. Sampled, not exhaustive; trusts the compiler, IEEE arithmetic and the reference in harness/.') for p in P],
        not_applicable=NA, notes='No hooks in /repo: the library is header-only and every harness includes it directly from /repo.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
